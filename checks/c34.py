"""Subplots of fixed size: figure size and placement."""
from engine.harness import case

M = "bmi.plot_utils.subplots_from_axsize"


class FakeAxes:
    def __init__(self, fig, rect, locator):
        self.fig, self.rect, self.locator = fig, rect, locator

    def set_axes_locator(self, loc):
        self.locator = loc

    def set_position(self, rect):
        self.rect = rect

    def box(self):
        if self.locator is not None:
            return self.locator(self, None)
        w, h = self.fig.size
        a, b, c, d = self.rect
        return a * w, b * h, c * w, d * h


class FakeFigure:
    """stands in for a matplotlib figure: size in inches and the axes added to it"""

    def __init__(self, size):
        self.size = tuple(size)
        self.axes = []

    def set_size_inches(self, w, h=None):
        self.size = tuple(w) if h is None else (w, h)

    def get_size_inches(self):
        return self.size

    def add_axes(self, rect, axes_locator=None, **k):
        a = FakeAxes(self, rect, axes_locator)
        self.axes.append(a)
        return a


class FakeDivider:
    """axes_grid1.Divider over fixed sizes, without aspect: cells are stretched by the room they have"""

    def __init__(self, fig, pos, horizontal, vertical, aspect=None, anchor="C"):
        if aspect is not False:
            raise NotImplementedError("only aspect=False is modelled")
        self.fig, self.pos = fig, pos
        self.h, self.v = list(horizontal), list(vertical)

    def get_position(self):
        return self.pos

    def new_locator(self, nx, ny, nx1=None, ny1=None):
        nx1 = nx + 1 if nx1 is None else nx1
        ny1 = ny + 1 if ny1 is None else ny1

        def locate(ax, renderer):
            # the room left over stays free, as with fixed sizes the factor is irrelevant
            w, h = self.fig.size
            return (self.pos[0] * w + _add(self.h[:nx]), self.pos[1] * h + _add(self.v[:ny]), _add(self.h[nx:nx1]), _add(self.v[ny:ny1]))

        return locate


def _add(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def _plots(H):
    m = H.mod(M)
    if not H.symbolic:
        import matplotlib

        matplotlib.use("Agg")
        return m, lambda ax: _real_box(ax), lambda fig: fig.get_size_inches()
    H.stub("matplotlib.pyplot.figure", lambda figsize=None, **k: FakeFigure(figsize))
    H.stub("mpl_toolkits.axes_grid1.Divider", FakeDivider)
    H.stub("mpl_toolkits.axes_grid1.Size.Fixed", lambda x: x)
    return m, lambda ax: ax.box(), lambda fig: fig.size


def _real_box(ax):
    fig = ax.figure
    loc = ax.get_axes_locator()
    b = loc(ax, fig.canvas.get_renderer()) if loc is not None else ax.get_position()
    w, h = fig.get_size_inches()
    return b.x0 * w, b.y0 * h, b.width * w, b.height * h


def _sizes(H, nm, n, form):
    """-> argument, list of sizes"""
    if form == "scalar":
        v = H.real(nm, 0.02, 50)
        return v, [v] * n
    v = [H.real(f"{nm}{i}", 0.02, 50) for i in range(n)]
    return {"list": v, "tuple": tuple(v)}[form], v


GRIDS = [dict(nr=1, nc=1), dict(nr=2, nc=1), dict(nr=1, nc=3), dict(nr=3, nc=2), dict(nr=2, nc=3)]


@case("C34", quick=GRIDS, thorough=GRIDS + [dict(nr=4, nc=3), dict(nr=1, nc=5), dict(nr=5, nc=2)], max_paths=3000, replays=6)
def placement(H, nr, nc):
    """every size, margin and spacing"""
    m, box, size = _plots(H)
    fx = H.pick("x_sizes", ["scalar", "list", "tuple"])
    fy = H.pick("y_sizes", ["scalar", "list", "tuple"])
    ax, xs = _sizes(H, "x", nc, fx)
    ay, ys = _sizes(H, "y", nr, fy)
    kw = {}
    if fx == "scalar":
        if nc != 1 or H.pick("give_ncols", [True, False]):
            kw["ncols"] = nc
    elif H.pick("give_ncols", [True, False]):
        kw["ncols"] = nc
    if fy == "scalar":
        if nr != 1 or H.pick("give_nrows", [True, False]):
            kw["nrows"] = nr
    elif H.pick("give_nrows", [True, False]):
        kw["nrows"] = nr
    sp = {}
    spaces = H.pick("spaces", ["default", "scalar", "list"])
    for nm, n in (("hspace", nr), ("wspace", nc)):
        if spaces == "default":
            sp[nm] = [0.5] * (n - 1)
        elif spaces == "scalar":
            kw[nm] = H.real(nm, 0, 3)
            sp[nm] = [kw[nm]] * (n - 1)
        else:
            kw[nm] = sp[nm] = [H.real(f"{nm}{i}", 0, 3) for i in range(n - 1)]
    mg = dict(top=0.1, bottom=0.5, left=0.5, right=0.1)
    if H.pick("margins", ["default", "given"]) == "given":
        for k in mg:
            kw[k] = mg[k] = H.real(k, 0, 3)
    sq = H.pick("squeeze", [True, False])
    if not sq:
        kw["squeeze"] = False
    fig, axs = m.subplots_from_axsize((ax, ay), **kw)
    try:
        w, h = size(fig)
        H.eq(w, mg["left"] + _add(xs) + _add(sp["wspace"]) + mg["right"], "figure width is left + widths + spacings + right")
        H.eq(h, mg["top"] + _add(ys) + _add(sp["hspace"]) + mg["bottom"], "figure height is top + heights + spacings + bottom")
        if nr == nc == 1:
            H.true(not hasattr(axs, "__len__"), "a single axes is returned bare")
            grid = [[axs]]
        else:
            shape = (nr, nc) if not sq else tuple(n for n in (nr, nc) if n > 1)
            H.true(tuple(axs.shape) == shape, "one axes per row and column")
            flat = list(axs.ravel())
            grid = [flat[r * nc:(r + 1) * nc] for r in range(nr)]
        H.true(len({id(a) for row in grid for a in row}) == nr * nc, "one axes per row and column")
        H.true(len(fig.axes) == nr * nc, "one axes per row and column")
        for r in range(nr):
            for c in range(nc):
                x0, y0, bw, bh = box(grid[r][c])
                H.eq(bw, xs[c], "axes width as requested for the column")
                H.eq(bh, ys[r], "axes height as requested for the row")
                H.eq(x0, mg["left"] + _add(xs[:c]) + _add(sp["wspace"][:c]), "axes stand in their column")
                H.eq(y0, mg["bottom"] + _add(ys[r + 1:]) + _add(sp["hspace"][r:]), "axes stand in their row, row 0 on top")
    finally:
        if not H.symbolic:
            import matplotlib.pyplot as plt

            plt.close("all")


@case("C34", quick=[{}], max_paths=400)
def mismatch(H):
    """counts that contradict the listed sizes"""
    m, _, _ = _plots(H)
    v = [H.real(f"v{i}", 0.02, 50) for i in range(3)]
    n = H.int("count", 1, 5)
    which = H.pick("which", ["ncols", "nrows", "wspace", "hspace"])
    if which == "ncols":
        H.assume(n != 3)
        go = lambda: m.subplots_from_axsize((v, 2), ncols=int(n))
    elif which == "nrows":
        H.assume(n != 3)
        go = lambda: m.subplots_from_axsize((2, v), nrows=int(n))
    elif which == "wspace":
        H.assume(n != 4)
        go = lambda: m.subplots_from_axsize((2, 1), ncols=int(n), wspace=v)
    else:
        H.assume(n != 4)
        go = lambda: m.subplots_from_axsize((2, 1), nrows=int(n), hspace=v)
    H.raises((AssertionError, ValueError), go, f"counts must agree with the listed sizes ({which})")


@case("C34", quick=[{}])
def default(H):
    """without arguments: one axes of size (3, 2)"""
    m, box, size = _plots(H)
    fig, ax = m.subplots_from_axsize()
    b = box(ax)
    H.eq(b[2], 3.0, "default axes are 3 wide")
    H.eq(b[3], 2.0, "default axes are 2 high")
    H.eq(size(fig)[0], 3.6, "figure width is left + widths + spacings + right")
    H.eq(size(fig)[1], 2.6, "figure height is top + heights + spacings + bottom")
    if not H.symbolic:
        import matplotlib.pyplot as plt

        plt.close("all")
