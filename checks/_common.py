"""Helpers shared by the case files."""
import numpy as _np


def kid(H, k):
    """identity of a random key / seed"""
    if H.symbolic:
        from engine import overrides as O
        from engine import sym as S

        if isinstance(k, (O.KeyTok,)):
            return k
        if isinstance(k, S.R):
            return ("seed", int(k.const()) if k.is_const() else k.h)
        if isinstance(k, (int, _np.integer)):
            return ("seed", int(k))
        return O.as_key(k)
    a = _np.asarray(k)
    return ("seed", int(a)) if a.ndim == 0 else tuple(int(v) for v in a.ravel())


def fake_sampler(H, name, dx, dy, mi=None, log=None):
    """a sampler with arbitrary dimensions, mutual information and samples; the samples are a function of (n, key)"""
    base = H.mod("bmi.samplers.base")

    class Fake(base.BaseSampler):
        def __init__(self):
            super().__init__(dim_x=dx, dim_y=dy)
            self.calls = []
            self.memo = {}
            self.mi = mi if mi is not None else H.real(f"{name}.mi")

        def sample(self, n_points, rng):
            k = kid(H, rng)
            self.calls.append((n_points, k))
            if log is not None:
                log.append((name, n_points, k))
            key = (int(n_points), k)
            if key not in self.memo:
                j = len(self.memo)
                self.memo[key] = (H.jarray(f"{name}.x{j}", (int(n_points), dx)), H.jarray(f"{name}.y{j}", (int(n_points), dy)))
            return self.memo[key]

        def mutual_information(self):
            return self.mi

    return Fake()


def flat(a):
    return list(a.ravel()) if hasattr(a, "ravel") else [a]
