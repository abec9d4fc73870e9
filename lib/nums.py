"""Small numeric helpers of the checks."""
import numpy as np
from core import fail, require


def arr(x, dtype=float):
    return np.array(x, dtype=dtype)


def same(got, want, what, tol=1e-9):
    """Equality of numbers up to rounding, relative to the largest of them."""
    try:
        g = np.asarray(got, float)
    except (TypeError, ValueError):
        fail("%s: not numbers: %r", what, got)
    w = np.asarray(want, float)
    require(g.shape == w.shape, "%s: shape %s, expected %s", what, g.shape, w.shape)
    if w.size == 0:
        return
    scale = max(1.0, float(np.abs(w).max()))
    bad = ~(np.abs(g - w) <= tol * scale)
    if bad.any():
        k = tuple(int(i[0]) for i in np.nonzero(bad)) if g.ndim else ()
        fail("%s%s: %.12g, expected %.12g", what, list(k) if k else "", g[k], w[k])


def equal(got, want, what):
    g, w = np.asarray(got), np.asarray(want)
    require(g.shape == w.shape, "%s: shape %s, expected %s", what, g.shape, w.shape)
    if not (g == w).all():
        k = tuple(int(i[0]) for i in np.nonzero(g != w)) if g.ndim else ()
        fail("%s%s: %r, expected %r", what, list(k) if k else "", g[k], w[k])


def frozen(**arrays):
    """Copies of arrays, to see whether they were changed."""
    return {k: np.array(v, copy=True) for k, v in arrays.items()}


def unchanged(before, **arrays):
    for k, v in arrays.items():
        equal(v, before[k], "input %s changed" % k)
