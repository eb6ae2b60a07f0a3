"""Callers verified against the contracts of the products (C03) and of the inverse (C08).

While a caller is executed symbolically within `products()`, `B.matmul`, `B.mm`, and
`B.matmul_diag` return what their contracts promise - a matrix with the elements of the
product, of no particular structure - instead of running their bodies.  The inverse of a
Woodbury matrix keeps its structure, and is computed by its body.
"""

import contextlib

import matrix as M

from . import den as D
from .hooks import B, npx
from .symt import SYMBOLIC

NAMES = ("matmul", "mm", "matmul_diag", "dot")


def _product(xs, flags):
    out = None
    for x, t in zip(xs, flags):
        d = D.den(x)
        d = D.T(d) if t else d
        out = d if out is None else npx.matmul(out, d)
    return out


def _flags(n, args, kw):
    """The operands and their transpositions, or `None` for an unusual call."""
    flags = {f"tr_{x}": False for x in "abc"[:n]}
    if set(kw) - set(flags):
        return None
    flags.update(kw)
    return list(flags.values())


def _is_matrix(x):
    return getattr(x, "ndim", None) is not None and not isinstance(x, bool) and x.ndim >= 2 or isinstance(x, M.AbstractMatrix)


def _stub(name, real):
    def f(*args, **kw):
        flags = _flags(len(args), args, kw) if len(args) in (2, 3) and all(map(_is_matrix, args)) else None
        if flags is None or not SYMBOLIC[0]:
            return real(*args, **kw)
        out = _product(args, flags)
        if name == "matmul_diag":
            return npx.diagonal(out, 0, -2, -1)
        return M.Dense(out) if any(isinstance(x, M.AbstractMatrix) for x in args) else out

    return f


@contextlib.contextmanager
def products():
    if not SYMBOLIC[0]:
        yield
        return
    old = {n: getattr(B, n) for n in NAMES + ("pd_inv",)}

    def pd_inv(*args, **kw):
        new = {n: getattr(B, n) for n in old}
        for n, f in old.items():
            setattr(B, n, f)
        try:
            return old["pd_inv"](*args, **kw)
        finally:
            for n, f in new.items():
                setattr(B, n, f)

    try:
        for n in NAMES:
            setattr(B, n, _stub(n, old[n]))
        B.pd_inv = pd_inv
        yield
    finally:
        for n, f in old.items():
            setattr(B, n, f)


def call(f):
    def g(c):
        with products():
            return f(c)

    return g
