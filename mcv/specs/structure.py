"""One matrix: representation, transposition, reductions, diagonals, unary maps."""

import itertools

import numpy as np

from .. import den as D
from ..cases import Args, Case, arg, axes, bt, head, matrix_post
from ..hooks import B, npx
from .elementwise import SQ

SQUARE = ("diag", "lt", "ut", "wb")

# Every way in which a matrix object can be put together.
VARIANTS = [
    "dense", "zero", "const", "diag", "lt", "ut", "lr", "lr:sym", "lr:mid", "lr:mid:sym", "lr:mid:rectmid", "lr:dmid",
    "lr:mat", "lr:mid:mat", "lr:nolb", "lr:norb", "lr:mid:mb:nolb:norb", "lr:mid:mb", "lr:rone", "lr:mid:rone", "wb",
    "wb:mid", "wb:sym", "wb:nodb:mid", "wb:nolb:norb", "wb:mid:mb:nolb:norb:nodb", "wb:dmid", "kron", "kron:L=diag",
    "kron:R=diag:L=lt", "kron:L=diag:R=diag", "kron:R=ut", "kron:nolb", "kron:norb", "kron:L=const", "kron:R=zero",
    "kron:L=lr+mid", "kron:L=num:R=num",
    "kron:R=const", "kron:L=const:R=const", "kron:L=zero", "kron:R=lr+mid", "tiled:n=3:only2:B=dense", "tiled:-1:n=4:B=dense", "tiled:n=4:B=const:B2=dense", "tiled", "tiled:-1",
    "tiled:nob2", "tiled:-1:nob2", "tiled:B=dense", "tiled:B=const:B2=zero", "tiled:-1:B=lr+mid", "tiled:B=num:B2=dense",
    "kron:same", "kron:same:L=diag", "kron:Lone", "kron:Rone", "kron:LRone", "tiled:pos", "tiled:-1:pos",
    "lr:mid:slb:mb", "lr:mid:plb:srb:qmb", "lr:plb:qrb", "wb:mid:sdb:mb", "wb:mid:qdb:plb", "wb:mid:slb:srb", "wb:plb:prb",
    "wb:mid:plb:qrb:smb", "kron:slb", "kron:plb:qrb", "tiled:s1b", "tiled:-1:p1b:q2b:B=dense",
    "kron:olb", "kron:orb", "kron:olb:L=diag", "lr:mid:olb:mb", "lr:orb", "lr:mid:omb", "wb:mid:odb", "wb:olb:orb", "tiled:ob", "tiled:-1:ob:B=dense",
]
# With more batch dimensions.
DEEP = ["dense", "zero", "const", "diag", "lt", "ut", "lr", "lr:mid", "wb:mid", "kron", "tiled", "tiled:-1"]
# Components with different data types.
MIXED = ["lr:mix", "lr:mid:mix", "wb:mix", "wb:mid:mix", "kron:mix", "kron:mix:L=diag", "tiled:mix", "tiled:-1:mix:B=dense",
    "lr:mid:mixm", "lr:dmid:mixm", "lr:mid:mix2", "lr:mix2", "wb:mix2", "kron:mix2", "tiled:mix2", "tiled:-1:n=4:mix2:B=dense"]
# Batched operands whose batch is spread over components only make sense with a batch.
PARTIAL2 = tuple(f"{k}{x}b" for k in "spq" for x in "lrmd12")
PARTIAL = ("only2", "nolb", "norb", "mb", "nodb", "nob2", "olb", "orb", "omb", "odb", "ob")


def square_only(spec):
    if head(spec) in SQUARE or "sym" in spec.split(":"):
        return True
    return any(x in spec for x in ("=diag", "=lt", "=ut"))


def variants(batches=("", "b", "cb"), rect=True, kinds=None):
    """Type, pattern, and batch of one operand."""
    for s in kinds or VARIANTS:
        partial = any(o in PARTIAL for o in s.split(":"))
        for b in batches:
            if partial and not b or len(b) < 2 and any(o in PARTIAL2 for o in s.split(":")):
                continue
            yield s, "nn", b
            if rect and not square_only(s):
                yield s, "mn", b


def unary(prop, tag, s, p, b, call, post, functions, flag=None, opname=None, **kw):
    def build(w):
        ax = axes(w, p, (s,))
        return Args(arg(w, s, "a", p, b, ax, flag))

    return Case(prop, f"{tag}({s}[{b},{p}])", build, call, post, functions, opname=opname or tag, **kw)


# ------------------------------------------------------------------ C04: unary maps


def c04():
    kinds = [k for k in VARIANTS]
    for s, p, b in [*variants(("", "b"), kinds=kinds), *deep(("cb", "dcb"))]:
        if head(s) != "tiled":
            yield unary("C04", "negative", s, p, b, lambda c: B.negative(c.objs[0]), matrix_post(lambda c: npx.negative(c.dens[0])), ["ops/negative.py"])
            yield unary("C04", "operator-", s, p, b, lambda c: -c.objs[0], matrix_post(lambda c: npx.negative(c.dens[0])), ["ops/negative.py", "matrix.py"])
        yield unary("C04", "abs", s, p, b, lambda c: B.abs(c.objs[0]), matrix_post(lambda c: npx.abs(c.dens[0])), ["ops/abs.py"])
        yield unary("C04", "isnan", s, p, b, lambda c: B.isnan(c.objs[0]), isnan_post, ["ops/isnan.py"], num_only=False)
        for e in (1, 2, 3, 2.0):
            yield unary("C04", f"power{e}", s, p, b, lambda c, e=e: B.power(c.objs[0], e), matrix_post(lambda c, e=e: npx.power(c.dens[0], e)), ["ops/power.py"])
        yield unary("C04", "operator**2", s, p, b, lambda c: c.objs[0] ** 2, matrix_post(lambda c: npx.power(c.dens[0], 2)), ["ops/power.py", "matrix.py"])
        # Only non-negative matrices have a real square root.
        if pos_ok(s):
            yield unary("C04", "sqrt", s, p, b, lambda c: B.sqrt(c.objs[0]), matrix_post(lambda c: npx.sqrt(c.dens[0])), ["ops/sqrt.py"], flag="pos")
            yield unary("C04", "power0.5", s, p, b, lambda c: B.power(c.objs[0], 0.5), matrix_post(lambda c: npx.sqrt(c.dens[0])), ["ops/power.py"], flag="pos")
        if head(s) in ("dense", "const", "kron", "tiled") and pos_ok(s):
            for e in (0, -1):
                yield unary("C04", f"power{e}", s, p, b, lambda c, e=e: B.power(c.objs[0], e), matrix_post(lambda c, e=e: power_spec(c.dens[0], e)), ["ops/power.py"], flag="pos")


def pos_ok(s):
    """Every entry of the data positive implies every entry non-negative."""
    return head(s) not in ("lt", "ut") and "=lt" not in s and "=ut" not in s and "=diag" not in s and "=zero" not in s


def power_spec(d, e):
    if e == 0:
        return npx.ones(D.shp(d), dtype=d.dtype)
    return npx.divide(1.0, d)


def isnan_post(w, ck, c, r):
    if w.sym:
        ck.true(tuple(bool(a == b) for a, b in zip(D.shp(r), D.shp(c.dens[0]))).count(False) == 0, "result/shape")
    else:
        ck.equal(r, np.isnan(np.asarray(c.dens[0])), "result")


# ------------------------------------------------------------------ C05: transposition


def deep(batches=("dcb",)):
    return variants(batches, kinds=DEEP)


def c05():
    tr = matrix_post(lambda c: D.T(c.dens[0]))
    for s, p, b in [*variants(), *deep(("dcb", "edcb"))]:
        for tag, f in (("transpose", lambda c: B.transpose(c.objs[0])), (".T", lambda c: c.objs[0].T), ("B.T", lambda c: B.T(c.objs[0]))):
            yield unary("C05", tag, s, p, b, f, tr, ["ops/transpose.py"])
        yield unary(
            "C05", "transpose-twice", s, p, b, lambda c: B.transpose(B.transpose(c.objs[0])),
            matrix_post(lambda c: c.dens[0]), ["ops/transpose.py"],
        )
    for s in ("tiled:0", "tiled:-3", "tiled:0:two", "tiled:-3:two:B=dense", "tiled:1"):
        for p in ("nn", "mn"):
            b = "cb" if s == "tiled:1" else "b"
            for tag, f in (("transpose", lambda c: B.transpose(c.objs[0])), (".T", lambda c: c.objs[0].T)):
                yield unary("C05", tag, s, p, b, f, tr, ["ops/transpose.py"])


# ------------------------------------------------------------------ C06: reductions


def reduce_case(tag, s, p, b, axis, positional=False):
    f = getattr(B, tag)
    g = getattr(npx, tag)

    def call(c):
        if axis == "all":
            return f(c.objs[0])
        return f(c.objs[0], axis=axis)

    def spec(c):
        return g(c.dens[0]) if axis in ("all", None) else g(c.dens[0], axis=axis)

    return unary("C06", f"{tag}:axis={axis}", s, p, b, call, matrix_post(spec), [f"ops/{tag}.py"], opname=tag)


def c06():
    for s, p, b in [*variants(), *deep()]:
        if head(s) != "tiled":
            n = len(b) + 2
            for tag in ("sum", "mean"):
                for axis in ["all", None, *range(-n, n)]:
                    if tag == "mean" and axis == "all":
                        continue
                    yield reduce_case(tag, s, p, b, axis)
            dg = matrix_post(lambda c: npx.diagonal(c.dens[0], 0, -2, -1))
            if True:
                for tag in ("diag", "diag_extract"):
                    yield unary("C06", tag, s, p, b, lambda c, tag=tag: getattr(B, tag)(c.objs[0]), dg, ["ops/diag.py", "ops/diag_extract.py"])
                yield unary("C06", ".diagonal", s, p, b, lambda c: c.objs[0].diagonal(), dg, ["ops/diag.py", "matrix.py"])
                yield unary(
                    "C06", "trace", s, p, b, lambda c: B.trace(c.objs[0]),
                    matrix_post(lambda c: npx.sum(npx.diagonal(c.dens[0], 0, -2, -1), axis=-1)), ["ops/trace.py"],
                )
    # Constructing diagonal matrices.
    for b in ("", "b", "cb"):
        def build(w, b=b):
            t = w.T("a", bt(w, b) + (w.dim("n"),))
            return Args(__import__("mcv.inst", fromlist=["Inst"]).Inst(t, t, "num", "num"))

        yield Case("C06", f"diag_construct[{b}]", build, lambda c: B.diag_construct(c.objs[0]), matrix_post(lambda c: D.diagm(c.dens[0])), ["lab"])
        yield Case("C06", f"Diagonal[{b}]", build, lambda c: __import__("matrix").Diagonal(c.objs[0]), matrix_post(lambda c: D.diagm(c.dens[0])), ["diagonal.py"])


# ------------------------------------------------------------------ C07: observers


def observers_post(w, ck, c, r):
    a, d = c.objs[0], c.dens[0]
    s = D.shp(d)
    ck.equal(B.dense(a), d, "dense")
    ck.equal(B.dense(a), d, "dense-again")

    def same(got, want, what):
        got = tuple(got) if not isinstance(got, (tuple, list)) else got
        ck.true(len(got) == len(want), what, f"{got} instead of {want}")
        for g, x in zip(got, want):
            ck.true(bool(D.unwrap(g) == D.unwrap(x)), what, f"{got} instead of {want}")

    same(B.shape(a), s, "shape")
    same(a.shape, s, ".shape")
    same(B.shape_batch(a), s[:-2], "shape_batch")
    same(B.shape_matrix(a), s[-2:], "shape_matrix")
    ck.true(B.rank(a) == len(s), "rank")
    for i in range(len(s)):
        same((B.shape(a, i),), (s[i],), "shape-i")
        same((B.shape(a, i - len(s)),), (s[i],), "shape-i")
    for i in range(len(s) - 2):
        same((B.shape_batch(a, i),), (s[i],), "shape_batch-i")
        same((B.shape_batch(a, i - len(s) + 2),), (s[i],), "shape_batch-i")
    for i in (0, 1):
        same((B.shape_matrix(a, i),), (s[-2 + i],), "shape_matrix-i")
        same((B.shape_matrix(a, i - 2),), (s[-2 + i],), "shape_matrix-i")
    ck.dtype(B.dtype(a), d.dtype, "dtype")
    ck.dtype(a.dtype, d.dtype, ".dtype")
    ck.true(B.uprank(a) is a, "uprank")
    if not w.sym:
        t = B.to_numpy(a)
        ck.true(isinstance(t, np.ndarray), "to_numpy-type")
        ck.equal(t, d, "to_numpy")
        if head(c.insts[0].desc) != "tiled":
            ck.true(B.isabstract(a) is False or not B.isabstract(a), "isabstract")
        str(a), repr(a)


def c07():
    for s, p, b in variants(("", "b"), kinds=MIXED):
        yield unary("C07", "observers", s, p, b, lambda c: None, observers_post, ["ops/dense.py", "ops/dtype.py"])
    for s, p, b in [*variants(("", "b", "cb")), *deep(("dcb", "edcb"))]:
        yield unary("C07", "observers", s, p, b, lambda c: None, observers_post, ["ops/dense.py", "ops/shape.py", "ops/shape_batch.py", "ops/shape_matrix.py", "ops/rank.py", "ops/dtype.py"])
    for s in ("tiled:0", "tiled:-3", "tiled:0:two", "tiled:-3:two:B=dense", "tiled:1", "tiled:0:B=lr+mid", "tiled:0:two:B=diag"):
        for p in ("nn", "mn"):
            if "diag" in s and p == "mn":
                continue
            b = "cb" if s == "tiled:1" else "b"
            yield unary("C07", "observers", s, p, b, lambda c: None, observers_post, ["ops/dense.py", "ops/shape.py"])
