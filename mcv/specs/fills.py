"""Constructors, casts, fills, and data types."""

import re

import numpy as np

import matrix as M
from .. import den as D
from ..cases import Args, Case, arg, axes, bt, head, matrix_post
from ..hooks import B, npx
from ..inst import Inst
from ..run import walk
from .structure import MIXED, PARTIAL, VARIANTS, square_only, unary, variants

F32, F64, I64 = np.dtype(np.float32), np.dtype(np.float64), np.dtype(np.int64)


def with_dtype(spec, dt):
    """The value and the data type."""

    def post(w, ck, c, r):
        ck.matrix(r, spec(c))
        ck.dtype(B.dtype(r), dt(c) if callable(dt) else dt)
        ck.dtype(B.dtype(B.dense(r)), dt(c) if callable(dt) else dt, "dtype of the dense form")

    return post


def fills():
    f = ["ops/zeros.py", "ops/ones.py", "ops/zero.py", "ops/one.py", "ops/eye.py", "ops/fill_diag.py"]
    dt = lambda c: c.dens[0].dtype
    for s, p, b in variants():
        for dtype in (F64, F32, I64):
            t = {F64: "", F32: ":f32", I64: ":i64"}[dtype]
            if dtype is not F64 and b == "cb":
                continue

            def build(w, s=s, p=p, b=b, dtype=dtype):
                return Args(arg(w, s, "a", p, b, axes(w, p, (s,)), dtype=dtype))

            def case(tag, call, post):
                return Case("C15", f"{tag}{t}({s}[{b},{p}])", build, call, post, f, opname=tag)

            yield case("zeros", lambda c: B.zeros(c.objs[0]), with_dtype(lambda c: npx.zeros(D.shp(c.dens[0]), dtype=c.dens[0].dtype), dt))
            yield case("ones", lambda c: B.ones(c.objs[0]), with_dtype(lambda c: npx.ones(D.shp(c.dens[0]), dtype=c.dens[0].dtype), dt))
            yield case("zero", lambda c: B.zero(c.objs[0]), lambda w, ck, c, r: (ck.equal(D.den(r), D.den(0.0)), ck.dtype(B.dtype(r), c.dens[0].dtype)))
            yield case("one", lambda c: B.one(c.objs[0]), lambda w, ck, c, r: (ck.equal(D.den(r), D.den(1.0)), ck.dtype(B.dtype(r), c.dens[0].dtype)))
            if p == "nn":
                def eye_post(w, ck, c, r):
                    # One identity matrix stands for the whole batch.
                    n = D.shp(c.dens[0])[-1]
                    batch = D.shp(D.den(r))[:-2]
                    ck.matrix(r, npx.broadcast_to(D.eye(n), batch + (n, n)))
                    ck.true(len(batch) in (0, len(D.shp(c.dens[0])) - 2), "batch")
                    ck.dtype(B.dtype(r), c.dens[0].dtype)

                yield case("eye", lambda c: B.eye(c.objs[0]), eye_post)
    for b in ("", "b", "cb"):
        for dtype in (F64, F32, I64):
            t = {F64: "", F32: ":f32", I64: ":i64"}[dtype]

            def build(w, b=b, dtype=dtype):
                x = w.T("a", bt(w, b), None, dtype)
                return Args(Inst(x, D.den(x), "num", "num"), n=w.dim("n"))

            def spec(c):
                n = D.unwrap(c.n)
                return D.diagm(npx.broadcast_to(npx.expand_dims(c.dens[0], -1), D.shp(c.dens[0]) + (n,)))

            yield Case("C15", f"fill_diag{t}[{b}]", build, lambda c: B.fill_diag(c.objs[0], c.n), with_dtype(spec, dt), f, opname="fill_diag")


# ------------------------------------------------------------------ constructors


def constructors():
    f = ["constant.py", "diagonal.py", "triangular.py", "matrix.py", "lowrank.py", "woodbury.py", "kronecker.py"]
    for dtype in (F64, F32):
        t = "" if dtype is F64 else ":f32"
        for b in ("", "b", "cb"):
            def build(w, b=b):
                return Args(shape=bt(w, b) + (w.dim("m"), w.dim("n")))

            yield Case(
                "C15", f"Zero{t}[{b}]", build, lambda c, d=dtype: M.Zero(d.type, *c.shape),
                with_dtype(lambda c, d=dtype: npx.zeros(c.shape, dtype=d), dtype), f, opname="Zero",
            )
        # A constant with a batch of its own, a given batch, or both.
        for own in ("", "b", "1", "cb", "1b", "c1"):
            for given in ("", "b", "cb", "1b"):
                def build(w, own=own, given=given, dtype=dtype):
                    x = w.T("a", bt(w, own), None, dtype)
                    return Args(Inst(x, D.den(x), "num", "num"), shape=bt(w, given) + (w.dim("m"), w.dim("n")))

                def spec(c):
                    x = npx.expand_dims(npx.expand_dims(c.dens[0], -1), -1)
                    return npx.broadcast_to(x, D.bshape(D.shp(c.dens[0]), c.shape[:-2]) + tuple(c.shape[-2:]))

                yield Case("C15", f"Constant{t}[{own},{given}]", build, lambda c: M.Constant(c.objs[0], *c.shape), with_dtype(spec, dtype), f, opname="Constant")
    same = lambda c: c.dens[0]
    for b in ("", "b"):
        # Plain arrays of every rank.
        def vec(w, b=b):
            x = w.T("a", bt(w, b), None)
            return Args(Inst(x, D.den(x), "num", "num"))

        yield Case("C15", f"Dense(vector)[{b}]", vec, lambda c: M.Dense(c.objs[0]), matrix_post(lambda c: D.uprank(c.dens[0])), f, opname="Dense")
    # Matrices made from other matrices.
    for s, p, b in variants(("", "b"), kinds=["dense", "zero", "const", "diag", "lt", "ut", "lr:mid", "wb", "kron", "tiled", "num"]):
        if s == "num" and False:
            continue
        yield unary("C15", "Dense", s, p, b, lambda c: M.Dense(c.objs[0]), matrix_post(same), f)
        if s != "num" and p == "nn" and head(s) != "tiled":
            yield unary("C15", "Diagonal", s, p, b, lambda c: M.Diagonal(c.objs[0]), matrix_post(lambda c: D.diagm(npx.diagonal(c.dens[0], 0, -2, -1))), f)
    for s in ("lt", "diag", "zero"):
        for b in ("", "b"):
            yield unary("C15", "LowerTriangular", s, "nn", b, lambda c: M.LowerTriangular(c.objs[0]), matrix_post(same), f)
    for s in ("ut", "diag", "zero"):
        for b in ("", "b"):
            yield unary("C15", "UpperTriangular", s, "nn", b, lambda c: M.UpperTriangular(c.objs[0]), matrix_post(same), f)


# ------------------------------------------------------------------ casts


def cast_post(new):
    def post(w, ck, c, r):
        ck.matrix(r, c.dens[0])
        ck.dtype(B.dtype(r), new)
        ck.dtype(B.dtype(B.dense(r)), new, "dtype of the dense form")
        ck.true(type(r) is type(c.objs[0]), "type", f"{type(r)}")
        for o in walk(r):
            ck.dtype(B.dtype(o), new, "dtype of a component")
            for k, v in vars(o).items():
                if isinstance(v, np.ndarray):
                    ck.dtype(v.dtype, new, f"dtype of a component ({k})")
                if k == "blocks":
                    for x in v:
                        ck.dtype(B.dtype(x), new, "dtype of a block")

    return post


def casts():
    for s, p, b in variants(kinds=VARIANTS + MIXED):
        for old, new in ((F64, F32), (F32, F64), (I64, F64)):
            if old is I64 and "mix" in s or b == "cb" and old is not F64:
                continue

            def build(w, s=s, p=p, b=b, old=old):
                return Args(arg(w, s, "a", p, b, axes(w, p, (s,)), dtype=old))

            yield Case(
                "C15", f"cast:{old}->{new}({s}[{b},{p}])", build, lambda c, new=new: B.cast(new.type, c.objs[0]),
                cast_post(new), ["ops/cast.py"], opname="cast",
            )


# ------------------------------------------------------------------ data types of results


def dtype_post(dt):
    def post(w, ck, c, r):
        for x in r if isinstance(r, (tuple, list)) else (r,):
            ck.dtype(B.dtype(x), dt)
            if not isinstance(x, np.ndarray) and not np.isscalar(x) and hasattr(x, "T"):
                ck.dtype(B.dtype(B.dense(x)), dt, "dtype of the dense form")

    return post


def in_single(case, thorough):
    """The same call with all operands in single precision; only the data type of the
    result is stated."""

    def build(w):
        w.dtype = F32
        return case.build(w)

    return Case(
        "C15", "f32:" + case.name, build, case.call, dtype_post(F32), case.functions,
        opname=case.opname, num_only=case.num_only, bounded=case.bounded, thorough=thorough, trials=2,
    )


def in_mixed(case, a, b, thorough=False):
    """The same call with operands of different data types: NumPy's promotion."""

    def build(w):
        w.dtypes = {"a": a, "b": b}
        return case.build(w)

    return Case(
        "C15", f"{a},{b}:" + case.name, build, case.call, dtype_post(np.promote_types(a, b)), case.functions,
        opname=case.opname, num_only=case.num_only, bounded=case.bounded, thorough=thorough, trials=2,
    )


SKIP = re.compile(
    r"@|isnan|scalar|:mix|tuple|Shape|shape|batch_ones|\[cb|1b|b1|c1|power0\.5|bc\]|Constant\[|fill_diag|pickle"
    r"|operator|self-broadcast|chol|pd_|root|iqf|sample|logdet"
)
# Variations that matter less for data types.
THOROUGH = re.compile(r"^matmul3|\[b,[^)]*\[,|\[,[^)]*\[b,|^(B?\.T|transpose-twice|power(1|3|2\.0)|align_batch|(sum|mean):axis=(-1|None|-3|2|0)|B\.squeeze|take:axis=-1)|\[b,\]|\[,b\]|\[b\],[^)]*\[nn|:1x2|axis=default")


# Adding zero, and cancellation, may return the other operand as it is.
UNMIXED = re.compile(r"TT|zero|const|same-object|with-transpose|\([^\[]*(\[[^\[]*)?$|\(wb.*lr|\(lr.*wb|\(wb.*wb")


def dtypes():
    from . import get

    seen = set()
    for prop in ("C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C11", "C12", "C13", "C14"):
        for k in get(prop):
            if not isinstance(k, Case) or SKIP.search(k.name) or k.thorough or k.name in seen or k.opname == "align":
                continue
            if prop in ("C12", "C13", "C14") and re.search(r"list|getitem|reshape:|mask|axis=[012]|index", k.name):
                continue
            if prop == "C03" and not re.search(r"NN|TT", k.name):
                continue
            seen.add(k.name)
            yield in_single(k, bool(THOROUGH.search(k.name)))
            if re.match(r"(add|multiply|matmul|kron|block_diag|divide|subtract|concat:axis=-1)\(", k.name) and not UNMIXED.search(k.name):
                yield in_mixed(k, F32, F64, "[b" in k.name or k.name[:3] == "sub")
                yield in_mixed(k, F64, F32, "[b" in k.name or k.name[:3] == "sub")


def c15():
    yield from fills()
    yield from constructors()
    yield from casts()
    yield from dtypes()
