"""Frame conditions of every operation, and the invariant of stored results.

Frame: a call leaves every field of every operand as it was, except for the fields that
store results (`dense`, `cholesky`, `schur`, and the default middle factor).

Stored results: the invariant is that a stored result is either absent or the right one.
Every operation, started in a state that satisfies the invariant (every combination of
stored results that the operations can leave behind), must satisfy its postcondition, and
must leave the invariant intact for its operands and its result.  By induction, no history
of operations changes an answer."""

import re

import numpy as np

from .. import den as D
from ..cases import Args, Case, arg, axes, head
from ..hooks import B, npx
from ..run import Skip
from .linear import chol_post, inverse_post, logdet_spec, root_post, schur_post

STORED = ("dense", "cholesky", "schur", "_middle_default")


# ------------------------------------------------------------------ frames


def snapshot(x, memo):
    """What `x` is made of, down to the arrays."""
    from matrix.matrix import AbstractMatrix

    if id(x) in memo:
        return
    if isinstance(x, AbstractMatrix):
        memo[id(x)] = (x, {k: v for k, v in vars(x).items() if k not in STORED})
        for v in list(vars(x).values()):
            snapshot(v, memo)
    elif isinstance(x, (tuple, list)):
        memo[id(x)] = (x, list(x))
        for v in x:
            snapshot(v, memo)
    elif type(x) is np.ndarray:
        memo[id(x)] = (x, x.copy())


def unchanged(ck, memo, dens, objs):
    for x, old in list(memo.values()):
        if isinstance(old, dict):
            new = {k: v for k, v in vars(x).items() if k not in STORED}
            ck.true(set(new) == set(old), "frame", f"fields of {type(x).__name__}: {sorted(set(new) ^ set(old))}")
            for k in old:
                ck.true(new[k] is old[k], "frame", f"field {k} of {type(x).__name__}")
        elif isinstance(old, list):
            ck.true(len(x) == len(old) and all(a is b for a, b in zip(x, old)), "frame", "items of a sequence")
        else:
            ok = x.shape == old.shape and x.dtype == old.dtype and np.array_equal(x, old, equal_nan=x.dtype.kind == "f")
            ck.true(bool(ok), "frame", "elements of an array")


def stored(ck, x, what, depth=0):
    """The invariant of stored results, for everything `x` is made of."""
    from matrix import LowRank, Woodbury
    from matrix.matrix import AbstractMatrix

    if isinstance(x, (tuple, list)):
        for y in x:
            stored(ck, y, what, depth)
        return
    if not isinstance(x, AbstractMatrix) or hasattr(x, "_mcv_den"):
        return
    c = getattr(x, "dense", None)
    if c is not None and not callable(c):
        ck.equal(D.den(c), D.den(x), what + ": stored dense form")
    c = getattr(x, "cholesky", None)
    if c is not None and not callable(c):
        l = D.den(c)
        ck.equal(npx.matmul(l, D.T(l)), D.den(x), what + ": stored Cholesky factor", rtol=1e-5, atol=1e-6)
        stored(ck, c, what, depth + 1)
    c = getattr(x, "schur", None)
    if isinstance(x, Woodbury) and c is not None and not callable(c):
        d, lr = D.den(x.diag.diag), x.lr
        left, right = D.den(lr.left), D.den(lr.right)
        m = lr._middle
        mi = npx.linalg.inv(D.den(m)) if m is not None else npx.eye(D.shp(left)[-1])
        want = npx.add(mi, npx.matmul(D.T(right), npx.divide(left, npx.expand_dims(d, -1))))
        ck.equal(D.den(c), want, what + ": stored Schur complement", rtol=1e-5, atol=1e-6)
        stored(ck, c, what, depth + 1)
    c = getattr(x, "_middle_default", None)
    if isinstance(x, LowRank) and c is not None:
        n = D.shp(D.den(x.left))[-1]
        ck.equal(D.den(c), npx.eye(n), what + ": stored middle factor")
    if depth < 4:
        for k, v in list(vars(x).items()):
            if k not in STORED and isinstance(v, (AbstractMatrix, tuple, list)):
                stored(ck, v, what, depth + 1)


class Frame:
    """Wraps a case: only the frame and the stored results are stated."""

    def __init__(self, case):
        self.case = case

    def build(self, w):
        c = self.case.build(w)
        c.memo = {}
        for x in vars(c).values():
            if x is not c.dens and x is not c.memo:
                snapshot(x, c.memo)
        return c

    def post(self, w, ck, c, r):
        unchanged(ck, c.memo, None, c.objs)
        for x in c.objs:
            stored(ck, x, "operand")


FRAME_SKIP = re.compile(r"@|self-broadcast|Shape|shape|batch_ones|\[cb|1b|b1|c1|bc\]|Constant\[|pickle|with-transpose|\[b,[^)]*\[,|\[,[^)]*\[b,|,NT\)|,TN\)|,TT\)|N?T[NT]*$|-twice|power(1|3|2\.0)|axis=None")


def frames():
    from . import get

    seen = set()
    for prop in ("C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C20"):
        for k in get(prop):
            if not isinstance(k, Case) or k.num_only and prop == "C20" or FRAME_SKIP.search(k.name) or k.thorough or k.name in seen:
                continue
            seen.add(k.name)
            f = Frame(k)
            yield Case(
                "C16", "frame:" + k.name, f.build, k.call, f.post, k.functions, opname=k.opname,
                num_only=k.num_only, trials=2, bounded=k.bounded,
            )


# ------------------------------------------------------------------ stored results


def fill(o, state):
    from matrix import LowRank, Woodbury

    h = type(o)
    if state in ("dense", "all"):
        B.dense(o)
    if state in ("middle", "all"):
        if h is LowRank:
            o.middle
        elif h is Woodbury:
            o.lr.middle
    if state in ("schur",):
        B.schur(o)
    if state in ("pd_schur", "all"):
        if h is Woodbury:
            B.cholesky(B.pd_schur(o))
            B.cholesky(o.lr.middle)
            B.cholesky(o.diag)
    if state in ("chol", "all"):
        try:
            B.cholesky(o)
        except Exception as e:
            if type(e).__name__ not in ("NotFoundLookupError", "RuntimeError"):
                raise


STATES = {
    "dense": ["chol"], "diag": ["dense", "chol", "all"], "const": ["dense", "chol", "all"], "zero": ["dense", "chol"],
    "lr:mid:sym": ["dense", "chol", "all"], "lr:sym": ["dense", "middle", "chol", "all"], "lr": ["dense", "middle"],
    "lr:mid": ["dense"], "wb:mid": ["dense", "schur", "pd_schur", "chol", "all"], "wb:sym": ["middle", "pd_schur", "all"],
    "wb:mid:nolb:norb": ["pd_schur", "all"], "kron": ["dense", "chol", "all"], "kron:L=diag:R=wb+mid": ["dense", "chol", "all"],
    "kron:same": ["dense", "chol", "all"], "tiled": ["dense"], "tiled:-1:B=dense": ["dense"], "lt": [], "ut": [],
}


def value(spec):
    def post(w, ck, c, r):
        ck.matrix(r, spec(c))

    return post


def tup(r):
    return r if isinstance(r, (tuple, list)) else (r,)


def index_post(rows, cols):
    def f(c):
        d = c.dens[0]
        if rows:
            d = d[..., :2, :]
        if cols:
            d = d[..., :, :2]
        return d

    return value(f)


def logdet_post(w, ck, c, r):
    if w.sym:
        ck.equal(r, logdet_spec(c.fresh), "result")
    else:
        sign, want = np.linalg.slogdet(np.asarray(c.dens[0]))
        if not np.all(sign > 0):
            raise Skip("not positive")
        ck.equal(r, want, "result", rtol=1e-5, atol=1e-6)


INVERTIBLE = ("dense", "diag", "wb", "kron")
CHOLESKY = ("dense", "diag", "const", "zero", "lr", "wb", "kron")

UNARY = [
    ("dense", lambda a: B.dense(a), value(lambda c: c.dens[0]), None, ["ops/dense.py"]),
    ("transpose", lambda a: B.transpose(a), value(lambda c: D.T(c.dens[0])), None, ["ops/transpose.py"]),
    ("negative", lambda a: B.negative(a), value(lambda c: npx.negative(c.dens[0])), None, ["ops/negative.py"]),
    ("inv", lambda a: B.inv(a), inverse_post, INVERTIBLE, ["ops/inv.py", "ops/schur.py"]),
    ("pd_inv", lambda a: B.pd_inv(a), inverse_post, INVERTIBLE, ["ops/pd_inv.py", "ops/pd_schur.py"]),
    ("logdet", lambda a: B.logdet(a), logdet_post, INVERTIBLE, ["ops/logdet.py"]),
    ("cholesky", lambda a: B.cholesky(a), chol_post, CHOLESKY, ["ops/cholesky.py"]),
    ("root", lambda a: B.root(a), root_post, CHOLESKY, ["ops/root.py"]),
    ("schur", lambda a: B.schur(a), schur_post, ("wb",), ["ops/schur.py"]),
    ("pd_schur", lambda a: B.pd_schur(a), schur_post, ("wb",), ["ops/pd_schur.py"]),
    ("sum", lambda a: B.sum(a), value(lambda c: npx.sum(c.dens[0])), None, ["ops/sum.py"]),
    ("sum:axis=-1", lambda a: B.sum(a, axis=-1), value(lambda c: npx.sum(c.dens[0], axis=-1)), None, ["ops/sum.py"]),
    ("mean:axis=-2", lambda a: B.mean(a, axis=-2), value(lambda c: npx.mean(c.dens[0], axis=-2)), None, ["ops/mean.py"]),
    ("trace", lambda a: B.trace(a), value(lambda c: npx.sum(npx.diagonal(c.dens[0], 0, -2, -1), axis=-1)), None, ["ops/trace.py"]),
    ("diag", lambda a: B.diag_extract(a), value(lambda c: npx.diagonal(c.dens[0], 0, -2, -1)), None, ["ops/diag.py"]),
    ("power2", lambda a: B.power(a, 2), value(lambda c: npx.power(c.dens[0], 2)), None, ["ops/power.py"]),
    ("abs", lambda a: B.abs(a), value(lambda c: npx.abs(c.dens[0])), None, ["ops/abs.py"]),
    ("take", lambda a: B.take(a, [0, 1], axis=-2), index_post(True, False), None, ["ops/take.py"]),
    ("take:axis=-1", lambda a: B.take(a, [0, 1], axis=-1), index_post(False, True), None, ["ops/take.py"]),
    ("submatrix", lambda a: B.submatrix(a, [0, 1]), index_post(True, True), None, ["ops/submatrix.py"]),
    ("cast", lambda a: B.cast(np.float64, a), value(lambda c: c.dens[0]), None, ["ops/cast.py"]),
    ("cast-down", lambda a: B.cast(np.float32, a), value(lambda c: c.dens[0]), None, ["ops/cast.py"]),
    ("add-self", lambda a: B.add(a, a), value(lambda c: npx.add(c.dens[0], c.dens[0])), None, ["ops/add.py"]),
    ("subtract-self", lambda a: B.subtract(a, a), value(lambda c: npx.subtract(c.dens[0], c.dens[0])), None, ["ops/add.py"]),
    ("multiply-scalar", lambda a: B.multiply(2.0, a), value(lambda c: npx.multiply(2.0, c.dens[0])), None, ["ops/multiply.py"]),
    ("divide-scalar", lambda a: B.divide(a, 2.0), value(lambda c: npx.divide(c.dens[0], 2.0)), None, ["ops/divide.py"]),
    ("matmul-self", lambda a: B.matmul(a, a), value(lambda c: npx.matmul(c.dens[0], c.dens[0])), None, ["ops/matmul.py"]),
    ("matmul-self-T", lambda a: B.matmul(a, a, tr_b=True), value(lambda c: npx.matmul(c.dens[0], D.T(c.dens[0]))), None, ["ops/matmul.py"]),
]
NO_TILED = ("negative", "subtract-self", "add-self", "multiply-scalar", "divide-scalar", "matmul-self", "matmul-self-T", "sum", "sum:axis=-1", "mean:axis=-2", "trace", "diag")


def cases_after(s, state, b, name, f, post, functions, second=None, p2=None, flag="pd"):
    """One operation after the stored results of `state`, and the invariant afterwards."""

    def build(w):
        ks = (s,) if second is None else (s, second)
        ax = axes(w, "nnm", ks)
        out = [arg(w, s, "a", "nn", b, ax, flag)]
        if second is not None:
            out.append(arg(w, second, "b", p2, b, ax))
        c = Args(*out)
        # For specifications that look at the components: the same matrix, never used.
        c.fresh = c.objs[0] if head(s) == "num" else arg(w, s, "a", "nn", b, ax, flag).obj if w.sym else None
        fill(c.objs[0], state)
        c.memo = {}
        snapshot(c.objs, c.memo)
        return c

    def full(w, ck, c, r):
        post(w, ck, c, r)
        unchanged(ck, c.memo, None, c.objs)
        for x in c.objs:
            stored(ck, x, "operand")
        for x in tup(r):
            stored(ck, x, "result")

    call = lambda c: f(*c.objs)
    tag = f"after:{state}:{name}({s}[{b},nn]" + (f",{second}[{b},{p2}])" if second else ")")
    return Case("C16", tag, build, call, full, functions, opname=name)


GENERAL = ("pd_inv", "cholesky", "root", "pd_schur", "logdet", "matmul-self", "matmul-self-T", "power2", "abs")


def after_general():
    """Woodbury matrices that are only invertible: nothing about them is symmetric."""
    for s in ("wb:mid", "wb:mid:nolb:norb"):
        for b in ("", "b"):
            if not b and "lb" in s:
                continue
            for name, f, post, only, functions in UNARY:
                if name in GENERAL:
                    continue
                c = cases_after(s, "schur", b, name, f, post, functions, flag="inv")
                c.name = c.name.replace("after:schur", "after:schur:general")
                yield c
            for name, f, g, seconds, functions in [
                ("add", B.add, npx.add, ("diag", "lr"), ["ops/add.py"]),
                ("subtract", B.subtract, npx.subtract, ("diag", "lr"), ["ops/add.py"]),
                ("multiply", B.multiply, npx.multiply, ("diag", "const"), ["ops/multiply.py"]),
            ]:
                for k2 in seconds:
                    c = cases_after(s, "schur", b, name, f, value(lambda c, g=g: g(c.dens[0], c.dens[1])), functions, k2, "nn", "inv")
                    c.name = c.name.replace("after:schur", "after:schur:general")
                    yield c


def after():
    for s, states in STATES.items():
        h = head(s)
        for state in states:
            for b in ("", "b"):
                if not b and "lb" in s:
                    continue
                flag = None if h in ("zero", "tiled") or s in ("lr", "lr:mid") else "pd"
                for name, f, post, only, functions in UNARY:
                    if only is not None and h not in only or only is CHOLESKY and flag is None and h != "zero":
                        continue
                    if h == "tiled" and name in NO_TILED:
                        continue
                    if name.startswith("matmul-self") and "R=wb" in s:
                        continue
                    if name == "abs" and h == "lr":
                        continue
                    yield cases_after(s, state, b, name, f, post, functions, flag=flag)
                if h == "tiled":
                    continue
                for name, f, g, seconds, functions in [
                    ("add", B.add, npx.add, ("dense", "diag", "lr"), ["ops/add.py"]),
                    ("subtract", B.subtract, npx.subtract, ("dense", "diag", "lr"), ["ops/add.py"]),
                    ("multiply", B.multiply, npx.multiply, ("dense", "diag", "const"), ["ops/multiply.py"]),
                    ("matmul", B.matmul, npx.matmul, ("dense", "diag", "wb:mid"), ["ops/matmul.py"]),
                ]:
                    for k2 in seconds:
                        if h == "kron" and head(k2) not in ("dense", "diag", "const"):
                            continue
                        yield cases_after(s, state, b, name, f, value(lambda c, g=g: g(c.dens[0], c.dens[1])), functions, k2, "nn", flag)
                if h in ("diag", "wb", "kron", "dense"):
                    for k2 in ("dense", "zero", "diag"):
                        p2 = "nn" if k2 == "diag" else "nm"

                        def post(w, ck, c, r):
                            x = D.den(r)
                            ck.equal(npx.matmul(c.dens[0], x), c.dens[1], "product", rtol=1e-5, atol=1e-6)
                            ck.matrix(r, x, "result", rtol=1e-5, atol=1e-6)

                        yield cases_after(s, state, b, "solve", B.solve, post, ["ops/solve.py"], k2, p2, flag)


def c16():
    yield from frames()
    yield from after()
    yield from after_general()
