"""Structure is kept where it is known, and never claimed where it is false."""

import itertools

import numpy as np

import matrix as M
from .. import den as D
from ..cases import Args, Case, arg, axes, head
from ..hooks import B, npx
from ..symt import as_poly
from .elementwise import batches_for, compatible_plans
from .structure import square_only, unary, variants

# What may be returned where a form is promised: anything at least as structured.
FORMS = {
    "zero": (M.Zero,),
    "diag": (M.Diagonal, M.Zero),
    "const": (M.Constant, M.Zero),
    "lt": (M.LowerTriangular, M.Diagonal, M.Zero),
    "ut": (M.UpperTriangular, M.Diagonal, M.Zero),
    "lr": (M.LowRank, M.Constant, M.Zero),
    "wb": (M.Woodbury, M.LowRank, M.Diagonal, M.Constant, M.Zero),
    "kron": (M.Kronecker, M.Zero),
    "tiled": (M.TiledBlocks,),
}


def rank_of(x):
    """The rank that the representation shows."""
    if isinstance(x, M.Zero):
        return 0
    if isinstance(x, M.Constant):
        return 1
    if isinstance(x, M.LowRank):
        a, b = (D.unwrap(D.shp(f)[-1]) for f in (x.left, x.right))
        return a if known_le(a, b) else b if known_le(b, a) else min(a, b)
    if isinstance(x, M.Woodbury):
        return rank_of(x.lr)
    if isinstance(x, M.Diagonal):
        return 0  # the diagonal part does not count
    return None


def known_le(a, b):
    """a <= b?  The contract of `align` bounds the number of joined columns by the sum of
    the numbers of columns."""
    p, q = as_poly(a), as_poly(b)
    if p.is_const() and q.is_const():
        return p.const_value() <= q.const_value()
    from .. import aligncontract
    from .. import nf as N

    d = aligncontract.bounded(q - p)
    return N.BASE.prove(("ge", d))


def shown(ck, r):
    """A matrix does not report a rank above that of its factors."""
    r = r.lr if isinstance(r, M.Woodbury) else r
    if isinstance(r, M.LowRank) and hasattr(r, "rank"):
        ck.true(known_le(D.unwrap(r.rank), rank_of(r)), "reported rank", f"{r.rank} is not known to be at most {rank_of(r)}")


def form(kind, rank=None):
    """Postcondition: the result has the form, and really has it; and a rank of at most
    `rank(c)`."""

    def post(w, ck, c, r):
        ck.true(isinstance(r, FORMS[kind]), "form", f"{type(r).__name__} instead of {FORMS[kind][0].__name__}")
        ck.invariant(r)
        shown(ck, r)
        if rank is not None:
            got, want = rank_of(r), rank(c)
            ck.true(known_le(got, want), "rank", f"{got} is not known to be at most {want}")

    return post


def ranks(c, k):
    return rank_of(c.objs[k])


def both(op):
    return lambda c: op(ranks(c, 0), ranks(c, 1))


LOW = ("lr", "const")
PLUS = ("lr", "const", "wb", "diag")
add_ = both(lambda x, y: x + y)
times = both(lambda x, y: x * y)


def of_sum(a, b):
    """The form of a sum, and a bound on its rank."""
    h = {a, b}
    if a == "zero" or b == "zero":
        o = b if a == "zero" else a
        return (o, (lambda c: ranks(c, 0 if b == "zero" else 1)) if o in ("lr", "wb", "const") else None) if o in FORMS and o != "tiled" else None
    if h <= {"diag"}:
        return "diag", None
    if h <= {"const"}:
        return "const", None
    if h <= {"diag", "lt"}:
        return "lt", None
    if h <= {"diag", "ut"}:
        return "ut", None
    if h <= {"lr", "const"}:
        return "lr", add_
    if h <= {"lr", "const", "wb", "diag"}:
        return "wb", add_
    return None


def of_product(a, b):
    """The form of an element-wise product."""
    h = {a, b}
    if "zero" in h:
        return "zero", None
    if "diag" in h:
        return "diag", None
    if h == {"lt", "ut"}:
        return "diag", None
    for t in ("lt", "ut"):
        if t in h and "wb" not in h:
            return t, None
    if h <= {"const", "scalar"}:
        return "const", None
    if "scalar" in h or "const" in h:
        o = [x for x in (a, b) if x not in ("scalar", "const")][0]
        if o in ("lr", "wb"):
            return o, lambda c: ranks(c, 0 if o == a else 1)
        if o == "kron":
            return o, None
        return None
    if h <= {"lr", "wb"}:
        # The product of the low-rank parts, and diagonal parts.
        return ("lr" if h == {"lr"} else "wb"), times
    if h == {"kron"}:
        return "kron", None
    return None


def of_matmul(a, b, ta, tb):
    """The form of a matrix product."""
    t = {"lt": "ut", "ut": "lt"}
    a = t.get(a, a) if ta else a
    b = t.get(b, b) if tb else b
    h = {a, b}
    if "zero" in h:
        return "zero", None
    if h == {"const"}:
        return "const", None
    if "const" in h and "wb" not in h:
        return "lr", (lambda c: 1)
    if h == {"lr"}:
        return "lr", lambda c: ranks(c, 0)
    if "lr" in h and "wb" not in h:
        return "lr", lambda c: ranks(c, 0 if a == "lr" else 1)
    if h == {"diag"}:
        return "diag", None
    for x in ("lt", "ut"):
        if h <= {"diag", x}:
            return x, None
    if h == {"diag", "wb"}:
        return "wb", lambda c: ranks(c, 0 if a == "wb" else 1)
    if h == {"wb", "lr"} or h == {"wb", "const"} or h == {"wb"}:
        return ("wb" if h == {"wb"} else "lr"), None
    if h == {"kron"}:
        return "kron", None
    return None


KINDS = ["dense", "zero", "diag", "const", "lt", "ut", "lr", "lr:mid", "wb:mid", "kron", "num", "scalar"]


def binary(op, f, k1, k2, p1, p2, b1, b2, post, tag="", **kw):
    def build(w):
        ax = axes(w, [c for c in p1 + p2 if c != "1"], (k1, k2))
        return Args(arg(w, k1, "a", p1, b1, ax), arg(w, k2, "b", p2, b2, ax))

    return Case("C18", f"{op}({k1}[{b1},{p1}],{k2}[{b2},{p2}]){tag}", build, lambda c: f(*c.objs), post, [f"ops/{op}.py"], opname=op, **kw)


def sums_and_products():
    for k1, k2 in itertools.product(KINDS, repeat=2):
        raw = ("num", "scalar", "dense")
        if k1 in raw and k2 in raw:
            continue
        a, b = head(k1), head(k2)
        for op, f, rule in (("add", B.add, of_sum), ("subtract", B.subtract, of_sum), ("multiply", B.multiply, of_product)):
            x, y = ("const" if op != "multiply" and h == "scalar" else h for h in (a, b))
            r = rule(x, y)
            if r is None:
                continue
            if op != "multiply" and "scalar" in (a, b) and "const" not in (a, b):
                r = (r[0], None)
            sq = square_only(k1) or square_only(k2)
            for b1, b2 in batches_for(k1, k2, 0):
                for p in ("nn",) if sq else ("nn", "mn"):
                    if p == "mn" and b1 != b2:
                        continue
                    if k1 == k2 == "zero" and op == "subtract":
                        pass
                    yield binary(op, f, k1, k2, p, p, b1, b2, form(*r))


def products():
    for k1, k2 in itertools.product([k for k in KINDS if k != "scalar"], repeat=2):
        if k1 in ("num", "dense") and k2 in ("num", "dense"):
            continue
        for ta, tb in itertools.product((False, True), repeat=2):
            r = of_matmul(head(k1), head(k2), ta, tb)
            if r is None or {head(k1), head(k2)} == {"lt", "ut"}:
                continue
            flags = ("T" if ta else "N") + ("T" if tb else "N")
            f = lambda a, b, ta=ta, tb=tb: B.matmul(a, b, tr_a=ta, tr_b=tb)
            for b1, b2 in [("", ""), ("b", "b"), ("b", ""), ("", "b")]:
                if flags not in ("NN", "TT") and b1 != b2:
                    continue
                yield binary("matmul", f, k1, k2, "nn", "nn", b1, b2, form(*r), flags)
            if not square_only(k1) and not square_only(k2):
                yield binary("matmul", f, k1, k2, "kn" if ta else "nk", "mk" if tb else "km", "", "", form(*r), flags)


def keep(rank=True):
    """The type is kept, and so is the rank."""

    def post(w, ck, c, r):
        a = c.objs[0]
        ck.true(isinstance(r, (type(a), M.Zero)), "form", f"{type(r).__name__} instead of {type(a).__name__}")
        ck.invariant(r)
        shown(ck, r)
        if isinstance(a, (M.LowRank, M.Woodbury)):
            ck.true(known_le(rank_of(r), rank_of(a)), "rank", f"{rank_of(r)} is not known to be at most {rank_of(a)}")

    return post


def unaries():
    S = [
        "zero", "const", "diag", "lt", "ut", "lr", "lr:sym", "lr:mid", "lr:mid:sym", "lr:dmid", "lr:mid:nolb", "lr:mid:rectmid", "wb", "wb:mid", "wb:sym",
        "wb:mid:nodb", "kron", "kron:L=diag", "kron:R=lt:L=lt", "kron:nolb", "tiled", "tiled:-1",
    ]
    ones = [("negative", lambda c: B.negative(c.objs[0])), ("cast", lambda c: B.cast(np.float32, c.objs[0])), ("transpose", None)]
    for s, p, b in variants(("", "b"), kinds=S):
        h = head(s)
        f = lambda tag, call, post, flag=None, **kw: unary("C18", tag, s, p, b, call, post, [f"ops/{tag.split(':')[0]}.py"], flag, **kw)
        if h != "tiled":
            yield f("negative", lambda c: B.negative(c.objs[0]), keep())
        yield f("cast", lambda c: B.cast(np.float32, c.objs[0]), keep())
        tpost = form({"lt": "ut", "ut": "lt"}.get(h, h), (lambda c: rank_of(c.objs[0])) if h in ("lr", "wb") else None)
        yield f("transpose", lambda c: B.transpose(c.objs[0]), tpost)
        yield f("broadcast_batch_to", lambda c: B.broadcast_batch_to(c.objs[0], 2, *D.shp(c.dens[0])[:-2]), keep())
        if b and h != "tiled":
            yield f("take:axis=0", lambda c: B.take(c.objs[0], [0, 1], axis=0), keep())
        if h in ("zero", "const", "diag", "lt", "ut", "kron") and s != "kron:R=lt:L=lt":
            for e in (2, 0.5):
                yield f(f"power{e}", lambda c, e=e: B.power(c.objs[0], e), keep(), "pos")
            yield f("sqrt", lambda c: B.sqrt(c.objs[0]), keep(), "pos")
            yield f("abs", lambda c: B.abs(c.objs[0]), keep())
        if h == "lr":
            yield f("take:axis=-2", lambda c: B.take(c.objs[0], [0, 1], axis=-2), keep())
            yield f("take:axis=-1", lambda c: B.take(c.objs[0], [0, 1], axis=-1), keep())
        if p == "nn":
            if h in ("zero", "const", "diag", "lt", "ut", "lr", "wb"):
                yield f("submatrix", lambda c: B.submatrix(c.objs[0], [0, 1]), keep())
            if h in ("diag", "wb", "kron") and s != "kron:R=lt:L=lt":
                yield f("inv", lambda c: B.inv(c.objs[0]), keep(), "inv")
                yield f("pd_inv", lambda c: B.pd_inv(c.objs[0]), keep(), "pd")
            if h in ("diag", "const", "kron") and s != "kron:R=lt:L=lt":
                yield f("cholesky", lambda c: B.cholesky(c.objs[0]), keep(), "pd")
                yield f("root", lambda c: B.root(c.objs[0]), keep(), "pd")
            if h == "wb":
                yield f("cholesky", lambda c: B.cholesky(c.objs[0]), form("lt"), "pd")
            yield f("eye", lambda c: B.eye(c.objs[0]), form("diag"))
        if h in ("zero", "const"):
            yield f("tile", lambda c: B.tile(c.objs[0], *[2] * len(D.shp(c.dens[0]))), keep())
        yield f("zeros", lambda c: B.zeros(c.objs[0]), form("zero"))
        yield f("ones", lambda c: B.ones(c.objs[0]), form("const"))
    for b in ("", "b"):
        yield unary("C18", "cholesky", "dense", "nn", b, lambda c: B.cholesky(c.objs[0]), form("lt"), ["ops/cholesky.py"], "pd")


def assemblies():
    """Blocks and Kronecker products."""
    for b1, b2 in [("", ""), ("b", "b"), ("b", "")]:
        for k1, k2 in itertools.product(("diag", "zero"), repeat=2):
            r = "zero" if {k1, k2} == {"zero"} else "diag"
            if k1 == k2:
                yield binary("block_diag", lambda x, y: B.block_diag(x, y), k1, k2, "nn", "mm", b1, b2, form(r))
            off = lambda x, y: [[x, zeros_for(x, y)], [zeros_for(y, x), y]]
            yield binary("block", lambda x, y: B.block(*off(x, y)), k1, k2, "nn", "mm", b1, b2, form(r))
        for k1, k2 in itertools.product(("dense", "diag", "lt", "const", "lr", "zero"), repeat=2):
            r = "zero" if "zero" in (k1, k2) else "const" if {k1, k2} == {"const"} else "kron"
            yield binary("kron", lambda x, y: B.kron(x, y), k1, k2, "nn", "mm", b1, b2, form(r))


def zeros_for(x, y):
    return M.Zero(np.float64, B.shape_matrix(x)[0], B.shape_matrix(y)[1])


def c18():
    yield from sums_and_products()
    yield from products()
    yield from unaries()
    yield from assemblies()
