"""Inverses, factorisations, linear systems, determinants, quadratic forms, sampling."""

import itertools

import numpy as np

from .. import den as D
from ..cases import Args, Case, arg, axes, bt, head, matrix_post
from ..hooks import B, SymInt, npx
from ..run import Skip
from .structure import unary

from .structure import PARTIAL2

PARTIAL = ("nolb", "norb", "mb", "nodb", "olb", "orb", "omb", "odb")


def eye_like(d):
    n = D.shp(d)[-1]
    return npx.broadcast_to(npx.eye(n), D.shp(d)[:-2] + (n, n))


def inverse_post(w, ck, c, r):
    a = c.dens[0]
    x = D.den(r)
    ck.equal(npx.matmul(a, x), eye_like(a), "left-inverse", rtol=1e-5, atol=1e-6)
    ck.equal(npx.matmul(x, a), eye_like(a), "right-inverse", rtol=1e-5, atol=1e-6)
    ck.matrix(r, x, "result", rtol=1e-5, atol=1e-6)


INV = [
    "dense", "diag", "wb:mid", "wb", "wb:dmid", "wb:mid:mat", "wb:mid:nodb", "wb:mid:nolb:norb", "wb:mid:mb:nolb:norb:nodb",
    "wb:mid:rone", "kron", "kron:L=diag", "kron:R=diag", "kron:R=wb+mid", "kron:nolb", "kron:norb", "kron:L=num:R=num",
    "kron:L=kron", "kron:olb", "kron:orb", "kron:same", "kron:LRone", "kron:Lone", "wb:mid:odb", "wb:mid:mb:olb:orb", "wb:mid:omb",
    "wb:mid:sym", "wb:sym", "wb:dmid:sym", "wb:mid:mat:sym", "wb:mid:sdb:mb", "wb:mid:slb:srb", "wb:mid:plb:qdb", "kron:slb", "kron:plb:qrb", "kron:same:L=diag",
]
PD = [
    "dense", "num", "diag", "wb:mid", "wb", "wb:dmid", "wb:mid:mat", "wb:mid:nodb", "wb:mid:nolb:norb", "wb:mid:mb:nodb",
    "wb:mid:rone", "kron", "kron:L=diag", "kron:R=diag", "kron:R=wb+mid", "kron:nolb", "kron:norb", "kron:L=num:R=num",
    "kron:olb", "kron:orb", "kron:same", "kron:LRone", "kron:Lone", "wb:mid:odb", "wb:mid:mb:olb", "wb:mid:omb",
    "wb:mid:sdb:mb", "wb:mid:slb", "wb:mid:plb:qdb", "kron:slb", "kron:plb:qrb", "kron:same:L=diag",
]


def square_cases(kinds, batches=("", "b", "cb")):
    for s in kinds:
        if "L=kron" in s:
            continue  # nested axis plans
        partial = any(o in PARTIAL for o in s.split(":"))
        for b in batches:
            if len(b) < 2 and any(o in PARTIAL2 for o in s.split(":")):
                continue
            if not (partial and not b):
                yield s, b


def c08():
    for s, b in square_cases(INV):
        yield unary("C08", "inv", s, "nn", b, lambda c: B.inv(c.objs[0]), inverse_post, ["ops/inv.py", "ops/schur.py"], flag="inv")
        yield unary("C08", "inv-pd", s, "nn", b, lambda c: B.inv(c.objs[0]), inverse_post, ["ops/inv.py", "ops/schur.py"], flag="pd")
        if head(s) == "wb":
            yield unary("C08", "inv-twice", s, "nn", b, lambda c: (B.inv(c.objs[0]), B.inv(c.objs[0]))[1], inverse_post, ["ops/inv.py", "ops/schur.py"], flag="inv")
            yield unary("C08", "schur", s, "nn", b, lambda c: B.schur(c.objs[0]), schur_post, ["ops/schur.py"], flag="inv")
    for s, b in square_cases(PD):
        yield unary("C08", "pd_inv", s, "nn", b, lambda c: B.pd_inv(c.objs[0]), inverse_post, ["ops/pd_inv.py", "ops/pd_schur.py", "ops/cholesky_solve.py"], flag="pd")
        if head(s) == "wb":
            yield unary("C08", "pd_schur", s, "nn", b, lambda c: B.pd_schur(c.objs[0]), schur_post, ["ops/pd_schur.py"], flag="pd")


def schur_post(w, ck, c, r):
    a = c.objs[0]
    d, lr = D.den(a.diag.diag), a.lr
    m = D.den(lr.middle)
    left, right = D.den(lr.left), D.den(lr.right)
    want = npx.add(npx.linalg.inv(m), npx.matmul(D.T(right), npx.divide(left, npx.expand_dims(d, -1))))
    ck.matrix(r, want, "result", rtol=1e-5, atol=1e-6)


# ------------------------------------------------------------------ C09

CHOL = [
    "dense", "diag", "zero", "const", "lr", "lr:mid", "lr:dmid", "lr:mid:mat", "lr:mid:mb", "lr:mid:nolb:mb", "lr:explicit:mid",
    "wb:mid", "wb", "wb:mid:nodb", "kron", "kron:L=diag", "kron:R=const", "kron:R=zero", "kron:nolb", "kron:norb", "kron:L=lr+mid",
    "kron:L=num:R=num", "kron:same", "kron:same:L=diag", "kron:LRone", "kron:Lone", "lr:rone", "lr:mid:rone", "lr:dmid:rone", "kron:slb", "kron:plb:qrb",
    "lr:mid:slb:mb", "lr:mid:smb", "wb:mid:sdb", "wb:mid:plb", "kron:L=const:R=const", "kron:R=lr+dmid",
]
ROOT = CHOL + ["num"]


def chol_post(w, ck, c, r):
    x = D.den(r)
    ck.equal(npx.matmul(x, D.T(x)), c.dens[0], "product", rtol=1e-5, atol=1e-6)
    ck.matrix(r, x, "result", rtol=1e-5, atol=1e-6)


def chol_dense_post(w, ck, c, r):
    from matrix import LowerTriangular

    chol_post(w, ck, c, r)
    ck.true(isinstance(r, LowerTriangular), "type")
    if not w.sym:
        ck.true(bool(np.all(np.diagonal(np.asarray(D.den(r)), 0, -2, -1) > 0)), "positive-diagonal")


def root_post(w, ck, c, r):
    x = D.den(r)
    ck.equal(npx.matmul(x, x), c.dens[0], "product", rtol=1e-5, atol=1e-6)
    ck.equal(D.T(x), x, "symmetric", rtol=1e-5, atol=1e-6)
    ck.matrix(r, x, "result", rtol=1e-5, atol=1e-6)
    if not w.sym:
        ev = np.linalg.eigvalsh(np.asarray(x))
        ck.true(bool(np.all(ev > -1e-6 * max(1.0, np.abs(ev).max()))), "positive")


def c09():
    for s, b in square_cases(CHOL):
        post = chol_dense_post if head(s) in ("dense", "wb") else chol_post
        yield unary("C09", "cholesky", s, "nn", b, lambda c: B.cholesky(c.objs[0]), post, ["ops/cholesky.py"], flag="pd")
        yield unary("C09", "cholesky-twice", s, "nn", b, lambda c: (B.cholesky(c.objs[0]), B.cholesky(c.objs[0]))[1], post, ["ops/cholesky.py"], flag="pd")
    for s, b in square_cases(ROOT):
        yield unary("C09", "root", s, "nn", b, lambda c: B.root(c.objs[0]), root_post, ["ops/root.py", "ops/cholesky.py"], flag="pd")


# ------------------------------------------------------------------ C10

SOLVE_A = ["dense", "diag", "lt", "ut", "wb:mid", "wb:mid:mat", "kron", "num", "kron:L=diag"]
RHS = ["dense", "num", "zero", "diag", "const", "lt", "ut", "lr", "lr:mid", "wb:mid", "kron", "tiled"]
BATCH = [("", ""), ("b", "b"), ("b", ""), ("", "b")]
MORE = [("cb", "b"), ("b", "1"), ("1", "b")]


def rhs_ok(k1, k2):
    if "kron" in (head(k1), head(k2)) and "tiled" in (head(k1), head(k2)):
        return False
    return True


def system(prop, tag, k1, k2, b1, b2, call, lhs, flag="inv", functions=("ops/solve.py",), p2=None, **kw):
    sq = head(k2) in ("diag", "lt", "ut", "wb")
    p2 = p2 or ("nn" if sq else "nm")

    def build(w):
        ax = axes(w, "n" + p2, (k1, k2))
        return Args(arg(w, k1, "a", "nn", b1, ax, flag), arg(w, k2, "b", p2, b2, ax))

    def post(w, ck, c, r):
        a, b = c.dens
        x = D.den(r)
        batch = D.bshape(D.shp(a)[:-2], D.shp(b)[:-2])
        want = npx.broadcast_to(b, batch + D.shp(b)[-2:])
        ck.maps.append(lambda z: npx.matmul(lhs(a), z) if len(z._shape) > 1 and z._shape[-2] is a._shape[-1] else z)
        ck.equal(npx.matmul(lhs(a), x), want, "product", rtol=1e-5, atol=1e-6)
        ck.maps.clear()
        ck.matrix(r, x, "result", rtol=1e-5, atol=1e-6)

    return Case(prop, f"{tag}({k1}[{b1},nn],{k2}[{b2},{p2}])", build, call, post, functions, opname=tag, **kw)


def c10():
    for k1, k2 in itertools.product(SOLVE_A, RHS):
        if not rhs_ok(k1, k2) or (head(k1) == "num" and k2 == "num"):
            continue
        for b1, b2 in BATCH + MORE:
            if head(k2) == "tiled" and not tiled_rhs_ok(k1, b1, b2):
                continue
            yield system("C10", "solve", k1, k2, b1, b2, lambda c: B.solve(*c.objs), lambda a: a)
    for k1, k2 in itertools.product(["lt", "ut"], RHS):
        for b1, b2 in BATCH + MORE:
            if head(k2) == "tiled" and not tiled_rhs_ok(k1, b1, b2):
                continue
            for low in (True, False):
                yield system(
                    "C10", f"triangular_solve:{low}", k1, k2, b1, b2,
                    lambda c, low=low: B.triangular_solve(*c.objs, lower_a=low), lambda a: a,
                    functions=("ops/triangular_solve.py", "ops/solve.py"),
                )
    for k1, k2 in itertools.product(["diag", "lt", "ut"], RHS):
        for b1, b2 in BATCH + MORE:
            if head(k2) == "tiled" and not tiled_rhs_ok(k1, b1, b2):
                continue
            yield system(
                "C10", "cholesky_solve", k1, k2, b1, b2, lambda c: B.cholesky_solve(*c.objs),
                lambda a: npx.matmul(a, D.T(a)), functions=("ops/cholesky_solve.py", "ops/solve.py"),
            )
    for b1, b2 in BATCH:
        for o1, o2 in [("kron:L=lt:R=lt", "kron"), ("kron:L=ut:R=diag", "kron"), ("kron:same:L=lt", "kron:same"), ("kron:same:L=lt", "kron"), ("kron:L=lt:R=lt", "kron:same"), ("kron:same:L=diag", "kron"), ("kron:L=diag:R=lt", "kron:L=diag:R=diag")]:
            yield system(
                "C10", "cholesky_solve", o1, o2, b1, b2, lambda c: B.cholesky_solve(*c.objs),
                lambda a: npx.matmul(a, D.T(a)), functions=("ops/cholesky_solve.py", "ops/solve.py"), p2="nn",
            )


def tiled_rhs_ok(k1, b1, b2):
    """Tiled blocks cannot be multiplied or broadcast."""
    return head(k1) in ("lt", "ut", "dense", "num") and b1 == b2


# ------------------------------------------------------------------ C11


def sum_log_diag(x):
    return npx.sum(npx.log(npx.diagonal(x, 0, -2, -1)), axis=-1)


def logdet_spec(o):
    """By the definition for triangular matrices and by these theorems: det(L L^T) =
    det(L)^2, det(A x B) = det(A)^m det(B)^n, and the matrix determinant lemma."""
    from matrix import Diagonal, Kronecker, LowerTriangular, UpperTriangular, Woodbury

    d = D.den(o)
    if isinstance(o, (Diagonal, LowerTriangular, UpperTriangular)):
        return sum_log_diag(d)
    if isinstance(o, Kronecker):
        n, m = D.shp(D.den(o.left))[-1], D.shp(D.den(o.right))[-1]
        return npx.add(npx.multiply(m, logdet_spec(o.left)), npx.multiply(n, logdet_spec(o.right)))
    if isinstance(o, Woodbury):
        dg, lr = D.den(o.diag.diag), o.lr
        mid = lr.middle
        left, right = D.den(lr.left), D.den(lr.right)
        s = npx.add(npx.linalg.inv(D.den(mid)), npx.matmul(D.T(right), npx.divide(left, npx.expand_dims(dg, -1))))
        out = npx.add(npx.sum(npx.log(dg), axis=-1), logdet_spec(mid))
        return npx.add(out, npx.multiply(2.0, sum_log_diag(npx.linalg.cholesky(s))))
    return npx.multiply(2.0, sum_log_diag(npx.linalg.cholesky(d)))


def c11():
    kinds = [k for k in PD if k != "num"] + ["lt", "ut", "kron:L=lt:R=ut", "kron:L=ut"]
    for s, b in square_cases(kinds):
        def post(w, ck, c, r):
            if w.sym:
                ck.equal(r, logdet_spec(c.objs[0]), "result")
            else:
                sign, want = np.linalg.slogdet(np.asarray(c.dens[0]))
                if not np.all(sign > 0):
                    raise Skip("not positive")
                ck.equal(r, want, "result", rtol=1e-5, atol=1e-6)

        yield unary("C11", "logdet", s, "nn", b, lambda c: B.logdet(c.objs[0]), post, ["ops/logdet.py", "ops/cholesky.py", "ops/pd_schur.py"], flag="pd")
        if head(s) == "wb":
            def call(c):
                B.pd_inv(c.objs[0])
                return B.logdet(c.objs[0])

            yield unary("C11", "logdet-after-pd_inv", s, "nn", b, call, post, ["ops/logdet.py", "ops/pd_schur.py"], flag="pd")


# ------------------------------------------------------------------ C19: sampling


class Token(np.random.RandomState):
    """A random state: the number of times that it has been used."""

    def __init__(self, n):
        self.n = n


def as_int(x):
    """A dimension in concrete runs is an object around an integer."""
    while not isinstance(x, (int, SymInt)):
        x = x.dim
    return x


class Noise:
    """Stands in for `B.randn`: call `k` gives `make(k, shape)`.  The state must be threaded
    through."""

    def __init__(self, make, dtype):
        self.make, self.dtype, self.sizes, self.ok, self.dt_ok = make, dtype, [], True, True

    def __call__(self, state, dtype, *shape):
        self.ok = self.ok and isinstance(state, Token) and state.n == len(self.sizes)
        self.dt_ok = self.dt_ok and np.dtype(dtype) == np.dtype(self.dtype)
        shape = tuple(as_int(x) for x in shape)
        self.sizes.append(shape)
        return Token(len(self.sizes)), self.make(len(self.sizes) - 1, shape)


SAMPLE = [
    "dense", "diag", "const", "lr", "lr:mid", "lr:dmid", "lr:mid:mat", "lr:rone", "wb:mid", "wb", "wb:dmid", "wb:mid:nodb", "wb:mid:mb:nodb",
    "wb:mid:nolb:mb", "wb:mid:sdb:mb", "kron", "kron:L=diag", "kron:nolb", "kron:norb", "kron:same", "kron:R=const", "num", "zero",
]


def draw(a, noise, *num):
    """Run the code under proof with its source of random numbers replaced."""
    real = B.randn
    B.randn = noise
    try:
        state, x = B.sample(Token(0), a, *num)
    finally:
        B.randn = real
    return state, x


def identity(a, n):
    """For a Kronecker product, the identity as the product of identities."""
    from matrix import Kronecker

    if D.is_sym() and isinstance(a, Kronecker):
        n1, n2 = (as_int(B.shape(B.cholesky(x), -1)) for x in (a.left, a.right))
        return D.kron(identity(a.left, n1), identity(a.right, n2))
    return npx.eye(n, n)


def sample_post(default):
    def post(w, ck, c, r):
        a, d = c.objs[0], c.dens[0]
        num = 1 if default else w.dim("q", 1)
        eps = []

        def any_noise(k, shape):
            eps.append(w.T(f"e{k}", shape))
            return eps[-1]

        noise = Noise(any_noise, D.dtype(d) if hasattr(D, "dtype") else B.dtype_float(a))
        state, x = draw(a, noise, *(() if default else (num,)))
        ck.true(noise.ok and isinstance(state, Token) and state.n == len(noise.sizes), "state")
        x = D.den(x)
        zero = npx.zeros(D.shp(d)[:-1] + (num,))
        ck.equal(npx.add(x, zero), x, "shape")
        total, lin = None, None
        for k, size in enumerate(noise.sizes):

            def unit(j, shape, k=k):
                if j == k:
                    return npx.broadcast_to(identity(a, shape[-2]), tuple(shape))
                return npx.zeros(tuple(shape))

            _, g = draw(a, Noise(unit, d.dtype), size[-2])
            g = D.den(g)
            m, y = npx.matmul(g, D.T(g)), npx.matmul(g, eps[k])
            total = m if total is None else npx.add(total, m)
            lin = y if lin is None else npx.add(lin, y)
        if total is None:
            total = npx.zeros(D.shp(d))
            lin = zero
        ck.equal(total, d, "covariance", rtol=1e-5, atol=1e-6)
        ck.equal(x, lin, "linear", rtol=1e-5, atol=1e-6)

    return post


def c19():
    for s, b in square_cases(SAMPLE):
        yield unary("C19", "sample", s, "nn", b, lambda c: None, sample_post(False), ["ops/sample.py"], flag="pd", opname="sample")
        yield unary("C19", "sample-default", s, "nn", b, lambda c: None, sample_post(True), ["ops/sample.py"], flag="pd", opname="sample")
        if head(s) != "zero":
            yield unary("C19", "sample-generator", s, "nn", b, lambda c: None, sample_shape_post, ["ops/sample.py"], flag="pd", opname="sample", num_only=True, bounded="concrete runs only")


def sample_shape_post(w, ck, c, r):
    """With the real generators of random numbers."""
    a, d = c.objs[0], c.dens[0]
    n = int(w.rng.integers(1, 4))
    want = lambda n: D.shp(d)[:-1] + (n,)
    for k, f in ((n, lambda: B.sample(a, n)), (1, lambda: B.sample(a)), (n, lambda: B.sample(a, num=n))):
        x = D.den(f())
        ck.true(D.shp(x) == want(k), "shape", f"{D.shp(x)}")
    get = lambda: B.create_random_state(np.float64, seed=3)
    s1, x1 = B.sample(get(), a, n)
    s2, x2 = B.sample(get(), a, n)
    ck.equal(D.den(x1), D.den(x2), "same-state-same-samples")
    if not np.any(np.asarray(d)):
        return
    s3, x3 = B.sample(s2, a, n)
    ck.true(not np.allclose(np.asarray(D.den(x2)), np.asarray(D.den(x3)), rtol=1e-10, atol=0), "state-advances")
    B.set_random_seed(5)
    y1 = D.den(B.sample(a, n))
    y2 = D.den(B.sample(a, n))
    B.set_random_seed(5)
    ck.equal(D.den(B.sample(a, n)), y1, "same-seed-same-samples")
    ck.true(not np.allclose(np.asarray(y1), np.asarray(y2), rtol=1e-10, atol=0), "global-state-advances")


# ------------------------------------------------------------------ C20: quadratic forms

QF_A = ["dense", "diag", "wb:mid", "kron", "num"]
QF_B = ["dense", "num", "diag", "lr:mid", "wb:mid", "lt", "zero", "const", "kron"]


def inv_spec(o):
    """The inverse of a positive-definite matrix: of a Kronecker product by the theorem, of
    a Woodbury matrix by the contract of its inversion (C08), and by definition."""
    from matrix import Kronecker, Woodbury

    if not D.is_sym():
        return npx.linalg.inv(D.den(o))
    if isinstance(o, Kronecker):
        return D.kron(inv_spec(o.left), inv_spec(o.right))
    if isinstance(o, Woodbury):
        return D.den(B.pd_inv(o))
    return npx.linalg.inv(D.den(o))


def quad(prop, tag, ka, kb, kc, batches, thorough=False, **kw):
    def sq(k):
        return head(k) in ("diag", "lt", "ut", "wb")

    pb = "nn" if sq(kb) else "nm"
    pc = None if kc is None else ("nn" if sq(kc) else ("nl" if tag == "iqf" else pb))
    if kc is not None and tag != "iqf" and pc != pb:
        pb = pc = "nn"

    def build(w):
        ks = (ka, kb) if kc is None else (ka, kb, kc)
        ax = axes(w, "nml", ks)
        out = [arg(w, ka, "a", "nn", batches[0], ax, "pd"), arg(w, kb, "b", pb, batches[1], ax)]
        if kc is not None:
            out.append(arg(w, kc, "c", pc, batches[-1], ax))
        return Args(*out)

    def post(w, ck, c, r):
        a, b = c.dens[:2]
        d = c.dens[2] if kc is not None else b
        want = npx.matmul(D.T(b), npx.matmul(inv_spec(c.objs[0]), d))
        if tag == "iqf_diag":
            want = npx.diagonal(want, 0, -2, -1)
        ck.matrix(r, want, "result", rtol=1e-5, atol=1e-6)

    name = f"{tag}({ka}[{batches[0]},nn],{kb}[{batches[1]},{pb}]" + (f",{kc}[{batches[-1]},{pc}])" if kc else ")")
    return Case(prop, name, build, lambda c: getattr(B, tag)(*c.objs), post, [f"ops/{tag}.py"], opname=tag, thorough=thorough, **kw)


def ranked(ks, tag):
    """The cases in which low-rank factors are combined with the inverse of a Woodbury matrix
    are verified against the contracts of the products."""
    low = ("lr", "const", "wb")
    rest = [k for k in ks[1:] if k]
    if head(ks[0]) == "wb" and (any(head(k) in low for k in rest) or len(rest) == 2 and "kron" in rest):
        yield ks, dict(modular=True)
    else:
        yield ks, {}


def c20():
    for tag in ("iqf", "iqf_diag"):
        for ka in QF_A:
            for kb in QF_B:
                if ka == "num" and kb == "num":
                    continue
                for batches in (("", ""), ("b", "b"), ("", "b"), ("b", "")):
                    if kb == "zero" and batches == ("b", "") and ka != "wb:mid":
                        continue  # a solution for a right-hand side of zeros has its batch
                    for (k1, k2, _), kw in ranked((ka, kb, None), tag):
                        yield quad("C20", tag, k1, k2, None, batches, **kw)
            for kb, kc in itertools.product(QF_B, QF_B):
                if ka == kb == kc == "num" or "kron" in (ka, kb, kc) and not {kb, kc} <= {"kron", "dense", "diag", "num"}:
                    continue
                for batches in (("", "", ""), ("b", "b", "b")):
                    for ks, kw in ranked((ka, kb, kc), tag):
                        yield quad("C20", tag, *ks, batches, **kw)
    for k1, k2 in itertools.product(["dense", "diag", "wb:mid", "kron", "num", "lr:mid"], ["dense", "diag", "wb:mid", "kron", "num"]):
        for batches in (("", ""), ("b", "b"), ("b", ""), ("", "b")):
            if batches[0] != batches[1] and "num" in (k1, k2):
                continue
            yield ratio_case(k1, k2, batches)
    for k in ["dense", "diag", "wb:mid", "kron", "num", "wb:mid:mat", "wb", "kron:L=diag"]:
        for b in ("", "b", "cb"):
            yield from same_object_quads(k, b)


def trace_spec(a, o):
    return npx.sum(npx.diagonal(npx.matmul(inv_spec(o), a), 0, -2, -1), axis=-1)


def ratio_case(k1, k2, batches):
    def build(w):
        ax = axes(w, "n", (k1, k2))
        return Args(arg(w, k1, "a", "nn", batches[0], ax, "pd"), arg(w, k2, "b", "nn", batches[1], ax, "pd"))

    def post(w, ck, c, r):
        ck.equal(D.den(r), trace_spec(c.dens[0], c.objs[1]), "result", rtol=1e-5, atol=1e-6)

    # The trace of a product of a Woodbury and an inverse Kronecker product is beyond the
    # prover.
    kw = dict(num_only=True, bounded="concrete runs only") if (head(k1), head(k2)) == ("wb", "kron") else {}
    return Case("C20", f"ratio({k1}[{batches[0]}],{k2}[{batches[1]}])", build, lambda c: B.ratio(*c.objs), post, ["ops/ratio.py"], opname="ratio", **kw)


def same_object_quads(k, b):
    """The same object in several positions."""
    for q in (k,):
        def build(w, q=q):
            ax = axes(w, "nm", (q,))
            return Args(arg(w, q, "a", "nn", b, ax, "pd"), arg(w, "dense", "b", "nn", b, ax))

        d = lambda f: lambda c: npx.matmul(D.T(f(c)[0]), npx.matmul(inv_spec(c.objs[0]), f(c)[1]))
        for tag, call, spec in (
            ("aa", lambda op, c: op(c.objs[0], c.objs[0]), d(lambda c: (c.dens[0], c.dens[0]))),
            ("aaa", lambda op, c: op(c.objs[0], c.objs[0], c.objs[0]), d(lambda c: (c.dens[0], c.dens[0]))),
            ("aab", lambda op, c: op(c.objs[0], c.objs[0], c.objs[1]), d(lambda c: (c.dens[0], c.dens[1]))),
            ("aba", lambda op, c: op(c.objs[0], c.objs[1], c.objs[0]), d(lambda c: (c.dens[1], c.dens[0]))),
            ("abb", lambda op, c: op(c.objs[0], c.objs[1], c.objs[1]), d(lambda c: (c.dens[1], c.dens[1]))),
        ):
            if k == "num" and tag != "abb":
                continue

            kw = dict(modular=True) if head(k) == "wb" and tag != "abb" else {}

            def post(w, ck, c, r, spec=spec):
                ck.matrix(r, spec(c), "result", rtol=1e-5, atol=1e-6)

            def post_diag(w, ck, c, r, spec=spec):
                ck.matrix(r, npx.diagonal(spec(c), 0, -2, -1), "result", rtol=1e-5, atol=1e-6)

            yield Case("C20", f"iqf:same-object:{tag}({q}[{b},nn])", build, lambda c, call=call: call(B.iqf, c), post, ["ops/iqf.py"], opname="iqf", **kw)
            yield Case("C20", f"iqf_diag:same-object:{tag}({q}[{b},nn])", build, lambda c, call=call: call(B.iqf_diag, c), post_diag, ["ops/iqf_diag.py"], opname="iqf_diag", **kw)

        def rpost(w, ck, c, r):
            ck.equal(D.den(r), trace_spec(c.dens[0], c.objs[0]), "result", rtol=1e-5, atol=1e-6)

        kw = dict(modular=True)
        yield Case("C20", f"ratio:same-object({q}[{b},nn])", build, lambda c: B.ratio(c.objs[0], c.objs[0]), rpost, ["ops/ratio.py"], opname="ratio", **(kw if head(k) == "wb" else {}))
