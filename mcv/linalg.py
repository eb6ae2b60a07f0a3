"""Assumed contracts on the dense linear algebra of NumPy / SciPy, and the rewriting that
uses them.

Each factorisation of a symbolic matrix X introduces a fresh tensor that is known only by
its defining relations:
    inv(X) = Y           X Y = Y X = I
    cholesky(X) = L      L lower triangular with positive diagonal, L L^T = X
    trinv(T) = Y         T Y = Y T = I for triangular T, Y triangular alike
    svd(X) = (U, s, V)   U diag(s) V^T = X; for PSD X, V = U
Equal X (equal normal forms) give the same fresh tensor.
"""

from . import aligncontract
from . import nf as N
from .nf import NF, Key, Term, Unsupported, apply_fn, eq, ge, lt, simplify
from .poly import ATOMS, ONE, P, Poly, ZERO, atom_upper, divide_out, fresh_var, mk_div, mk_mod, named_var
from .symt import (
    F64,
    MODELS,
    SymTensor,
    as_tensor,
    broadcast_dims,
    dim_eq,
    m_concatenate,
    m_diagonal,
    m_matmul,
    m_swapaxes,
    model,
)

REG = {}  # (kind, shape, key) -> name
MAT = {}  # name -> Mat


class Mat:
    """A matrix (batch) given by an expression in generic indices."""

    def __init__(self, name, shape, vars, nf, key):
        self.name, self.shape, self.vars, self.nf, self.key = name, shape, vars, nf, key
        self.fold = None
        self.plain = None
        self.swap = False


class Rule:
    pass


RULES = {"inv": {}, "chol": {}, "trinv": {}, "svd": {}}
FOLDS = []
BLOCKS = {}  # name -> the size of the blocks on the diagonal of a composite
_count = [0]
GHOSTS = []  # low-rank matrices constructed in the current run


def reset():
    REG.clear()
    MAT.clear()
    for d in RULES.values():
        d.clear()
    FOLDS.clear()
    BLOCKS.clear()
    N.TENSORS.clear()
    aligncontract.reset()
    N.ZEROS.clear()
    GHOSTS.clear()
    _count[0] = 0


def generic(t):
    vs = tuple(named_var(f"g{len(t._shape) - k}", d) for k, d in enumerate(t._shape))
    idx = tuple(ZERO if d is ONE else Poly.atom(v) for v, d in zip(vs, t._shape))
    return vs, idx


def matrix_of(t):
    """Register the expression of `t` and return its Mat."""
    vs, idx = generic(t)
    nf = rewrite(t.at(idx), N.BASE)
    key = Key.of(nf)
    k = ("mat", t._shape, key)
    m = REG.get(k)
    if m is None:
        m = Mat(None, t._shape, vs, key.nf, key)
        # Plain: a single tensor element with exactly the generic indices?
        ts = key.nf.terms
        if len(ts) == 1 and not ts[0].bv and not ts[0].cd and ts[0].c == 1 and len(ts[0].fac) == 1:
            b, e = ts[0].fac[0]
            o = _orientation(b, e, m)
            if o is not None:
                m.plain, m.swap = b[1], o
                m0 = MAT.get(b[1])
                if m0 is not None and m0.shape == m.shape and b[2] == idx and not m.swap:
                    # The name of a composite stands for the composite.
                    m = m0
        REG[k] = m
    return m


def _orientation(b, e, m):
    """Whether a single factor is an element of a tensor at the matrix indices of `m`:
    False if in order, True if transposed, None if neither."""
    if e != 1 or b[0] != "T" or len(b[2]) < 2 or len(m.vars) < 2:
        return None
    want = tuple(ZERO if d is ONE else Poly.atom(v) for v, d in zip(m.vars[-2:], m.shape[-2:]))
    rest = {a for p in b[2][:-2] for a in p.all_atoms()}
    if rest & set(m.vars[-2:]):
        return None
    if b[2][-2:] == want:
        return False
    if b[2][-2:] == (want[1], want[0]):
        return True
    return None


def _plain_batch(m, batch):
    """The batch indices at which the plain tensor behind `m` is used."""
    if m.plain is None and _tri_of(m) is None:
        return _full(m, batch)
    b = m.nf.terms[0].fac[0][0]
    s = dict(zip(m.vars, _full(m, batch)))
    return tuple(p.subst(s) for p in b[2][:-2])


def is_symmetric(t):
    n = len(t._shape)
    if n < 2 or t._shape[-1] is not t._shape[-2]:
        return False
    vs, idx = generic(t)
    sw = idx[:-2] + (idx[-1], idx[-2])
    return N.prove_zero(t.at(idx) - t.at(sw), rewriter=rewrite) is None


def fresh_tensor(kind, mat, shape, **info):
    _count[0] += 1
    name = f"{kind}{_count[0]}"
    N.TENSORS[name] = dict(info)
    return name


def square(t, what):
    if len(t._shape) < 2:
        raise N_LinAlgError(f"{what}: at least two-dimensional array required")
    if not dim_eq(t._shape[-1], t._shape[-2]):
        raise N_LinAlgError(f"{what}: last two dimensions must be square")


import numpy as np

N_LinAlgError = np.linalg.LinAlgError


def ensure_fold(m):
    """Register the folding rule lead -> S - rest for a composite matrix."""
    if m.plain is not None or m.fold is not None or _tri_of(m):
        return
    ts = [t for t in m.nf.terms]
    if not ts:
        return
    # Lead: the term with most factors, then most bound variables.
    lead = max(ts, key=lambda t: (sum(abs(e) if not isinstance(e, float) else 1 for _, e in t.fac), len(t.bv), repr(t)))
    if not lead.fac or (len(lead.fac) == 1 and not lead.bv):
        if len(ts) > 1 or lead.cd:
            pass
    _count[0] += 1
    m.name = f"S{_count[0]}"
    n = len(m.shape)
    sym = False
    if n >= 2 and m.shape[-1] is m.shape[-2]:
        gi, gj = m.vars[-2], m.vars[-1]
        sw = m.nf.subst({gi: Poly.atom(gj), gj: Poly.atom(gi)})
        if N.prove_zero(m.nf - sw, rewriter=rewrite) is None:
            sym = True
    N.TENSORS[m.name] = {"sym": sym}
    rest = NF([t for t in ts if t is not lead])
    if n >= 2:
        # Zero outside of blocks on the diagonal.
        for cond in lead.cd:
            d = N._difference(cond[1]) if cond[0] == "eq" else None
            if d is None or d[0] != "div" or {d[1], d[2]} != {P_(m.vars[-2]), P_(m.vars[-1])}:
                continue
            same = eq(P_(m.vars[-2]), P_(m.vars[-1]))
            if all(cond in t.cd or same in t.cd for t in ts):
                BLOCKS[m.name] = d[3]
    m.fold = (lead, rest)
    FOLDS.append(m)
    MAT[m.name] = m


def _as_elem(m, idx):
    """The element of matrix `m` as a single factor if possible."""
    return idx


def reduced(f, k=2):
    """Batch dimensions on which the argument does not depend are left out."""

    def g(t, *args, **kw):
        t = as_tensor(t)
        n = len(t._shape)
        if n <= k or any(d is ZERO for d in t._shape):
            return f(t, *args, **kw)
        vs, idx = generic(t)
        used = rewrite(t.at(idx), N.BASE).free_atoms()
        drop = [j for j in range(n - 2) if t._shape[j] is ONE or vs[j] not in used]
        if not drop:
            return f(t, *args, **kw)
        keep = [j for j in range(n) if j not in drop]
        t2 = SymTensor.make(
            tuple(t._shape[j] for j in keep),
            lambda ix: t.at(tuple(ix[keep.index(j)] if j in keep else ZERO for j in range(n))),
            t._dt,
        )
        r = f(t2, *args, **kw)

        def back(x):
            m = len(x._shape) - (len(keep) - 2)  # non-batch dimensions of the result
            shape = t._shape[: n - 2] + x._shape[len(keep) - 2 :]
            sel = [j for j in keep if j < n - 2]
            return SymTensor.make(shape, lambda ix: x.at(tuple(ix[j] for j in sel) + tuple(ix[n - 2 :])), x._dt)

        return tuple(map(back, r)) if isinstance(r, tuple) else back(r)

    return g


@reduced
def inverse(t, kind="inv"):
    t = as_tensor(t)
    square(t, "inv")
    vs, idx = generic(t)
    e = t.at(idx)
    # Diagonal expressions need no fresh tensor.
    m = matrix_of(t)
    rk = ("inv", t._shape, m.key)
    name = REG.get(rk)
    if name is None:
        low = _triangular(t, True)
        up = _triangular(t, False)
        flipped = REG.get(("inv", t._shape, matrix_of(m_swapaxes(t, -1, -2)).key)) if len(m.shape) >= 2 else None
        if low and up and t._shape[-1] is not ONE or t._shape[-1] is ONE and _monomial(m.nf):
            name = ("diag",)
        elif isinstance(flipped, str):
            # The transpose has been inverted before.
            name = ("flip", flipped)
        else:
            # The inverse of an inverse is the matrix itself.
            kr = kron_split(m)
            if kr is not None:
                name = ("kron", inverse(kr[0]), inverse(kr[1]), kr[2])
            elif m.plain and m.plain in RULES["inv"]:
                name = ("back", RULES["inv"][m.plain])
            else:
                sym = is_symmetric(t)
                name = fresh_tensor("inv", m, t._shape, sym=sym, low=low, up=up)
                RULES["inv"][name] = m
                ensure_fold(m)
        REG[rk] = name
    if name == ("diag",):
        d = m_diagonal(t, 0, -2, -1)

        def elem(ix):
            x = d.at(ix[:-1])
            return apply_fn(("pow", -1), x).cond(eq(ix[-2], ix[-1]))

        return SymTensor.make(t._shape, elem, _fdt(t))
    if isinstance(name, tuple) and name[0] == "flip":
        t2 = SymTensor.make(t._shape, lambda ix: _inv_elem(name[1], ix), _fdt(t))
        return m_swapaxes(t2, -1, -2)
    if isinstance(name, tuple) and name[0] == "kron":
        # The inverse of a Kronecker product is the product of the inverses.
        _, x, y, q = name

        def elem(ix):
            i, j = ix[-2:]
            b = tuple(ix[:-2])
            return x.at(b + (mk_div(i, q), mk_div(j, q))) * y.at(b + (mk_mod(i, q), mk_mod(j, q)))

        return SymTensor.make(t._shape, elem, _fdt(t))
    if isinstance(name, tuple) and name[0] == "back":
        m0 = name[1]
        return SymTensor.make(t._shape, lambda ix: m0.nf.subst(dict(zip(m0.vars, ix))), _fdt(t))

    return SymTensor.make(t._shape, lambda ix: _inv_elem(name, ix), _fdt(t))


def kron_split(m):
    """The two factors if the matrix is a Kronecker product by its form: functions of the
    quotients and of the remainders of the indices."""
    ts = m.nf.terms
    if len(ts) != 1 or len(m.shape) < 2 or m.shape[-1] is not m.shape[-2]:
        return None
    t = ts[0]
    i, j = m.vars[-2:]
    if i == j:
        return None
    qs = {
        ATOMS[a][2]
        for b, _ in t.fac
        if b[0] == "T"
        for p in b[2]
        for a in p.all_atoms()
        if ATOMS[a][0] in ("div", "mod") and (_is_var(ATOMS[a][1], i) or _is_var(ATOMS[a][1], j))
    }
    if len(qs) != 1:
        return None
    q = qs.pop()
    n, r = divide_out(m.shape[-1], q)
    if r is not ZERO:
        return None
    vi, vj = P_(i), P_(j)
    di, mi, dj, mj = named_var("kdi", n), named_var("kmi", q), named_var("kdj", n), named_var("kmj", q)

    def only(p, kind, x):
        return len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1

    s = {}
    for v, d, r in ((vi, di, mi), (vj, dj, mj)):
        for e, w in ((mk_div(v, q), d), (mk_mod(v, q), r)):
            if not _is_atom(e):
                return None
            s[e.t[0][0][0]] = P_(w)
    groups = ({di, dj}, {mi, mj})
    parts = ([], [])
    loose = []
    # Equal indices: equal quotients and equal remainders.
    cds = []
    for c in t.cd:
        if c == eq(vi, vj):
            cds += [("eq", P_(di) - P_(dj)), ("eq", P_(mi) - P_(mj))]
        else:
            cds.append((c[0], c[1].subst(s)))
    items = [("c", c, c[1].all_atoms()) for c in cds]
    for b, e in t.fac:
        if b[0] != "T":
            return None
        b2 = (b[0], b[1], tuple(p.subst(s) for p in b[2]))
        items.append(("f", (b2, e), frozenset().union(*(p.all_atoms() for p in b2[2]))))
    bound = {v: None for v in t.bv}
    for _ in range(len(items) + 1):
        for k, x, at in items:
            if i in at or j in at:
                return None
            for g in (0, 1):
                if at & groups[g] or any(bound.get(a) == g for a in at if a in bound):
                    for a in at:
                        if a in bound:
                            if bound[a] not in (None, g):
                                return None
                            bound[a] = g
    for k, x, at in items:
        gs = [g for g in (0, 1) if at & groups[g] or any(bound.get(a) == g for a in at if a in bound)]
        if len(gs) > 1:
            return None
        parts[gs[0] if gs else 0].append((k, x))
    out = []
    for g, (a, b, d) in enumerate(((di, dj, n), (mi, mj, q))):
        tm = Term(
            t.c if g == 0 else 1,
            tuple(v for v in t.bv if (bound[v] or 0) == g),
            frozenset(x for k, x in parts[g] if k == "c"),
            tuple(x for k, x in parts[g] if k == "f"),
        )
        nf = NF((tm,))

        def elem(ix, nf=nf, a=a, b=b):
            return nf.subst(dict(zip(m.vars[:-2], ix[:-2])) | {a: ix[-2], b: ix[-1]})

        out.append(SymTensor.make(m.shape[:-2] + (d, d), elem, F64))
    return out[0], out[1], q


def _monomial(nf):
    return len(nf.terms) == 1 and not nf.terms[0].bv and not nf.terms[0].cd


def _inv_elem(name, ix):
    r = NF.elem(name, ix)
    info = N.TENSORS[name]
    if info.get("low"):
        r = r.cond(ge(ix[-2], ix[-1]))
    if info.get("up"):
        r = r.cond(ge(ix[-1], ix[-2]))
    return r


def _fdt(*ts):
    from .symt import _float_dt

    return _float_dt(*ts)


def _triangular(t, lower):
    vs, idx = generic(t)
    i, j = idx[-2], idx[-1]
    c = ("ge", (j - i).shift(-1)) if lower else ("ge", (i - j).shift(-1))
    ctx = N.BASE.extend(c)
    return not simplify(t.at(idx), ctx).terms


@reduced
def cholesky(t):
    t = as_tensor(t)
    square(t, "cholesky")
    m = matrix_of(t)
    rk = ("chol", t._shape, m.key)
    name = REG.get(rk)
    if name is None:
        if t._shape[-1] is ONE or _triangular(t, True) and _triangular(t, False):
            name = ("diag",)
            if t._shape[-1] is ONE and not _monomial(m.nf):
                ensure_fold(m)
                name = ("scalar", m.name)
        else:
            name = fresh_tensor("chol", m, t._shape, positive="diag")
            RULES["chol"][name] = m
            ensure_fold(m)
        REG[rk] = name
    from fractions import Fraction

    if name[0] == "scalar":
        return SymTensor.make(t._shape, lambda ix: apply_fn(("pow", Fraction(1, 2)), NF.elem(name[1], ix)), _fdt(t))
    if name == ("diag",):
        d = m_diagonal(t, 0, -2, -1)

        def elem(ix):
            return apply_fn(("pow", Fraction(1, 2)), d.at(ix[:-1])).cond(eq(ix[-2], ix[-1]))

        return SymTensor.make(t._shape, elem, _fdt(t))
    return SymTensor.make(
        t._shape, lambda ix: NF.elem(name, ix).cond(ge(ix[-2], ix[-1])), _fdt(t)
    )


def lower_part(t, lower):
    """What a triangular solver reads."""
    return SymTensor.make(
        t._shape,
        lambda ix: t.at(ix).cond(ge(ix[-2], ix[-1]) if lower else ge(ix[-1], ix[-2])),
        t._dt,
    )


def triangular_solve(a, b, lower_a=True):
    a, b = as_tensor(a), as_tensor(b)
    square(a, "triangular_solve")
    if len(b._shape) < 2 or not dim_eq(a._shape[-1], b._shape[-2]):
        raise ValueError("triangular_solve: shapes do not match")
    broadcast_dims([a._shape[:-2], b._shape[:-2]])
    return m_matmul(inverse(lower_part(a, lower_a)), b)


def solve(a, b):
    a, b = as_tensor(a), as_tensor(b)
    square(a, "solve")
    if len(b._shape) == 1:
        raise Unsupported("np.linalg.solve with a vector")
    if not dim_eq(a._shape[-1], b._shape[-2]):
        raise ValueError("solve: Input operand 1 has a mismatch in its core dimension 0")
    return m_matmul(inverse(a), b)


MODELS["linalg.inv"] = MODELS["inv"] = lambda a: inverse(a)
MODELS["linalg.cholesky"] = MODELS["cholesky"] = lambda a: cholesky(a)
MODELS["linalg.solve"] = MODELS["solve"] = lambda a, b: solve(a, b)


LOGDET = {}


@reduced
def logdet_tensor(t):
    """log |det t| as a tensor over the batch dimensions."""
    t = as_tensor(t)
    square(t, "slogdet")
    vs, idx = generic(t)
    if _triangular(t, True) or _triangular(t, False):
        d = m_diagonal(t, 0, -2, -1)
        return MODELS["sum"](MODELS["log"](MODELS["absolute"](d)), -1)
    if is_symmetric(t):
        # For positive-definite matrices: the square of the determinant of the factor.
        d = m_diagonal(cholesky(t), 0, -2, -1)
        return MODELS["multiply"](2.0, MODELS["sum"](MODELS["log"](d), -1))
    m = matrix_of(t)
    if m.plain and m.plain in RULES["inv"]:
        m0 = RULES["inv"][m.plain]
        t0 = SymTensor.make(m0.shape, lambda ix: m0.nf.subst(dict(zip(m0.vars, ix))), t._dt)
        return -logdet_tensor(t0)
    rk = ("logdet", t._shape, m.key)
    name = REG.get(rk)
    if name is None:
        name = REG[rk] = fresh_tensor("logdet", m, t._shape[:-2])
        LOGDET[name] = m
    return SymTensor.make(t._shape[:-2], lambda ix: NF.elem(name, ix), _fdt(t))


def slogdet(a):
    a = as_tensor(a)
    sgn = SymTensor.make(a._shape[:-2], lambda ix: NF.elem("sign_not_modelled", ix), a._dt)
    return (sgn, logdet_tensor(a))


MODELS["linalg.slogdet"] = MODELS["slogdet"] = slogdet


@reduced
def svd(a, full_matrices=True, compute_uv=True, **kw):
    a = as_tensor(a)
    m = matrix_of(a)
    if full_matrices or not compute_uv:
        raise Unsupported("svd variant")
    square(a, "svd")
    n = a._shape[-1]
    rk = ("svd", a._shape, m.key)
    names = REG.get(rk)
    if names is None:
        psd = is_symmetric(a)
        u = fresh_tensor("svdU", m, a._shape)
        s = fresh_tensor("svds", m, a._shape[:-1], positive=True)
        v = u if psd else fresh_tensor("svdV", m, a._shape)
        names = REG[rk] = (u, s, v)
        RULES["svd"][u] = (m, names)
        ensure_fold(m)
    u, s, v = names
    U = SymTensor.make(a._shape, lambda ix: NF.elem(u, ix), _fdt(a))
    if u == v and n is ONE:
        # A singular vector of a one-by-one matrix is plus or minus one.
        S = SymTensor.make(a._shape[:-1], lambda ix: a.at(ix + (ZERO,)), _fdt(a))
    else:
        S = SymTensor.make(a._shape[:-1], lambda ix: NF.elem(s, ix), _fdt(a))
    V = SymTensor.make(a._shape, lambda ix: NF.elem(v, ix[:-2] + (ix[-1], ix[-2])), _fdt(a))
    return (U, S, V)


MODELS["linalg.svd"] = MODELS["svd"] = svd


def maximum(a, axis=None, keepdims=False, **kw):
    """The largest element, as an unknown number.  If that of something nonnegative vanishes,
    so does everything."""
    a = as_tensor(a)
    if axis not in (None, ()) or keepdims or kw.get("out") is not None:
        raise Unsupported("maximum over an axis")
    if all(d is ONE for d in a._shape):
        r = SymTensor.make((), lambda ix: a.at((ZERO,) * len(a._shape)), a._dt)
    else:
        key = ("max", a._shape, matrix_of(a).key)
        if key not in REG:
            REG[key] = fresh_tensor("max", None, ())
        name = REG[key]
        r = SymTensor.make((), lambda ix: NF.elem(name, ()), a._dt)
    r._nn = getattr(a, "_nn", None)
    if r._nn is None:
        r._nn = getattr(a, "_nnp", None)
    return r


MODELS["max"] = MODELS["amax"] = maximum


# ------------------------------------------------------------------ rewriting


def rewrite(nf, ctx):
    """Apply the defining relations until nothing changes."""
    if not (RULES["inv"] or RULES["chol"] or RULES["svd"] or FOLDS or aligncontract.INSTANCES):
        return nf
    for _ in range(60):
        changed = False
        out = []
        ACTIVE[:] = _relevant(nf)
        for t in nf.terms:
            r = rewrite_term(t, ctx)
            if r is None:
                out.append(t)
            else:
                changed = True
                out.extend(r.terms)
        nf = simplify(NF(out), ctx)
        if not changed:
            return nf
    raise Unsupported("rewriting diverges")


def _uses(t, v, skip=()):
    """Factor positions and conditions in which bound variable `v` occurs."""
    fs = [k for k, (b, e) in enumerate(t.fac) if v in N.base_atoms(b)]
    cs = [c for c in t.cd if v in c[1].all_atoms()]
    return fs, cs


def _without(t, ks, vs, cs=()):
    return Term(
        t.c,
        tuple(b for b in t.bv if b not in vs),
        t.cd - set(cs),
        tuple(f for k, f in enumerate(t.fac) if k not in ks),
    )


def rewrite_term(t, ctx):
    for f in (aligncontract.rewrite_term, _rw_pair, _rw_scalar, _rw_fold, _rw_block, _rw_svd):
        r = f(t, ctx)
        if r is not None:
            return r
    return None


def _other(idx, pos, v):
    return idx[-2] if pos == -1 else idx[-1]


def _is_atom(p):
    return len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1


def _is_var(p, v):
    return p.t == (((v,), 1),)


def _expand(t, k, e):
    """Factors repeated with exponent two: split."""


def _rw_pair(t, ctx):
    """Contractions over one bound variable of two related factors."""
    for v in t.bv:
        fs, cs = _uses(t, v)
        # Square of a single factor.
        if len(fs) == 1:
            b, e = t.fac[fs[0]]
            if b[0] == "T" and e == 2:
                r = _contract(b, b, v, cs, ctx)
                if r is not None:
                    base = _without(t, fs, (v,), cs)
                    return NF((base,)) * r
            continue
        if len(fs) != 2:
            continue
        (b1, e1), (b2, e2) = t.fac[fs[0]], t.fac[fs[1]]
        if b1[0] != "T" or b2[0] != "T" or e1 != 1 or e2 != 1:
            continue
        r = _contract(b1, b2, v, cs, ctx)
        if r is not None:
            base = _without(t, fs, (v,), cs)
            return NF((base,)) * r
    return None


def _rw_scalar(t, ctx):
    """The inverse of a one-by-one matrix times that matrix, and the squares of its singular
    vectors."""
    for k, (b, e) in enumerate(t.fac):
        if b[0] == "T" and b[1] in RULES["svd"] and isinstance(e, int) and abs(e) >= 2:
            if RULES["svd"][b[1]][0].shape[-1] is ONE:
                fac = [f for q, f in enumerate(t.fac) if q != k]
                if e % 2:
                    fac.insert(k, (b, 1))
                return NF((Term(t.c, t.bv, t.cd, tuple(fac)),))
        if b[0] != "T" or b[1] not in RULES["inv"]:
            continue
        m = RULES["inv"][b[1]]
        tri = _tri_of(m)
        if m.shape[-1] is not ONE:
            # The elements on the diagonal of a triangular matrix and of its inverse.
            if tri is None or b[2][-1] is not b[2][-2]:
                continue
        y = m.plain or tri or m.name
        for q, (b2, e2) in enumerate(t.fac):
            if b2[0] == "T" and b2[1] == y and b2[2] == b[2] and isinstance(e, int) and isinstance(e2, int) and e > 0 and e2 > 0:
                n = min(e, e2)
                fac = []
                for r, (b3, e3) in enumerate(t.fac):
                    e3 = e3 - n if r in (k, q) else e3
                    if e3:
                        fac.append((b3, e3))
                return NF((Term(t.c, t.bv, t.cd, tuple(fac)),))
    return None


def _positions(idx, v):
    """-2 / -1 if `v` is exactly that matrix index and occurs nowhere else."""
    ps = [k for k, p in enumerate(idx) if v in p.all_atoms()]
    if len(ps) != 1:
        return None
    k = ps[0]
    if k < len(idx) - 2 or not _is_var(idx[k], v):
        return None
    return k - len(idx)


def _contract(b1, b2, v, cs, ctx):
    """sum_v b1 * b2 * [cs] as an expression, or `None`."""
    p1, p2 = _positions(b1[2], v), _positions(b2[2], v)
    if p1 is None or p2 is None:
        return None
    batch1, batch2 = b1[2][:-2], b2[2][:-2]
    n1, n2 = b1[1], b2[1]
    i1 = _other(b1[2], p1, v)
    i2 = _other(b2[2], p2, v)
    for (x, px, ix, bx), (y, py, iy, by) in (
        ((n1, p1, i1, batch1), (n2, p2, i2, batch2)),
        ((n2, p2, i2, batch2), (n1, p1, i1, batch1)),
    ):
        # inverse against its matrix
        m = RULES["inv"].get(x)
        if m is not None:
            yn = m.plain or m.name
            sym_y = N.TENSORS.get(yn, {}).get("sym")
            sym_x = N.TENSORS.get(x, {}).get("sym")
            yplain = yn
            tri_name = _tri_of(m)
            if y == yplain or y == tri_name:
                # Y[i,v] X[v,j] or X[i,v] Y[v,j]; with symmetry the positions are free.
                ok = (px == py) == m.swap or sym_x or sym_y
                if ok and _plain_batch(m, bx) == tuple(by):
                    if _conds_ok(cs, x, y, v, px, ix, iy, m, ctx):
                        # delta between the outer indices
                        return NF.const(1).cond(eq(ix, iy))
        # cholesky: sum_v L[i,v] L[j,v] = X[i,j]
        m = RULES["chol"].get(x)
        if m is not None and x == y and px == py == -1 and bx == by:
            need = {ge(ix, P_(v)), ge(iy, P_(v))}
            if all(c in need for c in map(N.norm_cond, cs)) and _has_tri(need, cs, ctx):
                return m.nf.subst(dict(zip(m.vars, _full(m, bx) + (ix, iy))))
        # orthogonality of singular vectors
        if x == y and x in RULES["svd"] and px == py and bx == by and not cs:
            return NF.const(1).cond(eq(ix, iy))
        # inverse of a cholesky factor: sum_v Y[v,i] Y[v,j] = Xinv[i,j]
        m = RULES["inv"].get(x)
        if m is not None and x == y and px == py == -2 and bx == by:
            c = _tri_of(m)
            mc = RULES["chol"].get(c) if c else None
            if mc is not None:
                need = {ge(P_(v), ix), ge(P_(v), iy)}
                if all(k in need for k in map(N.norm_cond, cs)) and _has_tri(need, cs, ctx):
                    X = SymTensor.make(mc.shape, lambda z: mc.nf.subst(dict(zip(mc.vars, z))))
                    # The conditions on `v` implied that the indices are in range.
                    r = inverse(X).at(_full(mc, bx) + (ix, iy))
                    for i in (ix, iy):
                        c = lt(i, mc.shape[-1])
                        if ctx.decide(N.norm_cond(c)) is not True:
                            r = r.cond(c)
                    return r
    return None


def P_(v):
    return Poly.atom(v)


def _full(m, batch):
    k = len(m.vars) - 2
    return tuple(batch[len(batch) - k :]) if k else ()


def _has_tri(need, cs, ctx):
    """The triangular conditions that are implied elsewhere may be absent: with indices
    i, j and the conditions present, the missing ones must follow."""
    cs = set(map(N.norm_cond, cs))
    missing = [c for c in need if c not in cs]
    if not missing:
        return True
    sub = ctx.extend(*cs)
    return all(sub.decide(c) is True for c in missing)


def _tri_of(m):
    """If matrix `m` is the triangular part of a plain tensor: its name."""
    ts = m.nf.terms
    if len(ts) == 1 and not ts[0].bv and ts[0].c == 1 and len(ts[0].fac) == 1 and len(ts[0].cd) == 1:
        b, e = ts[0].fac[0]
        o = _orientation(b, e, m)
        if o is not None:
            m.swap = o
            return b[1]
    return None


def _conds_ok(cs, x, y, v, px, ix, iy, m, ctx):
    """For the inverse of a triangular matrix both factors carry a range condition."""
    tri = _tri_of(m)
    cs = set(map(N.norm_cond, cs))
    if y != tri:
        return not cs
    info = N.TENSORS.get(x, {})
    low = info.get("low")
    vp = P_(v)
    # x's condition
    def c_of(pos, other):
        r, c = (other, vp) if pos == -1 else (vp, other)
        return ge(r, c) if low else ge(c, r)

    # The position of the index in the matrix that was inverted.
    py = -2 if px == -1 else -1
    need = {c_of(px, ix), c_of(py, iy)}
    if cs - need:
        return False
    return _has_tri(need, cs, ctx)


# ---- folding of composites


ACTIVE = []


def _names(nf, out):
    for t in nf.terms:
        for b, _ in t.fac:
            if b[0] == "T":
                out.add(b[1])
            elif b[0] == "F":
                _names(b[2].nf, out)


def _relevant(nf):
    """The composites about which the expression knows something: they occur by name, or
    through a factorisation of theirs."""
    if not FOLDS:
        return []
    names = set()
    _names(nf, names)
    work = list(names)
    mats = set()
    while work:
        x = work.pop()
        for d in RULES.values():
            m = d.get(x)
            if m is None:
                continue
            m = m[0] if isinstance(m, tuple) else m
            mats.add(id(m))
            y = m.plain or _tri_of(m)
            for y in (m.plain, _tri_of(m)):
                if y is not None and y not in names:
                    names.add(y)
                    work.append(y)
    return [m for m in FOLDS if m.name in names or id(m) in mats]


def _rw_fold(t, ctx):
    for m in ACTIVE:
        lead, rest = m.fold
        r = _match_lead(t, m, lead, rest, ctx)
        if r is not None:
            return r
    return None


def _match_lead(t, m, lead, rest, ctx):
    pf = []
    for b, e in lead.fac:
        if isinstance(e, int) and e > 1 and b[0] == "T":
            pf += [(b, 1)] * e
        else:
            pf.append((b, e))
    if not pf:
        return None
    tf = []
    for k, (b, e) in enumerate(t.fac):
        tf.append([b, e, k])
    gv = set(m.vars)
    bvs = set(lead.bv)
    pats = sorted(pf, key=lambda x: (x[0][0] != "T", -sum(1 for p in (x[0][2] if x[0][0] == "T" else ()))))
    res = []
    # With symmetric factors of a Kronecker product there are several ways.
    several = any(
        ATOMS[a][0] in ("div", "mod") for b, _ in lead.fac if b[0] == "T" for p in b[2] for a in p.atoms()
    )
    # The two sides of a product of a matrix with its transpose can be exchanged.
    names = [b[1] for b, _ in pf if b[0] == "T"]
    several = several or len(set(names)) < len(names) and not N.TENSORS.get(m.name, {}).get("sym")

    def uni(p, q, s):
        """Match pattern poly p to poly q; variables gv | bvs."""
        if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1:
            a = p.t[0][0][0]
            if a in gv or a in bvs:
                if a in s:
                    return s if s[a] is q else None
                if a in bvs:
                    # must be a bound variable of t with the same range
                    if not (len(q.t) == 1 and q.t[0][1] == 1 and len(q.t[0][0]) == 1):
                        return None
                    w = q.t[0][0][0]
                    if w not in t.bv or atom_upper(w) is not atom_upper(a):
                        return None
                    if any(s.get(b2) is q for b2 in bvs):
                        return None
                s = dict(s)
                s[a] = q
                return s
            k = ATOMS[a]
            if k[0] in ("div", "mod") and len(k[1].t) == 1 and k[1].t[0][1] == 1 and len(k[1].t[0][0]) == 1:
                g = k[1].t[0][0][0]
                if g in gv and g not in s:
                    # Quotient and remainder determine the index.
                    key = (k[0], g, k[2])
                    if key in s:
                        return s if s[key] is q else None
                    s = dict(s)
                    s[key] = q
                    o = s.get(("mod" if k[0] == "div" else "div", g, k[2]))
                    if o is not None:
                        d, r = (q, o) if k[0] == "div" else (o, q)
                        if not ctx.prove(ge(k[2].shift(-1), r)):
                            return None
                        s[g] = k[2] * d + r
                    return s
        pp = p.subst({x: y for x, y in s.items() if not isinstance(x, tuple)})
        return s if pp is q else None

    def unify_base(pb, b, s):
        if pb[0] != b[0] or pb[1] != b[1]:
            return
        if pb[0] == "T":
            if len(pb[2]) != len(b[2]):
                return
            orders = [b[2]]
            if N.TENSORS.get(b[1], {}).get("sym") and len(b[2]) >= 2:
                orders.append(b[2][:-2] + (b[2][-1], b[2][-2]))
            for idx in orders:
                s2 = s
                for p, q in zip(pb[2], idx):
                    s2 = uni(p, q, s2)
                    if s2 is None:
                        break
                if s2 is not None:
                    yield s2
        elif pb[0] == "F":
            # Match functions only by equality after substitution of known variables;
            # try a simple structural unification on single-factor arguments.
            ka, kb = pb[2], b[2]
            if ka is kb:
                yield s
                return
            ta, tb = ka.nf.terms, kb.nf.terms
            if len(ta) == 1 and len(tb) == 1 and not ta[0].bv and not tb[0].bv and ta[0].c == tb[0].c:
                if len(ta[0].fac) == 1 and len(tb[0].fac) == 1 and ta[0].fac[0][1] == tb[0].fac[0][1]:
                    yield from unify_base(ta[0].fac[0][0], tb[0].fac[0][0], s)
        elif pb[0] == "I":
            s2 = uni(Poly.atom(pb[1]), Poly.atom(b[1]), s)
            if s2 is not None:
                yield s2

    def go(k, used, s):
        if res and not several or len(res) > 8:
            return
        if k == len(pats):
            check(used, s)
            return
        pb, pe = pats[k]
        for q, (b, e, pos) in enumerate(tf):
            have = e - used.get(q, 0)
            if isinstance(pe, int) and isinstance(have, int):
                if pe > 0 and have < pe or pe < 0 and have > pe:
                    continue
            elif have != pe:
                continue
            for s2 in unify_base(pb, b, s):
                u2 = dict(used)
                u2[q] = u2.get(q, 0) + pe
                go(k + 1, u2, s2)
                if res and not several:
                    return

    def check(used, s):
        parts = {x: y for x, y in s.items() if isinstance(x, tuple)}
        s = {x: y for x, y in s.items() if not isinstance(x, tuple)}
        for (kind, g, n), r in parts.items():
            # The remainder is known, and a condition gives the quotient.
            if kind == "mod" and g not in s:
                for cond in lead.cd:
                    d = N._difference(cond[1]) if cond[0] == "eq" else None
                    if d is None or d[0] != "div" or d[3] is not n:
                        continue
                    for x, y in ((d[1], d[2]), (d[2], d[1])):
                        o = parts.get(("div", y.t[0][0][0], n)) if _is_atom(y) else None
                        if _is_var(x, g) and o is not None and g not in s and ctx.prove(ge(n.shift(-1), r)):
                            s[g] = n * o + r
        if not all(v in s for v in bvs):
            return
        # Generic variables not determined by the factors (only in conditions): fail.
        need = set()
        for b, _ in lead.fac:
            need |= N.base_atoms(b)
        if not (need & gv) <= set(s):
            return
        miss = [v for v in m.vars if v not in s and atom_upper(v) is not ONE]
        if miss:
            # A batch index that the lead does not mention: that of the inverse of the
            # matrix, with which the product will be contracted.
            s = dict(s)
            for v in miss:
                k = m.vars.index(v)
                if k >= len(m.vars) - 2:
                    return
                got = {b[2][k] for b, _ in t.fac if b[0] == "T" and _rule_of(b[1]) is m}
                if len(got) != 1:
                    return
                s[v] = got.pop()
        # Bound variables of the lead must not occur elsewhere.
        ws = {s[v].t[0][0][0] for v in bvs}
        lc = {N.norm_cond((k, p.subst(s))) for k, p in lead.cd}
        tc = {N.norm_cond(c): c for c in t.cd}
        for c in lc:
            if c not in tc and ctx.decide(c) is not True:
                return
        remaining = []
        for q, (b, e, pos) in enumerate(tf):
            r = e - used.get(q, 0)
            if r != 0:
                if N.base_atoms(b) & ws:
                    return
                remaining.append((b, r))
        cs = []
        for c0, c in tc.items():
            inl = c0 in lc
            if c[1].all_atoms() & ws:
                if not inl:
                    return
                continue
            if inl:
                continue
            cs.append(c)
        s = dict(s)
        for v in m.vars:
            if v not in s:
                s[v] = ZERO
        base = NF(
            (
                Term(
                    t.c / N.Fraction(lead.c),
                    tuple(b for b in t.bv if b not in ws),
                    frozenset(cs),
                    tuple(remaining),
                ),
            )
        )
        idx = tuple(s[v] for v in m.vars)
        repl = NF.elem(m.name, idx) - rest.subst({v: s[v] for v in m.vars})
        res.append((-_contractible(base, m, idx), sum(len(p.t) for p in idx), len(res), base * repl))

    go(0, {}, {})
    return min(res, key=lambda r: r[:3])[3] if res else None


def _contractible(base, m, idx):
    """With how many inverses of the matrix can the element be contracted?"""
    n = 0
    for t in base.terms:
        for b, e in t.fac:
            if b[0] == "T" and b[1] in RULES["inv"] and _rule_of(b[1]) is m:
                for v in t.bv:
                    px, py = _positions(b[2], v), _positions(idx, v)
                    if px is not None and py is not None and (px == py) == m.swap:
                        n += 1
    return n


def _rw_block(t, ctx):
    """sum_v S[q (x div q) + v, x] f[q (x div q) + v] = sum_w S[w, x] f[w]: the rest of the
    column is zero."""
    for b, e in t.fac:
        q = BLOCKS.get(b[1]) if b[0] == "T" else None
        if q is None:
            continue
        for p, x in ((b[2][-2], b[2][-1]), (b[2][-1], b[2][-2])):
            base = q * mk_div(x, q)
            v = p - base
            if not _is_atom(v) or v.t[0][0][0] not in t.bv:
                continue
            a = v.t[0][0][0]
            if atom_upper(a) is not q:
                continue
            fs, cs = _uses(t, a)
            if cs or any(a in y.all_atoms() and y is not p for k in fs for y in (t.fac[k][0][2] if t.fac[k][0][0] == "T" else (v,))):
                continue
            m = MAT[b[1]]
            w = fresh_var(m.shape[-1])
            s = {a: Poly.atom(w) - base}
            t2 = Term(t.c, (), t.cd, t.fac)
            rest = tuple(y for y in t.bv if y != a)
            return NF(N._close(N.subst_term(t2, s), rest + (w,)))
    return None


def _rule_of(name):
    for d in ("inv", "chol", "trinv"):
        m = RULES[d].get(name)
        if m is not None:
            return m
    return None


def _rw_svd(t, ctx):
    """sum_v U[i,v] s[v] V[j,v] = X[i,j]."""
    for k, (b, e) in enumerate(t.fac):
        if b[0] != "T" or b[1] not in RULES["svd"]:
            continue
        m, (u, s, w) = RULES["svd"][b[1]]
        for v in t.bv:
            fs, cs = _uses(t, v)
            if cs or k not in fs:
                continue
            facs = []
            for q in fs:
                bb, ee = t.fac[q]
                if isinstance(ee, int) and ee > 0 and bb[0] == "T":
                    facs += [bb] * ee
                else:
                    facs = None
                    break
            if facs is None or len(facs) != 3:
                continue
            us = [x for x in facs if x[1] in (u, w)]
            ss = [x for x in facs if x[1] == s]
            if len(us) != 2 or len(ss) != 1:
                continue
            if not all(_positions(x[2], v) == -1 for x in us) or not _is_var(ss[0][2][-1], v):
                continue
            if u != w:
                us.sort(key=lambda x: x[1] != u)
                if us[0][1] != u or us[1][1] != w:
                    continue
            bx = us[0][2][:-2]
            if us[1][2][:-2] != bx or ss[0][2][:-1] != bx:
                continue
            r = m.nf.subst(dict(zip(m.vars, _full(m, bx) + (us[0][2][-2], us[1][2][-2]))))
            return NF((_without(t, fs, (v,)),)) * r
    return None
