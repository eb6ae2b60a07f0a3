"""The contract of `matrix.ops.algorithms.align.align`, used in place of its body when its
callers are verified (the body is verified against the same contract separately).

    requires  a is n x p, b is n x q (batches allowed)
    ensures   there is a length L <= p + q and lists ap, bp, ajp, bjp of length L with entries
              in [0, p) or -1 (ap, ajp) and [0, q) or -1 (bp, bjp) such that, with
              J[:, k] = A[:, ajp[k]] + B[:, bjp[k]]   (index -1: a column of zeros),
              every i < p occurs exactly once in ap, every j < q exactly once in bp,
              and ap[k] = i implies J[:, k] = A[:, i], bp[k] = j implies J[:, k] = B[:, j].

The consequence used by the prover, for every F:
    sum_k [ap[k] >= 0] J[n, k] F(ap[k]) = sum_{i < p} A[n, i] F(i), and alike for b.
"""

from . import nf as N
from .nf import NF, Term, Unsupported, eq, ge, lt
from .poly import ATOMS, ONE, Poly, ZERO, atom_upper, dim_atom, fresh_var, intern_atom

INSTANCES = []
PERMS = {}


class Perm(list):
    """A list of indices known only through the contract."""

    def __init__(self, inst, kind, n):
        super().__init__()
        self.inst, self.kind, self.n = inst, kind, n

    def _no(self, *a, **k):
        raise Unsupported("inspecting a permutation that is known by contract only")

    __iter__ = __len__ = __getitem__ = __contains__ = append = pop = __bool__ = _no
    __array__ = index = count = extend = __add__ = __eq__ = _no
    __hash__ = object.__hash__

    def atom(self, k):
        """Entry k as an index term in [0, n]; n stands for -1."""
        return intern_atom(("app", f"{self.kind}{self.inst.id}", (k,), self.n.shift(1)))


class Instance:
    def __init__(self, a, b):
        from .symt import as_tensor
        from . import den as D

        self.id = len(INSTANCES) + 1
        self.a, self.b = as_tensor(D.den(a)), as_tensor(D.den(b))
        self.p, self.q = self.a._shape[-1], self.b._shape[-1]
        self.L = Poly.atom(dim_atom(f"L{self.id}", 1))
        self.perms = (
            Perm(self, "ap", self.p),
            Perm(self, "bp", self.q),
            Perm(self, "ajp", self.p),
            Perm(self, "bjp", self.q),
        )
        # The joined columns are known by name only.
        self.ja, self.jb = f"JA{self.id}", f"JB{self.id}"
        N.TENSORS[self.ja] = {}
        N.TENSORS[self.jb] = {}
        nb = [sum(d is not ONE for d in t._shape[:-1]) for t in (self.a, self.b)]
        self.cover = "a" if nb[0] > nb[1] else "b"
        INSTANCES.append(self)


def reset():
    INSTANCES.clear()


def same_inputs(i, a, b):
    return i.a is a and i.b is b


def stub(a, b):
    """Stands for `align(a, b)`."""
    i = Instance(a, b)
    return i.perms


def bounded(p):
    """`p` with every number L of joined columns replaced by p + q - (something that is not
    negative): L <= p + q.  To be compared against zero from above."""
    for i in INSTANCES:
        a = dim_atom(f"L{i.id}", 1)
        if a in p.all_atoms():
            less = Poly.atom(dim_atom(f"LM{i.id}", 0))
            p = p.subst({a: i.p + i.q - less})
    return p


def take(x, perm, axis):
    """`B.take(x, perm, axis)` for a symbolic tensor and a permutation by contract."""
    from .symt import SymTensor, decide

    n = len(x._shape)
    ax = axis + n if axis < 0 else axis
    d = x._shape[ax]
    inst = perm.inst
    shape = x._shape[:ax] + (inst.L,) + x._shape[ax + 1 :]
    if not decide(("ge", d - perm.n)):
        raise IndexError("index out of bounds")
    if perm.kind in ("ajp", "bjp") and ax == n - 1:
        src, name = (inst.a, inst.ja) if perm.kind == "ajp" else (inst.b, inst.jb)
        if is_padded(x, src):
            return SymTensor.make(shape, lambda idx: NF.elem(name, tuple(ZERO if s is ONE else i for s, i in zip(shape, idx))), x._dt)

    def elem(idx):
        k = idx[ax]
        a = Poly.atom(perm.atom(k))
        ix = lambda p: idx[:ax] + (p,) + idx[ax + 1 :]
        yes = x.at(ix(a)).cond(lt(a, perm.n))
        no = x.at(ix(d.shift(-1))).cond(eq(a, perm.n))
        return yes + no

    return SymTensor.make(shape, elem, x._dt)


def is_padded(x, src):
    """Is `x` the matrix `src` with one column of zeros appended?"""
    from .symt import named_var

    if len(x._shape) != len(src._shape) or x._shape[:-1] != src._shape[:-1]:
        return False
    if x._shape[-1] is not src._shape[-1].shift(1):
        return False
    idx = tuple(
        ZERO if d is ONE else Poly.atom(named_var(f"u{k}", d)) for k, d in enumerate(x._shape)
    )
    i = Poly.atom(named_var("uk", src._shape[-1]))
    if N.prove_zero(x.at(idx[:-1] + (i,)) - src.at(idx[:-1] + (i,))) is not None:
        return False
    return N.prove_zero(x.at(idx[:-1] + (src._shape[-1],))) is None


def rewrite_term(t, ctx):
    """The lemma, left to right: removes the joined columns of the other operand."""
    for inst in INSTANCES:
        for v in t.bv:
            if atom_upper(v) is not inst.L:
                continue
            r = _one(t, v, inst, ctx)
            if r is not None:
                return r
    return None


def _one(t, v, inst, ctx):
    vp = Poly.atom(v)
    for which in ("a", "b"):
        perm = inst.perms[0] if which == "a" else inst.perms[1]
        src = inst.a if which == "a" else inst.b
        # The joined column to eliminate: the one with the larger batch.
        if inst.cover == "a":
            trig, other, oshape = inst.ja, inst.jb, inst.b._shape
        else:
            trig, other, oshape = inst.jb, inst.ja, inst.a._shape
        app = perm.atom(vp)
        ap = Poly.atom(app)
        need = lt(ap, perm.n)
        if not any(N.norm_cond(c) == need for c in t.cd):
            continue
        pos = [
            k
            for k, (b, e) in enumerate(t.fac)
            if b[0] == "T" and b[1] == trig and e == 1 and b[2] and b[2][-1] is vp
        ]
        if len(pos) != 1:
            continue
        k0 = pos[0]
        trig_idx = t.fac[k0][0][2]
        if any(v in p.all_atoms() for p in trig_idx[:-1]):
            continue
        rest = tuple(f for k, f in enumerate(t.fac) if k != k0)
        cs = [c for c in t.cd if N.norm_cond(c) != need]
        # Everything else may depend on v only through ap(v).
        w = fresh_var(perm.n)
        sub = {app: Poly.atom(w)}
        t2 = Term(t.c, tuple(x for x in t.bv if x != v), frozenset(cs), rest)
        s2 = N.subst_term(t2, sub)
        if any(v in N.term_atoms(x) for x in s2):
            continue
        # S = sum_w src[.., n, w] F(w)
        batch = trig_idx[:-1]  # batch and row
        sidx = _batch(batch, src._shape[:-1])
        if sidx is None:
            continue
        e = src.at(sidx + (Poly.atom(w),))
        S = (NF(s2) * e).sum_over(w)
        oidx = _batch(batch, oshape[:-1])
        if oidx is None:
            continue
        j = NF.elem(other, oidx + (vp,))
        T1 = NF((Term(t.c, t.bv, t.cd, rest),)) * j
        return S - T1
    return None


def _batch(batch, shape):
    """Batch indices for a tensor with batch `shape` from those of the other one."""
    n = len(shape)
    if len(batch) < n:
        if any(d is not ONE for d in shape[: n - len(batch)]):
            return None
        batch = (ZERO,) * (n - len(batch)) + tuple(batch)
    batch = tuple(batch[len(batch) - n :]) if n else ()
    out = []
    for i, d in zip(batch, shape):
        if d is ONE:
            out.append(ZERO)
        else:
            if i is ZERO:
                return None
            out.append(i)
    return tuple(out)
