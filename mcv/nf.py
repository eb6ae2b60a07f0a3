"""Normal forms of real-valued expressions over tensor elements.

An expression is a finite sum of terms
    coef * sum_{bound index variables} [conditions] * prod_i base_i ** exp_i
where a base is a tensor element ('T', name, indices), an integer atom read as a real
('I', atom), or a function of an expression ('F', fname, key).
"""

import itertools
import math
from fractions import Fraction

from .ctx import Ctx
from .poly import (
    ATOMS,
    ONE,
    Poly,
    ZERO,
    atom_inner,
    atom_upper,
    divide_out,
    fresh_var,
    intern_atom,
    mk_div,
    quick_nonneg,
)


class Unsupported(BaseException):
    """The engine cannot express something; never a verdict about the code."""


# Tensor attributes: name -> dict(positive=bool, sym=bool, ...)
TENSORS = {}
ZEROS = []  # tensors that the current path assumes to be zero
MAX_TERMS = 4000


class Term:
    __slots__ = ("c", "bv", "cd", "fac")

    def __init__(self, c, bv=(), cd=frozenset(), fac=()):
        self.c = c
        self.bv = bv
        self.cd = cd
        self.fac = fac  # tuple of (base, exp), merged

    def __repr__(self):
        s = [] if self.c == 1 and self.fac else [str(self.c)]
        for b, e in self.fac:
            r = base_str(b)
            s.append(r if e == 1 else f"{r}^{e}")
        out = "*".join(s)
        if self.cd:
            out = "".join(
                f"[{p!r}{'==0' if k == 'eq' else '>=0'}]" for k, p in sorted(self.cd, key=lambda x: (x[0], x[1].t))
            ) + out
        if self.bv:
            from .poly import atom_str

            out = "sum{" + ",".join(atom_str(b) + "<" + repr(atom_upper(b)) for b in self.bv) + "}(" + out + ")"
        return out


def base_str(b):
    if b[0] == "T":
        return f"{b[1]}[{','.join(map(repr, b[2]))}]"
    if b[0] == "I":
        return repr(Poly.atom(b[1]))
    return f"{b[1]}({b[2]!r})"


class NF:
    __slots__ = ("terms", "_key")

    def __init__(self, terms=()):
        self.terms = tuple(terms)
        self._key = None
        if len(self.terms) > MAX_TERMS:
            raise Unsupported(f"expression too large: {len(self.terms)} terms")

    # ------------------------------------------------------------ constructors
    @staticmethod
    def const(c):
        c = to_fraction(c)
        return NF((Term(c),)) if c else NF()

    @staticmethod
    def elem(name, idx):
        info = TENSORS.get(name)
        idx = tuple(idx)
        if info and info.get("sym") and len(idx) >= 2 and idx[-1] < idx[-2]:
            idx = idx[:-2] + (idx[-1], idx[-2])
        return NF((Term(1, (), frozenset(), ((("T", name, idx), 1),)),))

    @staticmethod
    def from_poly(p):
        ts = []
        for m, c in p.t:
            fac = {}
            for a in m:
                fac[("I", a)] = fac.get(("I", a), 0) + 1
            ts.append(Term(c, (), frozenset(), mkfac(fac)))
        return NF(ts)

    def is_zero(self):
        return not self.terms

    # ------------------------------------------------------------ algebra
    def __add__(self, o):
        if not o.terms:
            return self
        if not self.terms:
            return o
        return NF(self.terms + o.terms)

    def __neg__(self):
        return NF(Term(-t.c, t.bv, t.cd, t.fac) for t in self.terms)

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        c = to_fraction(c)
        if not c:
            return NF()
        return NF(Term(t.c * c, t.bv, t.cd, t.fac) for t in self.terms)

    def __mul__(self, o):
        out = []
        for a in self.terms:
            for b in o.terms:
                bb = b
                if b.bv:
                    bb = rename_apart(b)
                out.append(mul_terms(a, bb))
        return NF(out)

    def cond(self, *conds):
        """Multiply by Iverson brackets."""
        cs = frozenset(conds)
        return NF(Term(t.c, t.bv, t.cd | cs, t.fac) for t in self.terms)

    def sum_over(self, var):
        """Sum over index variable atom `var` (which must be fresh)."""
        return NF(Term(t.c, t.bv + (var,), t.cd, t.fac) for t in self.terms)

    def subst(self, s):
        """Substitute free index atoms by polys."""
        if not s:
            return self
        out = []
        for t in self.terms:
            out.extend(subst_term(t, s))
        return NF(out)

    def free_atoms(self):
        s = set()
        for t in self.terms:
            s |= term_atoms(t) - set(t.bv)
        return s

    def __repr__(self):
        if not self.terms:
            return "0"
        return " + ".join(map(repr, self.terms))


def to_fraction(c):
    if isinstance(c, (int, Fraction)):
        return c
    if isinstance(c, float):
        if c == int(c):
            return int(c)
        return Fraction(c)
    try:
        import numpy as np

        if isinstance(c, np.generic):
            return to_fraction(c.item())
    except ImportError:
        pass
    raise Unsupported(f"cannot convert constant {c!r}")


def mkfac(d):
    return tuple(
        (b, int(e) if type(e) is Fraction and e.denominator == 1 else e) for b, e in d.items() if e != 0
    )


def mul_terms(a, b):
    if not b.fac:
        fac = a.fac
    elif not a.fac:
        fac = b.fac
    else:
        d = dict(a.fac)
        for x, e in b.fac:
            d[x] = d.get(x, 0) + e
        fac = mkfac(d)
    return Term(a.c * b.c, a.bv + b.bv, a.cd | b.cd, fac)


def rename_apart(t):
    s = {v: Poly.atom(fresh_var(atom_upper(v))) for v in t.bv}
    r = subst_term(Term(t.c, (), t.cd, t.fac), s)
    assert len(r) == 1
    r = r[0]
    return Term(r.c, tuple(next(iter(s[v].atoms())) for v in t.bv), r.cd, r.fac)


def base_atoms(b):
    if b[0] == "T":
        s = set()
        for p in b[2]:
            s |= p.all_atoms()
        return s
    if b[0] == "I":
        return {b[1]} | atom_inner(b[1])
    return b[2].free_atoms()


def term_atoms(t):
    s = set()
    for _, p in t.cd:
        s |= p.all_atoms()
    for b, _ in t.fac:
        s |= base_atoms(b)
    return s


def subst_base(b, e, s):
    """Returns an (base, exp) or an NF."""
    if b[0] == "T":
        idx = tuple(p.subst(s) for p in b[2])
        info = TENSORS.get(b[1])
        if info and info.get("sym") and len(idx) >= 2 and idx[-1] < idx[-2]:
            idx = idx[:-2] + (idx[-1], idx[-2])
        return (("T", b[1], idx), e)
    if b[0] == "I":
        p = Poly.atom(b[1]).subst(s)
        if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1:
            return (("I", p.t[0][0][0]), e)
        return power_nf(NF.from_poly(p), e)
    k = b[2].subst(s)
    if k is b[2]:
        return (b, e)
    r = apply_fn(b[1], k.nf)
    if len(r.terms) == 1 and r.terms[0].c == 1 and not r.terms[0].bv and not r.terms[0].cd and len(r.terms[0].fac) == 1:
        bb, ee = r.terms[0].fac[0]
        return (bb, ee * e)
    return power_nf(r, e)


def power_nf(nf, e):
    if isinstance(e, int) and e >= 0:
        out = NF.const(1)
        for _ in range(e):
            out = out * nf
        return out
    return apply_fn(("pow", e), nf)


def subst_term(t, s):
    cd = frozenset((k, p.subst(s)) for k, p in t.cd) if t.cd else t.cd
    d = {}
    extra = None
    for b, e in t.fac:
        r = subst_base(b, e, s)
        if isinstance(r, NF):
            extra = r if extra is None else extra * r
        else:
            d[r[0]] = d.get(r[0], 0) + r[1]
    out = Term(t.c, t.bv, cd, mkfac(d))
    if extra is None:
        return [out]
    return list((NF((out,)) * extra).terms)


# ---------------------------------------------------------------- functions


class Key:
    """A canonical, hashable expression (argument of a function base)."""

    __slots__ = ("key", "nf", "level", "_free")
    _pool = {}

    @staticmethod
    def of(nf, ctx=None):
        d, level = canon_dict(nf, ctx or BASE)
        key = tuple(sorted(((k, c) for k, c in d.items()), key=_sortkey))
        r = Key._pool.get(key)
        if r is None:
            r = Key()
            r.key = key
            r.level = level
            r.nf = NF(term_of_key(k, c) for k, c in key)
            r._free = None
            Key._pool[key] = r
        return r

    def free_atoms(self):
        if self._free is None:
            self._free = frozenset(self.nf.free_atoms())
        return self._free

    def subst(self, s):
        if self.free_atoms().isdisjoint(s):
            # Composite atoms are included in free_atoms.
            return self
        return Key.of(self.nf.subst(s))

    def __repr__(self):
        return repr(self.nf)

    def __lt__(self, o):
        return repr(self.key) < repr(o.key)


def _sortkey(x):
    return repr(x)


def term_of_key(k, c):
    bv, cd, fac = k
    return Term(c, bv, frozenset(cd), fac)


def is_positive(b):
    """Base known to be strictly positive?"""
    if b[0] == "T":
        info = TENSORS.get(b[1])
        if not info:
            return False
        p = info.get("positive")
        if p == "diag":
            return b[2][-1] is b[2][-2]
        return bool(p)
    if b[0] == "I":
        k = ATOMS[b[1]]
        return k[0] == "dim" and k[2] >= 1
    if b[0] == "F":
        if b[1] == "exp":
            return True
    return False


def is_nonneg(b):
    if is_positive(b):
        return True
    if b[0] == "I":
        return True
    if b[0] == "F":
        return b[1] == "abs" or (b[1][0] == "pow" and (2 * b[1][1]).denominator == 1 if isinstance(b[1], tuple) else False)
    return False


def apply_fn(fname, nf, ctx=None):
    """fname: 'abs', 'log', 'exp', 'isnan', ('pow', e)."""
    nf = simplify(nf, ctx)
    # Shannon expansion over the conditions free of bound variables.
    conds = set()
    for t in nf.terms:
        bv = set(t.bv)
        for c in t.cd:
            if c[1].all_atoms().isdisjoint(bv):
                conds.add(c)
    if conds:
        c = min(conds, key=lambda x: (x[0], repr(x[1])))
        yes = assume(nf, c, True, ctx)
        no = assume(nf, c, False, ctx)
        fy = apply_fn(fname, yes, ctx)
        fn = apply_fn(fname, no, ctx)
        return fy.cond(c) + times_not(fn, c)
    if not nf.terms:
        if fname == "abs" or fname == "sqrt":
            return NF()
        if isinstance(fname, tuple) and fname[0] == "pow" and fname[1] > 0:
            return NF()
        if fname == "exp":
            return NF.const(1)
        if isinstance(fname, tuple) and fname[0] == "pow" and fname[1] == 0:
            return NF.const(1)
        return fn_atom(fname, nf, ctx)
    if isinstance(fname, tuple) and fname[0] == "pow":
        e = fname[1]
        if e == 1:
            return nf
        if e == 0:
            return NF.const(1)
        if isinstance(e, int) and 0 < e <= 4:
            return simplify(power_nf(nf, e), ctx)
    if len(nf.terms) == 1 and not nf.terms[0].bv:
        t = nf.terms[0]
        if fname == "abs":
            out = {}
            rest = {}
            for b, e in t.fac:
                if is_nonneg(b) or (e % 2 == 0):
                    out[b] = e
                else:
                    rest[b] = e
            for b, e in rest.items():
                f = _fn_base("abs", NF((Term(1, (), frozenset(), ((b, 1),)),)), ctx)
                out[f] = out.get(f, 0) + e
            return NF((Term(abs(t.c), (), t.cd, mkfac(out)),))
        if isinstance(fname, tuple) and fname[0] == "pow":
            e = fname[1]
            out = {}
            rest = {}
            if Fraction(e).denominator == 1:
                for b, x in t.fac:
                    out[b] = x * e
                return NF((Term(Fraction(t.c) ** e, (), t.cd, mkfac(out)),))
            # Fractional power: pull out what is known to be nonnegative.
            c = 1
            cr = t.c
            root = _exact_pow(t.c, e) if t.c > 0 else None
            if root is not None:
                c, cr = root, 1
            for b, x in t.fac:
                if is_nonneg(b):
                    out[b] = x * e
                elif x % 2 == 0 and not isinstance(x, Fraction):
                    # (y^(2k))^e = |y|^(2k e)
                    f = _fn_base("abs", NF((Term(1, (), frozenset(), ((b, 1),)),)), ctx)
                    out[f] = out.get(f, 0) + x * e
                else:
                    rest[b] = x
            if rest or cr != 1:
                arg = NF((Term(cr, (), frozenset(), mkfac(rest)),))
                f = _fn_base(fname, arg, ctx)
                # Uniform: base ('F', ('pow', e'), arg) with exponent multiples.
                out[f] = out.get(f, 0) + 1
            return NF((Term(c, (), t.cd, mkfac(out)),))
        if fname == "log" and not t.fac and t.c == 1:
            return NF()
    if fname == "abs" or isinstance(fname, tuple) and fname[0] == "pow":
        com, rest = _split_common(nf, fname)
        if com is not None:
            out = apply_fn(fname, com, ctx) * apply_fn(fname, rest, ctx)
            return simplify(out, ctx)
    return fn_atom(fname, nf, ctx)


def _split_common(nf, fname):
    """Pull out of a sum the factors that do not depend on bound variables."""
    frac = fname != "abs" and Fraction(fname[1]).denominator != 1
    common = None
    for t in nf.terms:
        bv = set(t.bv)
        d = {b: e for b, e in t.fac if base_atoms(b).isdisjoint(bv) and (not frac or is_nonneg(b))}
        if common is None:
            common = d
        else:
            common = {b: e for b, e in common.items() if d.get(b) == e}
        if not common:
            return None, None
    if len(nf.terms) == 1 and len(common) == len(nf.terms[0].fac):
        return None, None
    com = NF((Term(1, (), frozenset(), mkfac(common)),))
    rest = NF([Term(t.c, t.bv, t.cd, tuple((b, e) for b, e in t.fac if b not in common)) for t in nf.terms])
    return com, rest


def _exact_pow(c, e):
    c = Fraction(c)
    e = Fraction(e)
    d = e.denominator

    def root(n):
        r = round(n ** (1.0 / d))
        for k in (r - 1, r, r + 1):
            if k >= 0 and k**d == n:
                return k
        return None

    a, b = root(c.numerator), root(c.denominator)
    if a is None or b is None:
        return None
    return Fraction(a, b) ** e.numerator


def _fn_base(fname, nf, ctx):
    return ("F", fname, Key.of(nf, ctx))


def fn_atom(fname, nf, ctx):
    if isinstance(fname, tuple) and fname[0] == "pow" and fname[1] < 0:
        # x ** (-e) as (x ** e) ** -1, so that reciprocals cancel.
        e = -fname[1]
        if Fraction(e).denominator == 1:
            b = ("F", "id", Key.of(nf, ctx))
            return NF((Term(1, (), frozenset(), ((b, -int(e)),)),))
        b = _fn_base(("pow", e), nf, ctx)
        return NF((Term(1, (), frozenset(), ((b, -1),)),))
    return NF((Term(1, (), frozenset(), ((_fn_base(fname, nf, ctx), 1),)),))


def negate(c):
    """Negation of ('ge', p) as a condition; ('eq', p) has none."""
    assert c[0] == "ge"
    return ("ge", (-c[1]).shift(-1))


def times_not(nf, c):
    if c[0] == "ge":
        return nf.cond(negate(c))
    return nf - nf.cond(c)


# ---------------------------------------------------------------- simplification

BASE = Ctx()


def set_base(ctx):
    global BASE
    BASE = ctx


def norm_cond(c):
    """Normalise the sign and the content of a condition."""
    k, p = c
    if p.is_const():
        return c
    # Divide by the gcd.
    g = 0
    const = 0
    for m, x in p.t:
        if m == ():
            const = x
        else:
            g = math.gcd(g, x)
    if g > 1:
        if k == "eq":
            if const % g:
                return ("eq", ONE)
            p = Poly(tuple((m, x // g) for m, x in p.t))
        else:
            d = {m: x // g for m, x in p.t if m != ()}
            d[()] = const // g  # floor
            p = Poly.from_dict(d)
    if k == "eq" and p.t[-1][1] < 0:
        p = -p
    if len(p.t) in (2, 3):
        q = _monotone(k, p)
        if q is not None:
            return norm_cond((k, q))
    return (k, p)


def _monotone(k, p):
    """f(x) - f(y) + c for a strictly increasing f, compared with zero: x - y + c, where c
    is 0 or, for inequalities, -1."""
    c = p.coef(())
    if len(p.t) == 3 and not (k == "ge" and c == -1) or len(p.t) == 2 and c:
        return None
    pos = neg = None
    for m, x in p.t:
        if m == ():
            continue
        if len(m) != 1 or x not in (1, -1) or ATOMS[m[0]][0] != "app" or not ATOMS[m[0]][1].startswith("incr:"):
            return None
        if x == 1:
            pos = ATOMS[m[0]]
        else:
            neg = ATOMS[m[0]]
    if pos is None or neg is None or pos[1] != neg[1]:
        return None
    return pos[2][0] - neg[2][0] + Poly.const(c)


def eq(a, b):
    return norm_cond(("eq", a - b))


def ge(a, b):
    return norm_cond(("ge", a - b))


def lt(a, b):
    return norm_cond(("ge", (b - a).shift(-1)))


def simplify(nf, ctx=None):
    d, _ = canon_dict(nf, ctx or BASE)
    return NF(term_of_key(k, c) for k, c in d.items())


_SIMP_CACHE = {}


def canon_dict(nf, ctx):
    out = {}
    level = 0
    work = list(nf.terms)
    n = 0
    while work:
        n += 1
        if n > 20 * MAX_TERMS:
            raise Unsupported("simplification diverges")
        t = work.pop()
        r = simp_term(t, ctx)
        if r is None:
            continue
        if isinstance(r, list):
            work.extend(r)
            continue
        key, c, lv = canon_term(r, ctx)
        level = max(level, lv)
        v = out.get(key, 0) + c
        if v:
            out[key] = v
        else:
            out.pop(key, None)
    return out, level


def _occ(t, v):
    for _, p in t.cd:
        if v in p.all_atoms():
            return True
    for b, _ in t.fac:
        if v in base_atoms(b):
            return True
    return False


def simp_term(t, ctx):
    """One term: `None` if zero, a list of terms if it was rewritten into several (or
    one that needs another pass), or the simplified term."""
    if t.c == 0:
        return None
    # Conditions.
    cds = set()
    changed = False
    for c in t.cd:
        c2 = norm_cond(c)
        r = ctx.decide(c2)
        if r is False:
            return None
        if r is True:
            changed = True
            continue
        cds.add(c2)
    if cds != t.cd:
        t = Term(t.c, t.bv, frozenset(cds), t.fac)
    # Pairs of conditions: p >= 0 and -p >= 0, p == q etc.
    if len(cds) >= 2:
        r = _pairs(t, ctx)
        if r is None:
            return None
        if r is not t:
            return [r]
    bv = set(t.bv)
    # Delta elimination.
    for c in sorted(t.cd, key=lambda x: (x[0], x[1].t)):
        if c[0] != "eq":
            continue
        p = c[1]
        for v in sorted(p.atoms() & bv):
            k = p.linear_in(v)
            if k in (1, -1):
                expr = (Poly.atom(v).scale(k) - p).scale(k)  # v = expr
                if v in expr.all_atoms():
                    continue
                hi = atom_upper(v)
                conds = (t.cd - {c}) | {ge(expr, ZERO), lt(expr, hi)}
                s = {v: expr}
                t2 = Term(t.c, tuple(x for x in t.bv if x != v), frozenset(conds), t.fac)
                return subst_term(t2, s)
    # Free equalities: orient and substitute elsewhere.
    for c in sorted(t.cd, key=lambda x: (x[0], x[1].t)):
        if c[0] != "eq":
            continue
        p = c[1]
        if not p.all_atoms().isdisjoint(bv):
            continue
        v, expr = orient(p)
        if v is None:
            continue
        others = t.cd - {c}
        uses = any(v in q.all_atoms() for _, q in others) or any(
            v in base_atoms(b) for b, _ in t.fac
        )
        if uses:
            t2 = Term(t.c, t.bv, frozenset(others), t.fac)
            res = subst_term(t2, {v: expr})
            return [Term(x.c, x.bv, x.cd | {c}, x.fac) for x in res]
    # Bound variables.
    for v in t.bv:
        hi = atom_upper(v)
        if hi is ZERO:
            return None
        if hi is ONE:
            t2 = Term(t.c, tuple(x for x in t.bv if x != v), t.cd, t.fac)
            return subst_term(t2, {v: ZERO})
        if not _occ(t, v):
            t2 = Term(t.c, tuple(x for x in t.bv if x != v), t.cd, t.fac)
            return list((NF((t2,)) * NF.from_poly(hi)).terms)
        if hi.is_const() and hi.const_value() <= 4:
            rest = tuple(x for x in t.bv if x != v)
            out = []
            for i in range(hi.const_value()):
                out.extend(subst_term(Term(t.c, rest, t.cd, t.fac), {v: Poly.const(i)}))
            return out
        # Range conditions.
        for c in t.cd:
            if c[0] != "ge":
                continue
            p = c[1]
            k = p.linear_in(v)
            if k not in (1, -1):
                continue
            rest = tuple(x for x in t.bv if x != v)
            oth = frozenset(t.cd - {c})
            if p.all_atoms() & set(rest):
                continue
            if k == -1:
                # v <= e - 1 with e = p + v + 1
                e = p + Poly.atom(v) + ONE
                if any(ATOMS[a][0] != "dim" for a in e.all_atoms()):
                    continue
                if ctx.prove(("ge", e)) and ctx.prove(("ge", hi - e)):
                    w = fresh_var(e)
                    return _close(subst_term(Term(t.c, (), oth, t.fac), {v: Poly.atom(w)}), rest + (w,))
            else:
                # v >= e, e = v - p
                e = Poly.atom(v) - p
                if any(ATOMS[a][0] != "dim" for a in e.all_atoms()):
                    continue
                if ctx.prove(("ge", e)) and ctx.prove(("ge", hi - e)):
                    w = fresh_var(hi - e)
                    return _close(subst_term(Term(t.c, (), oth, t.fac), {v: Poly.atom(w) + e}), rest + (w,))
        # q v <= e < q (v + 1): the quotient.
        if len(t.cd) > 1:
            r = _quotient(t, v, hi)
            if r is not None:
                return r
        # Product ranges.
        q = _split_divisor(t, v, hi)
        if q is not None:
            A, R = divide_out(hi, q)
            v1, v2 = fresh_var(A), fresh_var(q)
            rest = tuple(x for x in t.bv if x != v)
            return _close(
                subst_term(Term(t.c, (), t.cd, t.fac), {v: q * Poly.atom(v1) + Poly.atom(v2)}),
                rest + (v1, v2),
            )
    if len(t.bv) > 1:
        r = _fuse(t)
        if r is not None:
            return r
    # Function bases: integer powers of `id`.
    for i, (b, e) in enumerate(t.fac):
        if b[0] == "F":
            r = _fix_fn(b, e, ctx)
            if r is not None:
                rest = t.fac[:i] + t.fac[i + 1 :]
                return list((NF((Term(t.c, t.bv, t.cd, rest),)) * r).terms)
    return t


def _close(terms, bv):
    return [Term(x.c, x.bv + bv, x.cd, x.fac) for x in terms]


def _fix_fn(b, e, ctx):
    f = b[1]
    if isinstance(f, tuple) and f[0] == "pow":
        # (x^q)^e with q*e an integer: x^(q*e), valid on the domain x >= 0.
        q = f[1]
        if e != 1 and Fraction(q * e).denominator == 1:
            n = int(q * e)
            if n >= 0:
                return power_nf(b[2].nf, n)
            return apply_fn(("pow", n), b[2].nf, ctx)
    if f == "abs" and not isinstance(e, Fraction) and e % 2 == 0:
        return apply_fn(("pow", e), b[2].nf, ctx)
    if f == "id":
        if e > 0 and not isinstance(e, Fraction):
            return power_nf(b[2].nf, e)
        nf = b[2].nf
        if len(nf.terms) == 1 and not nf.terms[0].bv and not nf.terms[0].cd:
            return apply_fn(("pow", e), nf, ctx)
    return None


def _split_divisor(t, v, hi):
    """A monomial q that properly divides the range of `v` and divides some div/mod
    modulus in which `v` occurs."""
    if hi.is_const():
        pass
    qs = []

    def look(atoms):
        for a in atoms:
            k = ATOMS[a]
            if k[0] in ("div", "mod") and v in k[1].all_atoms():
                qs.append(k[2])

    for _, p in t.cd:
        look(p.all_atoms())
    for b, _ in t.fac:
        look(base_atoms(b))
    for q in sorted(set(qs), key=lambda p: (len(p.t[0][0]) if p.t else 0, p.t)):
        A, R = divide_out(hi, q)
        if R is ZERO and A is not ONE and A is not ZERO:
            return q
    # range n*m*p with div by m: the modulus may be a multiple: no split.
    return None


def _quotient(t, v, hi):
    for c in t.cd:
        if c[0] != "ge" or v not in c[1].atoms():
            continue
        a = Poly.atom(v)
        m = [(n, x) for n, x in c[1].t if v in n]
        if len(m) != 1 or m[0][0].count(v) != 1 or m[0][1] > 0:
            continue
        q = Poly((((tuple(x for x in m[0][0] if x != v)), -m[0][1]),))
        if not all(ATOMS[x][0] == "dim" for x in q.atoms()) or q is ONE:
            continue
        e = c[1] + q * a
        d = q * a + q - ONE - e
        d = norm_cond(("ge", d))
        if d not in t.cd or v in e.all_atoms():
            continue
        w = mk_div(e, q)
        rest = tuple(x for x in t.bv if x != v)
        cds = frozenset((t.cd - {c, d}) | {("ge", e), ("ge", hi * q - ONE - e)})
        return _close(subst_term(Term(t.c, (), cds, t.fac), {v: w}), rest)
    return None


def _fuse(t):
    """Two bound variables that only occur as q * v1 + v2, with q the range of v2: one
    variable over the product of the ranges."""
    bv = set(t.bv)
    ps = [p for _, p in t.cd] + [p for b, _ in t.fac if b[0] == "T" for p in b[2]]
    for p in ps:
        if len(p.t) < 2:
            continue
        for v2 in p.atoms() & bv:
            q = atom_upper(v2)
            if q.is_const() or p.linear_in(v2) != 1:
                continue
            for v1 in p.atoms() & bv:
                if v1 == v2:
                    continue
                w = fresh_var(atom_upper(v1) * q)
                s = {v2: Poly.atom(w) - q * Poly.atom(v1)}
                if any(v1 in x.subst(s).all_atoms() for x in ps):
                    continue
                if any(b[0] != "T" and not base_atoms(b).isdisjoint((v1, v2)) for b, _ in t.fac):
                    continue
                if any((v1 in x.all_atoms()) != (v2 in x.all_atoms()) for x in ps):
                    continue
                rest = tuple(x for x in t.bv if x not in (v1, v2))
                return _close(subst_term(Term(t.c, (), t.cd, t.fac), s), rest + (w,))
    return None


def _pairs(t, ctx):
    cds = list(t.cd)
    for i, c in enumerate(cds):
        for d in cds[i + 1 :]:
            if c[0] == "ge" and d[0] == "ge":
                s = c[1] + d[1]
                if s is ZERO:
                    # p >= 0 and -p >= 0
                    return Term(t.c, t.bv, frozenset((t.cd - {c, d}) | {norm_cond(("eq", c[1]))}), t.fac)
                if ctx.decide(("ge", s)) is False:
                    return None
                df = c[1] - d[1]
                if df.is_const() or quick_nonneg(df) or quick_nonneg(-df):
                    # One implies the other.
                    if quick_nonneg(df):  # c >= d: d implies c
                        return Term(t.c, t.bv, t.cd - {c}, t.fac)
                    if quick_nonneg(-df):
                        return Term(t.c, t.bv, t.cd - {d}, t.fac)
            elif c[0] != d[0]:
                e, g = (c, d) if c[0] == "eq" else (d, c)
                for s in (1, -1):
                    df = g[1] - e[1].scale(s)  # under e: equals g
                    if df.is_const():
                        if df.const_value() >= 0:
                            return Term(t.c, t.bv, t.cd - {g}, t.fac)
                        return None
                    if quick_nonneg(df):
                        return Term(t.c, t.bv, t.cd - {g}, t.fac)
                    if quick_nonneg((-df).shift(-1)):
                        return None
            else:
                for s in (1, -1):
                    df = c[1] - d[1].scale(s)
                    if df.is_const():
                        if df.const_value() != 0:
                            return None
                if c[0] == "eq":
                    r = _same_quotient(c[1], d[1]) or _same_quotient(d[1], c[1])
                    if r is not None:
                        cond = norm_cond(("eq", r[0] - r[1]))
                        return Term(t.c, t.bv, frozenset((t.cd - {c, d}) | {cond}), t.fac)
    return t


def _difference(p):
    """`p` as the difference of two composite atoms of the same kind and modulus."""
    if len(p.t) != 2 or any(len(m) != 1 for m, _ in p.t) or p.t[0][1] + p.t[1][1] != 0 or abs(p.t[0][1]) != 1:
        return None
    a, b = ATOMS[p.t[0][0][0]], ATOMS[p.t[1][0][0]]
    if a[0] != b[0] or a[0] not in ("div", "mod") or a[2] is not b[2]:
        return None
    return a[0], a[1], b[1], a[2]


def _same_quotient(p, q):
    """Equal quotients and equal remainders: equal numbers."""
    x, y = _difference(p), _difference(q)
    if x is None or y is None or x[0] != "div" or y[0] != "mod" or x[3] is not y[3]:
        return None
    if {x[1], x[2]} != {y[1], y[2]}:
        return None
    return x[1], x[2]


def orient(p):
    """p == 0 as atom = expr, for a preferred isolated atom."""
    best = None
    for a in p.atoms():
        k = ATOMS[a]
        if k[0] == "dim":
            continue
        if k[0] in ("div", "mod", "min"):
            continue
        c = p.linear_in(a)
        if c in (1, -1):
            if best is None or a > best[0]:
                best = (a, c)
    if best is None:
        return None, None
    a, c = best
    return a, (Poly.atom(a).scale(c) - p).scale(c)


# ---------------------------------------------------------------- canonical form


def base_level(b):
    return b[2].level + 1 if b[0] == "F" else 0


def _fac_sig(b, e, s):
    """Signature of a factor under a substitution of atoms."""
    if b[0] == "T":
        idx = tuple(p.subst(s) for p in b[2])
        info = TENSORS.get(b[1])
        if info and info.get("sym") and len(idx) >= 2 and idx[-1] < idx[-2]:
            idx = idx[:-2] + (idx[-1], idx[-2])
        return ("T", b[1], tuple(p.t for p in idx), str(e))
    if b[0] == "I":
        return ("I", "", (Poly.atom(b[1]).subst(s).t,), str(e))
    k = b[2].subst(s)
    return ("F", repr(b[1]), (repr(k.key),), str(e))


_CANON = {}


def canon_term(t, ctx):
    """Canonical key, coefficient, and level of a simplified term."""
    level = 0
    for b, _ in t.fac:
        level = max(level, base_level(b))
    if not t.bv:
        fac = tuple(sorted(t.fac, key=lambda x: _fac_sig(x[0], x[1], {})))
        cd = tuple(sorted(t.cd, key=lambda c: (c[0], c[1].t)))
        return ((), cd, fac), t.c, level
    bv = list(t.bv)
    # Colour refinement.
    colour = {}
    his = sorted({atom_upper(v) for v in bv}, key=lambda p: p.t)
    for v in bv:
        colour[v] = his.index(atom_upper(v))
    for _ in range(len(bv)):
        sigs = {}
        for v in bv:
            s = {
                w: Poly.atom(intern_atom(("col", colour[w] * 2 + (1 if w == v else 0))))
                for w in bv
            }
            occ = sorted(
                _fac_sig(b, e, s) for b, e in t.fac if v in base_atoms(b)
            )
            oc = sorted((k, p.subst(s).t) for k, p in t.cd if v in p.all_atoms())
            oc2 = [(k, norm_cond((k, Poly(x)))[1].t) for k, x in oc]
            sigs[v] = (colour[v], repr(occ), repr(sorted(oc2)))
        order = sorted(set(sigs.values()))
        new = {v: order.index(sigs[v]) for v in bv}
        n_old = len(set(colour.values()))
        colour = new
        if len(set(colour.values())) == n_old or len(set(colour.values())) == len(bv):
            break
    groups = {}
    for v in bv:
        groups.setdefault(colour[v], []).append(v)
    gl = [groups[k] for k in sorted(groups)]
    nperm = 1
    for g in gl:
        nperm *= math.factorial(len(g))
    if nperm > 5040:
        raise Unsupported("canonical labelling: too many symmetric bound variables")
    best = None
    for perm in itertools.product(*[itertools.permutations(g) for g in gl]):
        seq = [v for g in perm for v in g]
        s = {}
        names = []
        for k, v in enumerate(seq):
            cv = intern_atom(("cv", atom_upper(v), k, level))
            names.append(cv)
            s[v] = Poly.atom(cv)
        sig = (
            sorted(_fac_sig(b, e, s) for b, e in t.fac),
            sorted((k, norm_cond((k, p.subst(s)))[1].t) for k, p in t.cd),
        )
        if best is None or sig < best[0]:
            best = (sig, s, tuple(names))
    _, s, names = best
    r = subst_term(Term(t.c, (), t.cd, t.fac), s)
    if len(r) != 1:
        raise Unsupported("canonicalisation changed the shape of a term")
    r = r[0]
    fac = tuple(sorted(r.fac, key=lambda x: _fac_sig(x[0], x[1], {})))
    cd = tuple(sorted((norm_cond(c) for c in r.cd), key=lambda c: (c[0], c[1].t)))
    return (names, cd, fac), r.c, level


# ---------------------------------------------------------------- case analysis


def assume(nf, c, val, ctx=None):
    """Simplify under the assumption that condition `c` is `val`."""
    ctx = ctx or BASE
    if val:
        sub = ctx.extend(c)
        out = []
        for t in nf.terms:
            if c in t.cd:
                t = Term(t.c, t.bv, t.cd - {c}, t.fac)
            out.append(t)
        r = NF(out)
        if c[0] == "eq":
            v, expr = orient(c[1])
            if v is not None:
                r = r.subst({v: expr})
        return simplify(r, sub)
    n = ("ne", c[1]) if c[0] == "eq" else negate(c)
    sub = ctx.extend(n)
    out = [t for t in nf.terms if c not in t.cd]
    return simplify(NF(out), sub)


def free_conds(nf):
    s = set()
    for t in nf.terms:
        bv = set(t.bv)
        for c in t.cd:
            if c[1].all_atoms().isdisjoint(bv):
                s.add(c)
    return s


def prove_zero(nf, ctx=None, rewriter=None, depth=0, leaves=None):
    """Returns `None` if `nf` is identically zero under the context, or a pair
    `(residual, ctx)` for the first case that could not be closed."""
    ctx = ctx or BASE
    nf = simplify(nf, ctx)
    if not depth and any(ATOMS[a][0] == "var" and ATOMS[a][1].startswith("fam") for a in nf.free_atoms()):
        raise Unsupported("a generic element outside of its list")
    if rewriter is not None and nf.terms:
        nf = rewriter(nf, ctx)
    if not nf.terms:
        return None
    cs = free_conds(nf)
    if cs and depth < 14:
        c = min(cs, key=lambda x: (x[0], len(x[1].t), repr(x[1])))
        # Assume true.
        sub = ctx.extend(c)
        if ctx.decide(c) is not False:
            r = prove_zero(assume(nf, c, True, ctx), sub, rewriter, depth + 1)
            if r is not None:
                return r
        n = ("ne", c[1]) if c[0] == "eq" else negate(c)
        sub = ctx.extend(n)
        if ctx.decide(c) is not True:
            r = prove_zero(assume(nf, c, False, ctx), sub, rewriter, depth + 1)
            if r is not None:
                return r
        return None
    if ctx.premises and not ctx.consistent():
        return None
    if depth < 30:
        # Use equalities between quotients and remainders.
        for k, p in ctx.premises:
            if k != "eq":
                continue
            for a in sorted(p.atoms()):
                c = p.linear_in(a)
                if ATOMS[a][0] in ("div", "mod") and c in (1, -1):
                    expr = (Poly.atom(a).scale(c) - p).scale(c)
                    if a in expr.all_atoms():
                        continue
                    new = nf.subst({a: expr})
                    if new != nf:
                        r = prove_zero(new, ctx, rewriter, depth + 8)
                        if r is None:
                            return None
    return nf, ctx
