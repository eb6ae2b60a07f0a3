"""Integer index terms: interned atoms and polynomials over them.

An atom is a small int (an id in ATOMS).  Kinds of atoms:
  ('dim', name, lb)        a dimension, an integer >= lb
  ('var', name, hi)        an index variable with range [0, hi), hi a Poly
  ('cv', hi, k, level)     canonical bound variable number k with range [0, hi)
  ('col', k)               a colour used in canonical labelling
  ('div', p, q) ('mod', p, q)   floor division / remainder by a positive q
  ('app', name, args, hi)  uninterpreted integer function with values in [0, hi)
  ('min', p, q)            minimum
"""

from functools import lru_cache

ATOMS = []  # id -> key
ATOM_IDS = {}  # key -> id


def intern_atom(key):
    i = ATOM_IDS.get(key)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(key)
        ATOM_IDS[key] = i
    return i


_POLYS = {}
MODS = set()  # quotients and remainders


class Poly:
    """Polynomial with integer coefficients; immutable and interned."""

    __slots__ = ("t", "_h", "_vars", "_comp", "_allvars")

    def __new__(cls, t):
        # t: tuple of (mono, coef), sorted by mono; mono: sorted tuple of atom ids
        p = _POLYS.get(t)
        if p is None:
            p = object.__new__(cls)
            p.t = t
            p._h = hash(t)
            p._vars = None
            p._comp = None
            p._allvars = None
            _POLYS[t] = p
        return p

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __lt__(self, other):
        return self.t < other.t

    # ---- construction
    @staticmethod
    def const(c):
        return Poly((((), c),)) if c else ZERO

    @staticmethod
    def atom(a):
        return Poly((((a,), 1),))

    @staticmethod
    def from_dict(d):
        return Poly(tuple(sorted((m, c) for m, c in d.items() if c)))

    # ---- queries
    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and t[0][0] == ())

    def const_value(self):
        return self.t[0][1] if self.t else 0

    def atoms(self):
        if self._vars is None:
            self._vars = frozenset(a for m, _ in self.t for a in m)
        return self._vars

    def all_atoms(self):
        """Atoms, including the ones inside composite atoms."""
        if self._allvars is None:
            s = set()
            for a in self.atoms():
                s.add(a)
                s |= atom_inner(a)
            self._allvars = frozenset(s)
        return self._allvars

    def coef(self, mono):
        for m, c in self.t:
            if m == mono:
                return c
        return 0

    def linear_in(self, a):
        """Coefficient of `a` if `a` occurs only linearly and alone with a constant
        coefficient (and not inside composites); otherwise `None`."""
        c = None
        for m, k in self.t:
            if a in m:
                if len(m) != 1:
                    return None
                c = k
        if c is None:
            return None
        for b in self.atoms():
            if b != a and a in atom_inner(b):
                return None
        return c

    # ---- arithmetic
    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t:
            d[m] = d.get(m, 0) + c
        p = Poly.from_dict(d)
        if MODS and not MODS.isdisjoint(p.atoms()):
            return recombine(p)
        return p

    def __neg__(self):
        return Poly(tuple((m, -c) for m, c in self.t))

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if self is ONE:
            return o
        if o is ONE:
            return self
        d = {}
        for m, c in self.t:
            for n, e in o.t:
                k = tuple(sorted(m + n)) if (m and n) else (m or n)
                d[k] = d.get(k, 0) + c * e
        return Poly.from_dict(d)

    def scale(self, c):
        if c == 0:
            return ZERO
        return Poly(tuple((m, k * c) for m, k in self.t))

    def shift(self, c):
        return self + Poly.const(c)

    # ---- substitution
    def subst(self, s):
        """Substitute atoms by polys; `s`: dict atom -> Poly (simultaneous)."""
        if not s:
            return self
        if self.all_atoms().isdisjoint(s):
            return self
        out = ZERO
        for m, c in self.t:
            p = Poly.const(c)
            for a in m:
                r = s.get(a)
                if r is None:
                    r = subst_atom(a, s)
                p = p * r
            out = out + p
        return out

    def __repr__(self):
        if not self.t:
            return "0"
        parts = []
        for m, c in self.t:
            ms = "*".join(atom_str(a) for a in m)
            if not m:
                parts.append(str(c))
            elif c == 1:
                parts.append(ms)
            elif c == -1:
                parts.append("-" + ms)
            else:
                parts.append(f"{c}*{ms}")
        return "+".join(parts).replace("+-", "-")


ZERO = Poly(())
ONE = Poly((((), 1),))


@lru_cache(maxsize=100000)
def recombine(p):
    """q * (x div q) + (x mod q) = x."""
    for m, c in p.t:
        for k, a in enumerate(m):
            if a not in MODS or ATOMS[a][0] != "mod":
                continue
            _, x, q = ATOMS[a]
            rest = Poly(((m[:k] + m[k + 1 :], c),))
            d = dict(p.t)
            for n, e in (rest * (q * mk_div(x, q))).t:
                if d.get(n, 0) != e or n == m:
                    break
                del d[n]
            else:
                del d[m]
                return Poly.from_dict(d) + rest * x
    # x - q * (x div q) = x mod q.
    for m, c in p.t:
        for k, a in enumerate(m):
            if a not in MODS or ATOMS[a][0] != "div":
                continue
            _, x, q = ATOMS[a]
            if len(q.t) != 1 or c % q.t[0][1]:
                continue
            r = _mono_div(m[:k] + m[k + 1 :], q.t[0][0])
            if r is None:
                continue
            rest = Poly(((r, -(c // q.t[0][1])),))
            d = dict(p.t)
            del d[m]
            for n, e in (rest * x).t:
                if d.get(n, 0) != e:
                    break
                del d[n]
            else:
                return Poly.from_dict(d) + rest * mk_mod(x, q)
    return p


def P(x):
    return x if isinstance(x, Poly) else Poly.const(x)


def atom_str(a):
    k = ATOMS[a]
    kind = k[0]
    if kind == "dim":
        return k[1]
    if kind == "var":
        return k[1]
    if kind == "cv":
        return f"_{k[2]}.{k[3]}"
    if kind == "col":
        return f"?{k[1]}"
    if kind == "div":
        return f"({k[1]!r} div {k[2]!r})"
    if kind == "mod":
        return f"({k[1]!r} mod {k[2]!r})"
    if kind == "min":
        return f"min({k[1]!r},{k[2]!r})"
    if kind == "app":
        return f"{k[1]}({','.join(map(repr, k[2]))})"
    return str(k)


@lru_cache(maxsize=None)
def atom_inner(a):
    """Atoms occurring strictly inside atom `a`."""
    k = ATOMS[a]
    if k[0] in ("div", "mod", "min"):
        return k[1].all_atoms() | k[2].all_atoms()
    if k[0] == "app":
        s = frozenset()
        for x in k[2]:
            s |= x.all_atoms()
        return s
    if k[0] in ("var", "cv"):
        return frozenset()
    return frozenset()


def subst_atom(a, s):
    k = ATOMS[a]
    if k[0] == "div":
        return mk_div(k[1].subst(s), k[2].subst(s))
    if k[0] == "mod":
        return mk_mod(k[1].subst(s), k[2].subst(s))
    if k[0] == "min":
        return mk_min(k[1].subst(s), k[2].subst(s))
    if k[0] == "app":
        return Poly.atom(
            intern_atom(("app", k[1], tuple(x.subst(s) for x in k[2]), k[3].subst(s)))
        )
    return Poly.atom(a)


# ------------------------------------------------------------------ bounds

def dim_atom(name, lb=1):
    return intern_atom(("dim", name, lb))


_fresh = [0]


def fresh_var(hi, prefix="k"):
    _fresh[0] += 1
    return intern_atom(("var", f"{prefix}{_fresh[0]}", hi))


def named_var(name, hi):
    return intern_atom(("var", name, hi))


def atom_upper(a):
    """Exclusive upper bound of an atom, as a Poly, or `None`."""
    k = ATOMS[a]
    if k[0] == "var":
        return k[2]
    if k[0] == "cv":
        return k[1]
    if k[0] == "mod":
        return k[2]
    if k[0] == "app":
        return k[3]
    if k[0] == "div":
        return _div_upper(a)
    if k[0] == "min":
        return None
    return None


@lru_cache(maxsize=None)
def _div_upper(a):
    _, p, q = ATOMS[a]
    s = {}
    for m, c in p.t:
        if c < 0:
            continue
        for x in m:
            u = atom_upper(x)
            if u is not None:
                s[x] = u.shift(-1)
    p = p.subst(s)
    for m, c in p.t:
        if c < 0 and any(atom_upper(x) is not None for x in m):
            return None
    A, R = divide_out(p.shift(1), q)
    if R is ZERO:
        return A
    if quick_nonneg(q - R):
        return A + ONE if not quick_nonneg(-R) else A
    return None


def atom_lower(a):
    k = ATOMS[a]
    if k[0] == "dim":
        return k[2]
    return 0


@lru_cache(maxsize=200000)
def quick_nonneg(p):
    """Sufficient test for p >= 0 from the bounds of the atoms alone."""
    for _ in range(4):
        # All atoms are nonnegative.  Replace atoms with an upper bound in negative
        # monomials by their bound.
        if all(c >= 0 for _, c in p.t):
            return True
        # Shift dims by their lower bounds.
        q = ZERO
        for m, c in p.t:
            t = Poly.const(c)
            for a in m:
                x = Poly.atom(a)
                lo = _lower(a)
                if lo:
                    x = x.shift(lo)  # a = lo + a', a' >= 0, written as a
                t = t * x
            q = q + t
        if all(c >= 0 for _, c in q.t):
            return True
        # Upper bounds.
        out = ZERO
        changed = False
        for m, c in p.t:
            if c < 0:
                done = False
                for i, a in enumerate(m):
                    u = atom_upper(a)
                    if u is not None and not (a in m[:i] or a in m[i + 1 :]):
                        rest = m[:i] + m[i + 1 :]
                        r = Poly(((tuple(rest), c),)) * (u.shift(-1))
                        out = out + r
                        done = changed = True
                        break
                if not done:
                    out = out + Poly(((m, c),))
            else:
                out = out + Poly(((m, c),))
        if not changed:
            return False
        p = out
    return False


def _lower(a):
    return atom_lower(a)


def divide_out(p, q):
    """Split p = q * A + R collecting into A the monomials divisible by the monomial
    q (q must be a single monomial); returns (A, R)."""
    if len(q.t) != 1:
        # Try exact division p = q * A by leading monomials.
        A = ZERO
        R = p
        lead_m, lead_c = q.t[-1]
        for _ in range(8):
            hit = None
            for m, c in reversed(R.t):
                rest = _mono_div(m, lead_m)
                if rest is not None and c % lead_c == 0:
                    hit = (rest, c // lead_c)
                    break
            if hit is None:
                break
            t = Poly((hit,))
            A2, R2 = A + t, R - t * q
            if len(R2.t) >= len(R.t) + 1:
                break
            A, R = A2, R2
        if R is ZERO:
            return A, ZERO
        # Accept the partial split only when R is small: the caller checks.
        return A, R
    qm, qc = q.t[0]
    A, R = {}, {}
    for m, c in p.t:
        rest = _mono_div(m, qm)
        if rest is not None and qc != 0 and c // qc != 0 and (c % qc == 0 or not qm):
            if c % qc == 0:
                A[rest] = c // qc
            else:
                A[rest] = c // qc
                R[m] = c % qc
        else:
            R[m] = c
    return Poly.from_dict(A), Poly.from_dict(R)


def _mono_div(m, n):
    if not n:
        return m
    m = list(m)
    for a in n:
        if a in m:
            m.remove(a)
        else:
            return None
    return tuple(m)


def mk_div(p, q):
    """floor(p / q) for q > 0."""
    if q is ONE:
        return p
    if p is ZERO:
        return ZERO
    if p.is_const() and q.is_const():
        return Poly.const(p.const_value() // q.const_value())
    A, R = divide_out(p, q)
    if R is ZERO:
        return A
    if quick_nonneg(R) and quick_nonneg(q - R - ONE):
        return A
    if A is not ZERO and len(R.t) < len(p.t):
        return A + mk_div(R, q)
    # div(div(x, a), b) = div(x, a * b)
    if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1:
        k = ATOMS[p.t[0][0][0]]
        if k[0] == "div":
            return mk_div(k[1], k[2] * q)
        if k[0] == "mod":
            # div(mod(x, a * q), q) with a * q = k[2] = mod(div(x, q), a)
            a, r = divide_out(k[2], q)
            if r is ZERO:
                return mk_mod(mk_div(k[1], q), a)
    # div(g * A + R, g * h) = div(A, h) if 0 <= R < g.
    for gp in _subdivisors(q):
        A, R = divide_out(p, gp)
        if A is not ZERO and R is not ZERO and quick_nonneg(R) and quick_nonneg(gp - R - ONE):
            h, r = divide_out(q, gp)
            if r is ZERO:
                return mk_div(A, h)
    # Common factor cancellation: div(c * x, c * y) = div(x, y)
    g = _common_monomial(p, q)
    if g:
        return mk_div(_mono_cancel(p, g), _mono_cancel(q, g))
    a = intern_atom(("div", p, q))
    MODS.add(a)
    return Poly.atom(a)


def _subdivisors(q):
    """Proper nontrivial divisors of a monomial, largest first."""
    if len(q.t) != 1:
        return ()
    return _subdivisors_cached(q)


@lru_cache(maxsize=None)
def _subdivisors_cached(q):
    m, c = q.t[0]
    out = set()
    n = len(m)
    cs = [d for d in range(1, abs(c) + 1) if c % d == 0] if 0 < c <= 64 else [1]
    for mask in range(1 << n):
        sub = tuple(m[k] for k in range(n) if mask >> k & 1)
        for d in cs:
            g = Poly(((sub, d),))
            if g is not q and g is not ONE:
                out.add(g)
    return tuple(sorted(out, key=lambda p: (-len(p.t[0][0]), p.t)))


def _common_monomial(p, q):
    monos = [m for m, _ in p.t] + [m for m, _ in q.t]
    g = list(monos[0])
    for m in monos[1:]:
        n = []
        mm = list(m)
        for a in g:
            if a in mm:
                mm.remove(a)
                n.append(a)
        g = n
        if not g:
            break
    # Only cancel dims (positive).
    g = [a for a in g if ATOMS[a][0] == "dim"]
    return tuple(g)


def _mono_cancel(p, g):
    return Poly.from_dict({_mono_div(m, g): c for m, c in p.t})


def mk_mod(p, q):
    """p mod q for q > 0."""
    if q is ONE or p is ZERO:
        return ZERO
    if p.is_const() and q.is_const():
        return Poly.const(p.const_value() % q.const_value())
    A, R = divide_out(p, q)
    if R is ZERO:
        return ZERO
    if quick_nonneg(R) and quick_nonneg(q - R - ONE):
        return R
    if A is not ZERO and len(R.t) < len(p.t):
        return mk_mod(R, q)
    if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1:
        k = ATOMS[p.t[0][0][0]]
        if k[0] == "mod":
            a, r = divide_out(k[2], q)
            if r is ZERO:
                return mk_mod(k[1], q)
    for gp in _subdivisors(q):
        A, R = divide_out(p, gp)
        if A is not ZERO and R is not ZERO and quick_nonneg(R) and quick_nonneg(gp - R - ONE):
            h, r = divide_out(q, gp)
            if r is ZERO:
                return gp * mk_mod(A, h) + R
    g = _common_monomial(p, q)
    if g:
        gp = Poly(((g, 1),))
        return gp * mk_mod(_mono_cancel(p, g), _mono_cancel(q, g))
    a = intern_atom(("mod", p, q))
    MODS.add(a)
    return Poly.atom(a)


def mk_min(p, q):
    if p is q:
        return p
    if quick_nonneg(q - p):
        return p
    if quick_nonneg(p - q):
        return q
    if q < p:
        p, q = q, p
    return Poly.atom(intern_atom(("min", p, q)))
