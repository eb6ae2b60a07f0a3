"""Logical context: premises about dimensions and indices, and the solver."""

import random
import time

import z3

from .poly import ATOMS, ONE, Poly, ZERO, atom_inner, atom_lower, atom_upper, quick_nonneg

STATS = {"z3_queries": 0, "z3_time": 0.0, "z3_unknown": 0, "quick": 0, "witness": 0}


class Ctx:
    """A conjunction of premises.  A condition is ('eq', p): p == 0, ('ge', p): p >= 0,
    or ('ne', p)."""

    def __init__(self, parent=None, premises=()):
        self.premises = (parent.premises if parent else ()) + tuple(premises)
        self.values = parent.values if parent else {}
        self.parent = parent
        self._samples = None
        self._cache = {}

    def extend(self, *conds):
        return Ctx(self, conds)

    # ---------------------------------------------------------- deciding
    def decide(self, cond):
        """True / False / None (undetermined)."""
        kind, p = cond
        if kind == "ne":
            r = self.decide(("eq", p))
            return None if r is None else not r
        if p.is_const():
            c = p.const_value()
            return (c == 0) if kind == "eq" else (c >= 0)
        r = self._cache.get(cond, 0)
        if r != 0:
            return r
        r = self._decide(kind, p)
        self._cache[cond] = r
        return r

    def _decide(self, kind, p):
        STATS["quick"] += 1
        if kind == "eq":
            if quick_nonneg(p.shift(-1)) or quick_nonneg((-p).shift(-1)):
                return False
        else:
            if quick_nonneg(p):
                return True
            if quick_nonneg((-p).shift(-1)):
                return False
        # Without premises and composite atoms, the bounds are mostly decisive for `eq`.
        if not self.premises and not _needs_solver(p, kind):
            return None
        if self._witnessed(kind, p):
            STATS["witness"] += 1
            return None
        return self._solver(kind, p)

    # ---------------------------------------------------------- witnesses
    def samples(self):
        """Assignments that satisfy the premises, found by random search.  They only ever
        show that a condition is undetermined; they are never used to prove anything."""
        if self._samples is None:
            r = random.Random(len(self.premises))
            out = []
            if self.parent is not None and self.parent._samples is not None:
                new = self.premises[len(self.parent.premises) :]
                for s in self.parent._samples:
                    s = dict(s)
                    if all(_holds(c, s, r) for c in new):
                        out.append(s)
            tries = 0
            while len(out) < 12 and tries < 40:
                tries += 1
                s = {}
                if all(_holds(c, s, r, True) for c in self.premises) and all(
                    _holds(c, s, r) for c in self.premises
                ):
                    out.append(s)
            self._samples = out
        return self._samples

    def _witnessed(self, kind, p):
        seen = set()
        r = random.Random(7)
        for k in range(2):
            for s in self.samples():
                s = dict(s)
                try:
                    v = _eval(p, s, r)
                except ValueError:
                    continue
                seen.add(v == 0 if kind == "eq" else v >= 0)
                if len(seen) == 2:
                    return True
                if kind == "eq" and v != 0:
                    # Try to make it zero.
                    s2 = {}
                    try:
                        if (
                            all(_holds(c, s2, r, True) for c in self.premises + (("eq", p),))
                            and all(_holds(c, s2, r) for c in self.premises + (("eq", p),))
                        ):
                            seen.add(True)
                            if len(seen) == 2:
                                return True
                    except ValueError:
                        pass
        return False

    def _solver(self, kind, p):
        t0 = time.time()
        STATS["z3_queries"] += 1
        try:
            enc = Encoder()
            e = enc.poly(p)
            pos = (e == 0) if kind == "eq" else (e >= 0)
            prem = [enc.cond(c) for c in self.premises]
            side = enc.side_constraints()
            s = z3.SolverFor("QF_NIA") if enc.nonlinear else z3.Solver()
            s.set("timeout", 4000)
            s.set("rlimit", 2000000)
            s.add(*prem, *side)
            s.push()
            s.add(z3.Not(pos))
            r1 = s.check()
            s.pop()
            if r1 == z3.unsat:
                return True
            s.push()
            s.add(pos)
            r2 = s.check()
            s.pop()
            if r2 == z3.unsat:
                return False
            if z3.unknown in (r1, r2):
                STATS["z3_unknown"] += 1
            return None
        finally:
            STATS["z3_time"] += time.time() - t0

    def prove(self, cond):
        return self.decide(cond) is True

    def consistent(self):
        enc = Encoder()
        prem = [enc.cond(c) for c in self.premises]
        s = z3.Solver()
        s.set("timeout", 4000)
        s.set("rlimit", 2000000)
        s.add(*prem, *enc.side_constraints())
        return s.check() != z3.unsat


def _value(a, s, r):
    v = s.get(a)
    if v is not None:
        return v
    k = ATOMS[a]
    if k[0] in ("div", "mod"):
        n, d = _eval(k[1], s, r), _eval(k[2], s, r)
        if d <= 0:
            raise ValueError
        v = n // d if k[0] == "div" else n % d
    elif k[0] == "min":
        v = min(_eval(k[1], s, r), _eval(k[2], s, r))
    else:
        lo = atom_lower(a)
        u = atom_upper(a)
        if u is None:
            v = lo + r.choice((0, 0, 1, 1, 2, 3, 5))
        else:
            u = _eval(u, s, r)
            if u <= lo:
                raise ValueError
            v = r.choice((lo, u - 1, r.randrange(lo, u)))
    s[a] = v
    return v


def _eval(p, s, r):
    out = 0
    for m, c in p.t:
        for a in m:
            c *= _value(a, s, r)
        out += c
    return out


def _true(c, v):
    return v == 0 if c[0] == "eq" else (v >= 0 if c[0] == "ge" else v != 0)


def _holds(c, s, r, solve=False):
    """Does condition `c` hold in the sample (extended at random)?  With `solve`, choose
    the value of one new atom so that it does."""
    kind, p = c
    try:
        if solve and kind in ("eq", "ge"):
            free = [a for a in p.atoms() if a not in s and ATOMS[a][0] not in ("div", "mod", "min") and p.linear_in(a) in (1, -1)]
            if free:
                # Index variables first: their bounds must hold.
                free.sort(key=lambda a: (atom_upper(a) is not None, r.random()))
                a = free[-1]
                k = p.linear_in(a)
                rest = _eval(p - Poly.atom(a).scale(k), s, r)
                if a not in s:
                    v = -k * rest
                    if kind == "ge":
                        v += k * r.choice((0, 0, 1, 2))
                    lo = atom_lower(a)
                    if kind == "ge" and k > 0:
                        v = max(v, lo)
                    u = atom_upper(a)
                    if kind == "ge" and k < 0 and u is not None:
                        v = min(v, _eval(u, s, r) - 1)
                    if v < lo or (u is not None and v >= _eval(u, s, r)):
                        return False
                    s[a] = v
        return _true(c, _eval(p, s, r))
    except ValueError:
        return False


def _needs_solver(p, kind):
    for a in p.atoms():
        if ATOMS[a][0] in ("div", "mod", "min", "app"):
            return True
    if any(len(m) > 1 for m, _ in p.t):
        return True
    # Two or more index variables with opposite signs and shared bounds.
    return len(p.t) > 2


class Encoder:
    def __init__(self):
        self.vars = {}
        self.done = {}
        self.side = []
        self.nonlinear = False

    def poly(self, p):
        out = z3.IntVal(0)
        for m, c in p.t:
            t = z3.IntVal(c)
            for a in m:
                t = t * self.atom(a)
            if len(m) > 1:
                self.nonlinear = True
            out = out + t
        return out

    def atom(self, a):
        if a in self.vars:
            return self.vars[a]
        k = ATOMS[a]
        v = z3.Int(f"a{a}")
        self.vars[a] = v
        if k[0] == "div":
            n, d = self.poly(k[1]), self.poly(k[2])
            self.side += [d * v <= n, n < d * v + d]
            self.nonlinear = True
        elif k[0] == "mod":
            n, d = self.poly(k[1]), self.poly(k[2])
            q = z3.Int(f"q{a}")
            self.side += [n == d * q + v, v >= 0, v < d]
            self.nonlinear = True
        elif k[0] == "min":
            n, d = self.poly(k[1]), self.poly(k[2])
            self.side += [v <= n, v <= d, z3.Or(v == n, v == d)]
        else:
            self.side.append(v >= atom_lower(a))
            u = atom_upper(a)
            if u is not None:
                self.side.append(v < self.poly(u))
        return v

    def cond(self, c):
        e = self.poly(c[1])
        if c[0] == "eq":
            return e == 0
        if c[0] == "ge":
            return e >= 0
        if c[0] == "ne":
            return e != 0
        raise ValueError(c)

    def side_constraints(self):
        return self.side


def model_of(conds, atoms, prefer=()):
    """A model (dict atom -> int) of `conds` covering `atoms`, or `None`."""
    enc = Encoder()
    cs = [enc.cond(c) for c in conds]
    for a in atoms:
        enc.atom(a)
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(*cs, *enc.side_constraints())
    if s.check() != z3.sat:
        return None
    m = s.model()
    return {a: m.eval(v, model_completion=True).as_long() for a, v in enc.vars.items()}
