"""Contracts as cases: build the arguments, call the real code, check the postcondition.

A `Case` is one contract instance: an arrangement of argument types and shape patterns
(the precondition), one call of the code under proof, and clauses about the result (the
postcondition).  The same case is executed symbolically (all dimensions, all values) and
concretely (replays)."""

from . import den as D
from .hooks import B, npx
from .inst import Ax, Inst, ONE_AX, axes, axis, make, num, scalar
from .run import Obligation, Skip

CASES = {}


class Args:
    """What `build` returns: instances in order, plus anything else as attributes."""

    def __init__(self, *insts, **kw):
        self.insts = list(insts)
        self.objs = [i.obj for i in insts]
        self.dens = [i.den for i in insts]
        self.__dict__.update(kw)


class Case:
    def __init__(
        self, prop, name, build, call, post, functions=(), bounded=None, thorough=False,
        trials=None, budget=None, opname=None, num_only=False, modular=False,
    ):
        self.prop, self.name = prop, name
        self.build, self.call, self.post = build, call, post
        self.functions, self.bounded, self.thorough = tuple(functions), bounded, thorough
        self.trials, self.budget = trials, budget
        self.opname = opname or (functions[0] if functions else name)
        self.num_only = num_only
        if modular:
            from .modular import call as by_contract

            self.call = by_contract(call)

    def obligation(self):
        case = self

        def fn(w, ck):
            c = case.build(w)
            r = case.call(c)
            case.post(w, ck, c, r)

        ob = Obligation(f"{self.prop}:{self.name}", fn, self.functions, self.bounded, self.trials)
        ob.thorough = self.thorough
        ob.budget = self.budget
        ob.num_only = self.num_only
        return ob


def matrix_post(spec, **kw):
    """Postcondition: the result denotes `spec(*dens)`."""

    def post(w, ck, c, r):
        ck.matrix(r, spec(c), **kw)

    return post


def bt(w, pat):
    """A batch pattern: a string over letters (symbolic dimensions of at least two) and
    '1'; '' is no batch."""
    return tuple(1 if c == "1" else w.dim("B" + c) for c in pat)


def pairs_of_batches(level=0):
    base = [("", ""), ("b", "b"), ("b", ""), ("", "b")]
    if level >= 1:
        base += [("b", "1"), ("1", "b")]
    if level >= 2:
        base += [("cb", "b"), ("1b", "c1"), ("b", "cb"), ("cb", "")]
    return base


SQUARE_ONLY = ("diag", "lt", "ut", "wb")


def head(spec):
    return spec.split(":")[0]


def arg(w, spec, name, pat, batch, ax, flag=None, dtype=None):
    if head(spec) == "scalar":
        return scalar(w, name, "pos" if flag else None)
    return make(w, spec, name, ax[pat[0]], ax[pat[1]], bt(w, batch), flag, dtype)
