"""The body of `align` against its contract, for any numbers of columns.

The statements of the function are taken from its source on every run and cut at its loop,
mechanically: what comes before, the test and the body of the loop, and what comes after are
executed separately, each from an arbitrary state that satisfies the invariant.

    invariant  the lists of indices that remain are the last elements of permutations of
               range(p) and range(q); the four lists of results are equally long, have no
               more elements than indices were taken away; the indices that were taken away
               occur exactly once in the first (second) list, which contains no others than
               those and -1; and every joined column is the column of the first and of the
               second matrix that it stands for.
    variant    the number of indices that remain.

A list of results is known by what is appended to it; a list of remaining indices by its
first element, an arbitrary index.
"""

import ast
import builtins
import inspect
import operator
import textwrap

import numpy as np

from . import den as D
from . import nf as N
from . import symt
from .hooks import npx
from .nf import Unsupported
from .poly import Poly, ZERO, named_var


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class Index:
    """What `argsort` of the norms of all columns returns: some permutation."""

    def __init__(self, n):
        self.n = n  # Poly


class Remaining:
    def __init__(self, n, count):
        self.n, self.count = n, count  # columns in all, and how many remain
        self.taken = []
        self.head = None

    def left(self):
        return self.count.shift(-len(self.taken))

    def __bool__(self):
        return symt.decide(("ge", self.left().shift(-1)))

    def first(self):
        if not bool(self):
            raise IndexError("list index out of range")
        if self.head is None:
            self.head = symt.mk_int(Poly.atom(named_var(f"first{len(self.taken)}of{self.n!r}", self.n)))
        return self.head

    def __getitem__(self, k):
        if not isinstance(k, int) or k != 0:
            raise Unsupported("an element that is not the first")
        return self.first()

    def pop(self, k=-1):
        if k != 0:
            raise Unsupported("an element that is not the first")
        x = self.first()
        self.taken.append(x)
        self.head = None
        return x

    def _no(self, *a, **k):
        raise Unsupported("an operation on a list of indices")

    __iter__ = __len__ = __contains__ = append = extend = remove = insert = sort = reverse = __add__ = __radd__ = __eq__ = _no
    __hash__ = object.__hash__


class Length:
    def __init__(self, p):
        self.p = p

    def __mul__(self, xs):
        if isinstance(xs, builtins.list) and len(xs) == 1:
            return Repeat(xs[0], self.p)
        raise Unsupported("an operation on a length")

    __rmul__ = __mul__
    __hash__ = object.__hash__

    def _int(self):
        return symt.mk_int(self.p)

    def __bool__(self):
        return bool(self._int() != 0)

    __gt__, __ge__, __lt__, __le__, __eq__, __ne__ = (
        lambda self, o, op=op: op(self._int(), o._int() if isinstance(o, Length) else o)
        for op in (operator.gt, operator.ge, operator.lt, operator.le, operator.eq, operator.ne)
    )


class Repeat:
    def __init__(self, x, n):
        self.x, self.n = x, n


class Result:
    """A list of which is known what is appended to it: pairs of an element, and a length or
    `None`."""

    def __init__(self):
        self.new = []

    def append(self, x):
        self.new.append((x, None))

    def extend(self, xs):
        if isinstance(xs, Remaining):
            if xs.taken:
                raise Unsupported("a list from which elements were taken")
            self.new.append((xs, xs.count))
        elif isinstance(xs, Repeat):
            self.new.append((xs.x, xs.n))
        elif isinstance(xs, (builtins.list, tuple)):
            for x in xs:
                self.append(x)
        else:
            raise Unsupported("an extension")

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def _no(self, *a, **k):
        raise Unsupported("an operation on a list of results")

    __iter__ = __len__ = __contains__ = __getitem__ = pop = remove = insert = __add__ = __eq__ = __bool__ = _no
    __hash__ = object.__hash__


class _ListType(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.list, Remaining, Result))


class _List(metaclass=_ListType):
    def __new__(cls, x=()):
        if isinstance(x, Index):
            return Remaining(x.n, x.n)
        if isinstance(x, (Remaining, Result)):
            raise Unsupported("a copy of a list")
        return builtins.list(x)


def _len(x):
    if isinstance(x, Remaining):
        return Length(x.left())
    if isinstance(x, (Result, Index)):
        raise Unsupported("a length")
    return len(x)


class _Returns(ast.NodeTransformer):
    def visit_FunctionDef(self, node):
        return node

    visit_Lambda = visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def visit_Return(self, node):
        return ast.copy_location(
            ast.Raise(
                exc=ast.Call(func=ast.Name(id="__mcv_return__", ctx=ast.Load()), args=[node.value or ast.Constant(None)], keywords=[]),
                cause=None,
            ),
            node,
        )


class Parts:
    """The function cut at its loop; or an exception of type `ValueError`."""

    def __init__(self, f):
        tree = ast.parse(textwrap.dedent(inspect.getsource(f)))
        d = tree.body[0]
        if not isinstance(d, ast.FunctionDef) or f.__closure__:
            raise ValueError("no function")
        self.args = [x.arg for x in d.args.args]
        loops = [k for k, s in enumerate(d.body) if isinstance(s, (ast.While, ast.For))]
        if len(loops) != 1 or not isinstance(d.body[loops[0]], ast.While) or len(self.args) != 2:
            raise ValueError("not one loop")
        k = loops[0]
        loop = d.body[k]
        if loop.orelse or any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.While, ast.For)) for s in loop.body for x in ast.walk(s)):
            raise ValueError("another kind of loop")
        last = d.body[-1]
        if not isinstance(last, ast.Return) or not isinstance(last.value, ast.Tuple) or len(last.value.elts) != 4 or not all(isinstance(x, ast.Name) for x in last.value.elts):
            raise ValueError("another kind of result")
        self.results = [x.id for x in last.value.elts]
        self.stored = {x.id for s in loop.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        name = f.__code__.co_filename
        self.test = compile(ast.fix_missing_locations(ast.Expression(loop.test)), name, "eval")
        self.pre, self.body, self.post = (
            compile(ast.fix_missing_locations(ast.Module([_Returns().visit(s) for s in ss], [])), name, "exec")
            for ss in (d.body[:k], loop.body, d.body[k + 1 :])
        )
        self.globals = f.__globals__

    def start(self, a, b):
        """The state before the loop."""
        env = dict(self.globals)
        env.update(dict(zip(self.args, (a, b))), len=_len, list=_List, __mcv_return__=_Return)
        known = set(env) | {"__builtins__"}
        exec(self.pre, env)
        return env, {k: v for k, v in env.items() if k not in known or v is not self.globals.get(k)}

    def init(self, a, b):
        env, new = self.start(a, b)
        out = [env[r] for r in self.results]
        rem = {k: v for k, v in new.items() if isinstance(v, Remaining)}
        return env, new, out, rem

    def arbitrary(self, a, b, left):
        """An arbitrary state that satisfies the invariant."""
        env, new, out, rem = self.init(a, b)
        if len({id(x) for x in out}) < 4 or not all(type(x) is builtins.list and not x for x in out):
            raise Unsupported("the state before the loop")
        for k, v in new.items():
            if k in self.results or isinstance(v, Remaining):
                continue
            if isinstance(v, (builtins.list, dict, set, bytearray)):
                raise Unsupported(f"other state: {k}")
        for k in self.stored:
            if k in self.results or k in rem:
                raise Unsupported("an assignment to a list")
            env.pop(k, None)
        for r in self.results:
            env[r] = Result()
        for i, (k, v) in enumerate(rem.items()):
            env[k] = Remaining(v.n, symt.as_poly(left[i]).shift(-1))
        return env, [env[r] for r in self.results], [env[k] for k in rem]


def column(x, i):
    if isinstance(i, (int, np.integer)) and i == -1:
        return npx.zeros(D.shp(x)[:-1])
    return x[..., i]


def check_joined(ck, a, b, ea, eb, ja, jb):
    joined = npx.add(column(a, ja), column(b, jb))
    for x, i, what in ((a, ea, "first"), (b, eb, "second")):
        if not (isinstance(i, int) and i == -1):
            ck.equal(joined, npx.add(column(x, i), npx.multiply(joined, 0)), f"joined columns of the {what}")


def same(x, y):
    p, q = symt.as_poly(x), symt.as_poly(y)
    return p is not None and q is not None and p is q


def zero(p):
    return N.BASE.decide(N.norm_cond(("ge", ZERO - p))) is True


def stages(f):
    """The obligations: name, `run(c)`, and `post(w, ck, c, r)`."""
    parts = Parts(f)

    def cols(c):
        return [symt.as_tensor(x)._shape[-1] for x in c.dens]

    def init(c):
        return parts.init(*c.objs)[2:]

    def init_post(w, ck, c, r):
        out, rem = r
        ck.true(len({id(x) for x in out}) == 4 and all(type(x) is builtins.list and not x for x in out), "init/lists of results")
        p, q = cols(c)
        rem = builtins.list(rem.values())
        ok = len(rem) == 2 and sum(x.n is p for x in rem) == 1 == sum(x.n is q for x in rem) and all(x.count is x.n and not x.taken for x in rem)
        ck.true(ok, "init/lists of indices")

    def step(c):
        env, out, rem = parts.arbitrary(*c.objs, c.left)
        if not eval(parts.test, env):
            return None
        exec(parts.body, env)
        if [env[r] for r in parts.results] != out or any(not any(v is x for v in env.values()) for x in rem):
            raise Unsupported("an assignment to a list")
        return out, rem

    def step_post(w, ck, c, r):
        if r is None:
            return
        out, rem = r
        p, q = cols(c)
        a, b = c.dens
        taken = [next(x for x in rem if x.n is m).taken for m in (p, q)]
        total = len(taken[0]) + len(taken[1])
        ck.true(total >= 1, "step/variant")
        new = [[x for x, n in o.new] for o in out]
        ck.true(all(n is None for o in out for _, n in o.new) and len({len(x) for x in new}) == 1 and len(new[0]) <= total, "step/lengths")
        for l, t, what in zip(new, taken, ("first", "second")):
            l = [x for x in l if not (isinstance(x, int) and x == -1)]
            ck.true(len(l) == len(t) and all(any(x is y for y in l) for x in t), f"step/columns of the {what}")
        for l, m in ((new[2], p), (new[3], q)):
            ck.true(all(valid(x, m) for x in l), "step/range")
        for es in zip(*new):
            check_joined(ck, a, b, *es)

    def end(c):
        env, out, rem = parts.arbitrary(*c.objs, c.left)
        if eval(parts.test, env):
            return None
        try:
            exec(parts.post, env)
        except _Return as e:
            return e.value, rem
        raise Unsupported("no result")

    def end_post(w, ck, c, r):
        if r is None:
            return
        out, rem = r
        p, q = cols(c)
        a, b = c.dens
        ck.true(all(isinstance(x, Result) for x in out) and len(out) == 4, "end/lists")
        new = [[(x, n) for x, n in o.new if n is None or not zero(n)] for o in out]
        ck.true(len({len(l) for l in new}) == 1, "end/lengths")
        runs = builtins.list(zip(*new))
        total = ZERO
        for run in runs:
            ns = [n for _, n in run]
            ck.true(all(n is not None and n is ns[0] for n in ns), "end/lengths")
            total = total + ns[0]
        bound = ZERO
        for x in rem:
            bound = bound + x.count
        ck.true(zero(total - bound), "end/length")
        for k, m, what in ((0, p, "first"), (1, q, "second")):
            x = next(y for y in rem if y.n is m)
            got = [y for y, _ in new[k] if not (isinstance(y, int) and y == -1)]
            ck.true(got == [x] if not zero(x.count) else got in ([], [x]), f"end/columns of the {what}")
        # A generic element.
        for run in runs:
            gen = {}
            es = []
            for x, _ in run:
                if isinstance(x, Remaining):
                    x = gen.setdefault(id(x), symt.mk_int(Poly.atom(named_var(f"any of {x.n!r}", x.n))))
                es.append(x)
            ck.true(valid(es[2], p) and valid(es[3], q), "end/range")
            check_joined(ck, a, b, *es)

    return [("init", init, init_post), ("step", step, step_post), ("end", end, end_post)]


def valid(x, m):
    """An index of one of `m` columns, or minus one."""
    if isinstance(x, int):
        return x == -1
    x = symt.as_poly(x)
    if x is None or not N.BASE.decide(N.norm_cond(("ge", x))) is True:
        return False
    return N.BASE.decide(N.norm_cond(("ge", m - x.shift(1)))) is True
