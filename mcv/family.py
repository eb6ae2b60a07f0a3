"""Lists of symbolic length, and the comprehension rule.

`B.unstack` along an axis of symbolic length returns a *family*: one generic element that
depends on a fresh index variable.  A list comprehension over families is verified by
evaluating its body once, for generic indices, and is itself a family over the indices in
the order of its loops; `B.stack(*family)` makes the axis back, row-major.  List
comprehensions of the code under proof are compiled to a call that runs the same loops
(`comp`), mechanically, from the source of the function.  An element may not be used in any
way that could tell it from the others: a decision on a generic index, an iteration other
than by a comprehension or by `*`, a length, or an index that is left in a result is
unsupported.
"""

import ast
import dis
import inspect
import sys
import textwrap
import types

from . import symt
from .nf import Unsupported
from .poly import ATOMS, Poly, atom_upper, fresh_var

PREFIX = "fam"


def generic_atom(a):
    return ATOMS[a][0] == "var" and ATOMS[a][1].startswith(PREFIX)


def is_generic(poly):
    return any(generic_atom(a) for a in poly.all_atoms())


def unpacked():
    """Whether the caller is asked for its elements by `*`."""
    f = sys._getframe(2)
    return dis.opname[f.f_code.co_code[f.f_lasti]] in ("CALL_FUNCTION_EX", "LIST_EXTEND")


class Fam:
    def __init__(self, vs, elem):
        self.vs, self.elem = list(vs), elem  # variables in the order of the loops; a tensor or a family

    def instantiate(self):
        new = [fresh_var(atom_upper(v), PREFIX) for v in self.vs]
        return new, subst(self.elem, dict(zip(self.vs, map(Poly.atom, new))))

    def __iter__(self):
        if not unpacked():
            raise Unsupported("iteration over a list of symbolic length")
        if not isinstance(self.elem, symt.SymTensor):
            raise Unsupported("a list of lists as arguments")
        vs, e = self.instantiate()
        e = symt.SymTensor.make(e._shape, e._elem, e._dt)
        e._fam = vs
        return iter([e])

    def _fail(self, *a, **k):
        raise Unsupported("a list of symbolic length")

    def __len__(self):
        if unpacked():
            raise TypeError("no length")  # a hint of the length, before the iteration
        raise Unsupported("the length of a list of symbolic length")

    __getitem__ = __contains__ = __add__ = __radd__ = __mul__ = __reversed__ = __eq__ = __bool__ = _fail
    __hash__ = None


def subst(x, s):
    if isinstance(x, Fam):
        return Fam(x.vs, subst(x.elem, s))
    if isinstance(x, symt.SymTensor):
        if any(is_generic(d) for d in x._shape):
            raise Unsupported("an element whose shape depends on its index")
        return symt.SymTensor.make(x._shape, lambda idx: x.at(idx).subst(s), x._dt)
    raise Unsupported(f"a family of {type(x).__name__}")


def comp(body, *its):
    """`[body(x1, …) for x1 in its[0]() for x2 in its[1](x1) …]`"""

    def run(targets):
        if len(targets) == len(its):
            return [], [body(*targets)]
        it = its[len(targets)](*targets)
        if isinstance(it, Fam):
            vs, e = it.instantiate()
            ws, out = run(targets + [e])
            if len(out) != 1:
                raise Unsupported("a list of families")
            return vs + ws, out
        acc, n = [], 0
        ws = []
        for x in it:
            w, out = run(targets + [x])
            ws, n = w, n + 1
            acc.extend(out)
            if ws and n > 1:
                raise Unsupported("a list of families")
        return ws, acc

    vs, out = run([])
    if not vs:
        return out
    if not isinstance(out[0], (Fam, symt.SymTensor)):
        raise Unsupported("a list of symbolic length of other values")
    return Fam(vs, out[0])


def unstack(a, axis):
    """The slices of `a` along `axis`."""
    n = len(a._shape)
    k = symt._axis(axis, n)
    g = fresh_var(a._shape[k], PREFIX)
    i = Poly.atom(g)
    shape = a._shape[:k] + a._shape[k + 1 :]
    return Fam([g], symt.SymTensor.make(shape, lambda idx: a.at(idx[:k] + (i,) + idx[k:]), a._dt))


def stack(t, k):
    """Stack the family of which `t` is the generic element along a new axis `k`."""
    vs = t._fam
    dims = tuple(atom_upper(v) for v in vs)
    m = len(vs)

    def elem(idx):
        return t.at(idx[:k] + idx[k + m :]).subst(dict(zip(vs, idx[k : k + m])))

    wide = symt.SymTensor.make(t._shape[:k] + dims + t._shape[k:], elem, t._dt)
    total = symt.prod_poly(dims)
    shape = t._shape[:k] + (total,) + t._shape[k:]
    return wide if m == 1 else symt.m_reshape(wide, tuple(symt.mk_int(d) for d in shape))


# ---- compilation of comprehensions


class _Lists(ast.NodeTransformer):
    def visit_ListComp(self, node):
        self.generic_visit(node)
        for x in ast.walk(node):
            if isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)):
                return node
        names = []
        for g in node.generators:
            if g.ifs or g.is_async or not isinstance(g.target, ast.Name):
                return node
            names.append(g.target.id)
        if len(set(names)) < len(names):
            return node

        def lam(k, body):
            args = [ast.arg(arg=x) for x in names[:k]]
            return ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=args, kwonlyargs=[], kw_defaults=[], defaults=[]), body=body
            )

        its = [lam(k, g.iter) for k, g in enumerate(node.generators)]
        return ast.copy_location(
            ast.Call(func=ast.Name(id="__mcv_comp__", ctx=ast.Load()), args=[lam(len(names), node.elt)] + its, keywords=[]), node
        )


def compile_lists(f):
    """Replace the code of a function by one in which the comprehensions are calls."""
    try:
        src = textwrap.dedent(inspect.getsource(f))
        tree = ast.parse(src)
    except (OSError, SyntaxError, TypeError):
        return False
    d = tree.body[0]
    if not isinstance(d, ast.FunctionDef) or d.name != f.__name__ or f.__closure__:
        return False
    if not any(isinstance(x, ast.ListComp) for x in ast.walk(d)):
        return False
    d.decorator_list = []
    _Lists().visit(tree)
    ast.fix_missing_locations(tree)
    ast.increment_lineno(tree, f.__code__.co_firstlineno - 1)
    code = compile(tree, f.__code__.co_filename, "exec")
    inner = [c for c in code.co_consts if isinstance(c, types.CodeType) and c.co_name == f.__name__]
    if len(inner) != 1 or inner[0].co_freevars:
        return False
    f.__globals__["__mcv_comp__"] = comp
    f.__code__ = inner[0]
    return True
