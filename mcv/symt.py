"""Symbolic integers and symbolic tensors which the real code computes with.

`SymInt` is an `int`-like object (a LAB `Dimension`, hence accepted wherever LAB accepts
an integer).  `SymTensor` is an `np.ndarray` subclass whose elements are given by a
function from index polynomials to normal forms.  The semantics of the NumPy functions in
`MODELS` are the assumed contracts on the dependency; they are compared to the real NumPy
functions by `conformance.py`.
"""

import operator
from fractions import Fraction

import numpy as np
from lab.shape import Dimension

from . import nf as N
from .nf import NF, Unsupported, apply_fn, eq, ge, lt, simplify
from .poly import (
    ATOMS,
    ONE,
    P,
    Poly,
    ZERO,
    atom_upper,
    dim_atom,
    fresh_var,
    mk_div,
    mk_mod,
    named_var,
    quick_nonneg,
)


class Fork(BaseException):
    """An undetermined condition was branched on."""

    def __init__(self, cond):
        self.cond = cond


class ValueFork(BaseException):
    """A condition on element values was branched on."""

    def __init__(self, key):
        self.key = key


# ------------------------------------------------------------------ SymBool / SymInt


class SymBool:
    __slots__ = ("cond", "neg")

    def __init__(self, cond, neg=False):
        self.cond = cond
        self.neg = neg

    def __bool__(self):
        r = decide(self.cond)
        return (not r) if self.neg else r

    def __invert__(self):
        return SymBool(self.cond, not self.neg)

    def __and__(self, o):
        return bool(self) and bool(o)

    def __or__(self, o):
        return bool(self) or bool(o)

    __rand__ = __and__
    __ror__ = __or__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return hash(bool(self))


def decide(cond):
    cond = N.norm_cond(cond)
    r = N.BASE.decide(cond)
    if r is None:
        from .family import is_generic

        if is_generic(cond[1]):
            raise Unsupported("a decision on a generic element")
        raise Fork(cond)
    return r


def mk_bool(cond, neg=False):
    cond = N.norm_cond(cond)
    r = N.BASE.decide(cond)
    if r is not None:
        return bool(r) != neg
    return SymBool(cond, neg)


def mk_int(p):
    if p.is_const():
        return p.const_value()
    return SymInt(p)


def as_poly(x):
    """Poly of an int-like, or `None`."""
    if isinstance(x, SymInt):
        return x.p
    if isinstance(x, (bool, np.bool_)):
        return None
    if isinstance(x, (int, np.integer)):
        return Poly.const(int(x))
    if isinstance(x, Dimension):
        return as_poly(x.dim)
    if isinstance(x, Poly):
        return x
    return None


def as_poly_strict(x):
    p = as_poly(x)
    if p is None:
        raise TypeError(f"'{type(x).__name__}' object cannot be interpreted as an integer")
    return p


class SymInt(Dimension):
    """An integer-valued term."""

    def __init__(self, p):
        self.p = p

    @property
    def dim(self):
        return self

    def _bin(self, o, f):
        q = as_poly(o)
        if q is None:
            return NotImplemented
        return mk_int(f(self.p, q))

    def _real(self):
        return SymTensor.make((), lambda idx, p=self.p: NF.from_poly(p), np.dtype(np.int64))

    def _bin_or_real(self, o, f, g):
        q = as_poly(o)
        if q is None:
            if isinstance(o, (float, np.floating)):
                return pyscalar(g(self._real(), o), self, o)
            return NotImplemented
        return mk_int(f(self.p, q))

    def __add__(self, o):
        return self._bin_or_real(o, lambda a, b: a + b, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin_or_real(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin_or_real(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (tuple, list)):
            raise Unsupported("sequence repetition by a symbolic integer")
        return self._bin_or_real(o, lambda a, b: a * b, lambda a, b: a * b)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return self._bin(o, _pdiv)

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: _pdiv(b, a))

    def __mod__(self, o):
        return self._bin(o, _pmod)

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: _pmod(b, a))

    def __truediv__(self, o):
        if isinstance(o, SymTensor):
            return NotImplemented
        return pyscalar(self._real() / (o._real() if isinstance(o, SymInt) else o), self, o)

    def __rtruediv__(self, o):
        if isinstance(o, SymTensor):
            return NotImplemented
        return pyscalar(as_tensor(o) / self._real(), o, self)

    def __neg__(self):
        return mk_int(-self.p)

    def __pos__(self):
        return self

    def __abs__(self):
        if decide(("ge", self.p)):
            return self
        return mk_int(-self.p)

    def __pow__(self, o, mod=None):
        if isinstance(o, int) and o >= 0 and mod is None:
            p = ONE
            for _ in range(o):
                p = p * self.p
            return mk_int(p)
        raise Unsupported("power of a symbolic integer")

    def _cmp(self, o, f, neg=False):
        q = as_poly(o)
        if q is None:
            if isinstance(o, (float, np.floating)) and float(o).is_integer():
                q = Poly.const(int(o))
            else:
                return NotImplemented
        return mk_bool(f(self.p, q), neg)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: ("eq", a - b))

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: ("eq", a - b), True)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: ("ge", a - b))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: ("ge", b - a))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: ("ge", (a - b).shift(-1)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: ("ge", (b - a).shift(-1)))

    def __hash__(self):
        if self.p.is_const():
            return hash(self.p.const_value())
        # Sets and dictionaries would compare hashes, not values.
        raise Unsupported("hash of a symbolic integer")

    def __bool__(self):
        return not decide(("eq", self.p))

    def __index__(self):
        if self.p.is_const():
            return self.p.const_value()
        # Equal to a unique value under the premises?
        for c in (0, 1, 2):
            if N.BASE.decide(N.norm_cond(("eq", self.p.shift(-c)))) is True:
                return c
        raise Unsupported(f"concrete value of symbolic integer {self.p!r} required")

    __int__ = __index__

    def __float__(self):
        raise Unsupported("float of a symbolic integer")

    def __len__(self):
        raise TypeError("object of type 'int' has no len()")

    def __iter__(self):
        raise TypeError("'int' object is not iterable")

    def __repr__(self):
        return repr(self.p)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self.p)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return _ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return _function(func, args, kw)


def _pdiv(a, b):
    if not quick_nonneg(b.shift(-1)) and not N.BASE.prove(("ge", b.shift(-1))):
        raise Unsupported("division by a possibly nonpositive symbolic integer")
    return mk_div(a, b)


def _pmod(a, b):
    if not quick_nonneg(b.shift(-1)) and not N.BASE.prove(("ge", b.shift(-1))):
        raise Unsupported("remainder by a possibly nonpositive symbolic integer")
    return mk_mod(a, b)


# ------------------------------------------------------------------ SymTensor


class _Poison:
    def _fail(self, *a, **k):
        raise Unsupported("NumPy read the raw buffer of a symbolic tensor")

    __array__ = __float__ = __int__ = __index__ = __bool__ = _fail
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = _fail
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = __abs__ = _fail
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _fail
    __hash__ = object.__hash__


POISON = _Poison()
F64 = np.dtype(np.float64)


class SymTensor(np.ndarray):
    # Attributes: `_shape` (tuple of Poly), `_elem`, `_dt`, `_memo`.

    @staticmethod
    def make(shape, elem, dt=F64, simp=True):
        x = np.ndarray.__new__(SymTensor, (), dtype=object)
        np.ndarray.fill(x, POISON)
        x._shape = tuple(shape)
        x._elem = elem
        x._dt = np.dtype(dt)
        x._memo = {}
        x._simp = simp
        return x

    def at(self, idx):
        """Element at a tuple of index polys (no broadcasting)."""
        idx = tuple(idx)
        assert len(idx) == len(self._shape), (idx, self._shape)
        r = self._memo.get(idx)
        if r is None:
            r = self._elem(idx)
            if self._simp:
                r = simplify(r)
            self._memo[idx] = r
        return r

    def bat(self, idx):
        """Element with broadcasting: `idx` may be longer; unit axes get index 0."""
        k = len(self._shape)
        idx = idx[len(idx) - k :] if k else ()
        return self.at(tuple(ZERO if d is ONE else i for d, i in zip(self._shape, idx)))

    # ---- array protocol
    @property
    def shape(self):
        return tuple(mk_int(d) for d in self._shape)

    @shape.setter
    def shape(self, v):
        raise Unsupported("assignment to shape")

    @property
    def dtype(self):
        return self._dt

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        p = ONE
        for d in self._shape:
            p = p * d
        return mk_int(p)

    @property
    def T(self):
        return m_transpose(self)

    def __len__(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        return operator.index(mk_int(self._shape[0]))

    def __iter__(self):
        if not self._shape:
            raise TypeError("iteration over a 0-d array")
        n = mk_int(self._shape[0])
        for i in range(operator.index(n)):
            yield self[i]

    def __bool__(self):
        return truth(self)

    def __float__(self):
        raise Unsupported("float of a symbolic tensor")

    def __int__(self):
        raise Unsupported("int of a symbolic tensor")

    def __index__(self):
        raise Unsupported("index of a symbolic tensor")

    def __repr__(self):
        idx = tuple(Poly.atom(named_var(f"i{k}", d)) for k, d in enumerate(self._shape))
        try:
            e = repr(self.at(idx))
        except BaseException as ex:
            e = f"<{ex!r}>"
        return f"SymTensor(shape={self._shape}, {e[:300]})"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return _ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return _function(func, args, kw)

    def __getitem__(self, item):
        return m_getitem(self, item)

    def __setitem__(self, item, val):
        raise MutationAttempt("item assignment on an input array")

    def _ip(self, *a):
        raise MutationAttempt("in-place operation on an array")

    __iadd__ = __isub__ = __imul__ = __itruediv__ = __ipow__ = _ip
    __imatmul__ = __ifloordiv__ = __imod__ = _ip

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    # ---- methods
    def astype(self, dtype, copy=True, **kw):
        return m_cast(self, dtype)

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return m_reshape(self, shape)

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0]
        return m_transpose(self, axes or None)

    def squeeze(self, axis=None):
        return m_squeeze(self, axis)

    def sum(self, axis=None, keepdims=False, **kw):
        return m_sum(self, axis, keepdims=keepdims)

    def mean(self, axis=None, keepdims=False, **kw):
        return m_mean(self, axis, keepdims=keepdims)

    def copy(self, *a, **k):
        return SymTensor.make(self._shape, self._elem, self._dt)

    def all(self, axis=None, **k):
        return m_all(self, axis, **k)

    def any(self, axis=None, **k):
        return m_any(self, axis, **k)

    def diagonal(self, offset=0, axis1=0, axis2=1):
        return m_diagonal(self, offset, axis1, axis2)

    def trace(self, offset=0, axis1=0, axis2=1):
        return m_trace(self, offset, axis1, axis2)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise Unsupported("pickling of a symbolic tensor")


class MutationAttempt(Exception):
    """The code tried to modify an array in place."""


for _name in (
    "item tolist fill sort resize put partition itemset setfield setflags swapaxes ravel "
    "flatten take repeat dot prod cumsum cumprod max min argmax argmin std var ptp "
    "round clip conj conjugate nonzero searchsorted choose compress view tobytes"
).split():

    def _unsup(self, *a, _n=_name, **k):
        raise Unsupported(f"ndarray.{_n} on a symbolic tensor")

    setattr(SymTensor, _name, _unsup)


def _mk_op(uf, rev):
    def op(self, o):
        t = as_tensor(o, strict=False)
        if t is None:
            return NotImplemented
        if rev:
            return pyscalar(MODELS[uf](o, self), o, self)
        return pyscalar(MODELS[uf](self, o), self, o)

    return op


# ------------------------------------------------------------------ models

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f

    return deco


def _ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    if method != "__call__" or any(
        v is not None for k, v in kw.items() if k in ("out",)
    ):
        if kw.get("out") is not None:
            raise MutationAttempt(f"np.{name}(..., out=...)")
        raise Unsupported(f"ufunc method {name}.{method}")
    f = MODELS.get(name)
    if f is None:
        raise Unsupported(f"no model of np.{name}")
    for x in inputs:
        if as_tensor(x, strict=False) is None:
            return NotImplemented
    kw = {k: v for k, v in kw.items() if not (k in ("where", "casting", "order", "dtype", "subok"))}
    return f(*inputs, **kw)


def _function(func, args, kw):
    name = func.__name__
    f = MODELS.get(name)
    if f is None:
        raise Unsupported(f"no model of np.{name}")
    if kw.get("out") is not None:
        raise MutationAttempt(f"np.{name}(..., out=...)")
    return f(*args, **kw)


def as_tensor(x, strict=True):
    if isinstance(x, SymTensor):
        return x
    if isinstance(x, SymInt):
        return x._real()
    if isinstance(x, (bool, np.bool_)):
        return SymTensor.make((), lambda idx, v=int(x): NF.const(v), np.dtype(bool))
    if isinstance(x, (int, float, np.integer, np.floating)):
        fx = float(x) if isinstance(x, (float, np.floating)) else None
        if fx is not None and (fx != fx or fx in (float("inf"), float("-inf"))):
            raise Unsupported("non-finite constant")
        v = N.to_fraction(x)
        dt = x.dtype if isinstance(x, np.generic) else type(x)
        t = SymTensor.make((), lambda idx, v=v: NF.const(v), dt)
        t._weak = not isinstance(x, np.generic)
        return t
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            if x.ndim == 0 and isinstance(x.item(), (SymTensor, SymInt)):
                return as_tensor(x.item())
            raise Unsupported("object array")
        arr = x
        if arr.size > 64:
            raise Unsupported("large concrete array in symbolic execution")

        def elem(idx, arr=arr):
            return _concrete_elem(arr, idx)

        return SymTensor.make(tuple(Poly.const(d) for d in arr.shape), elem, arr.dtype)
    if isinstance(x, Dimension):
        return as_tensor(x.dim)
    if not strict:
        return None
    if isinstance(x, (list, tuple)):
        return m_array(x)
    raise Unsupported(f"cannot convert {type(x).__name__} to a symbolic tensor")


def _concrete_elem(arr, idx):
    if not idx:
        v = arr.item()
        return NF.const(int(v) if isinstance(v, bool) else v)
    i, rest = idx[0], idx[1:]
    if i.is_const():
        return _concrete_elem(arr[i.const_value()], rest)
    out = NF()
    for k in range(arr.shape[0]):
        e = _concrete_elem(arr[k], rest)
        if not e.is_zero():
            out = out + e.cond(eq(i, Poly.const(k)))
    return out


def is_weak(x):
    return isinstance(x, (int, float)) and not isinstance(x, np.generic) or isinstance(x, SymInt)


def result_dtype(*xs):
    args = []
    for x in xs:
        if isinstance(x, SymTensor):
            # 0-d arrays are not weak in NumPy 2, unless they stand for a Python scalar.
            if getattr(x, "_weak", False):
                args.append({"f": 1.0, "i": 1, "b": True}.get(x._dt.kind, x._dt))
            else:
                args.append(x._dt)
        elif isinstance(x, SymInt):
            args.append(1)
        elif isinstance(x, bool):
            args.append(np.dtype(bool))
        elif isinstance(x, (int, float)):
            args.append(x)
        elif isinstance(x, np.ndarray) or isinstance(x, np.generic):
            args.append(x.dtype)
        else:
            args.append(as_tensor(x)._dt)
    return np.result_type(*args)


def dim_eq(a, b):
    if a is b:
        return True
    return decide(("eq", a - b))


def broadcast_dims(shapes, error="operands could not be broadcast together with shapes"):
    """NumPy broadcasting of shapes (tuples of Poly)."""
    n = max((len(s) for s in shapes), default=0)
    out = []
    for k in range(n):
        cur = ONE
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            d = s[j]
            if d is cur or d is ONE:
                continue
            if cur is ONE:
                cur = d
                continue
            # Both are not literally one.
            if dim_eq(cur, d):
                continue
            if decide(("eq", cur.shift(-1))):
                cur = d
                continue
            if decide(("eq", d.shift(-1))):
                continue
            raise ValueError(f"{error} {shapes}")
        out.append(cur)
    return tuple(out)


def normalise_unit(x):
    """After the path fixed dims to one, shapes hold the literal 1 (by substitution)."""
    return x


def elementwise(f, *xs, dt=None):
    ts = [as_tensor(x) for x in xs]
    shape = broadcast_dims([t._shape for t in ts])
    if dt is None:
        dt = result_dtype(*xs)

    def elem(idx):
        return f(*[t.bat(idx) for t in ts])

    return SymTensor.make(shape, elem, dt)


def pyscalar(r, *xs):
    """Python's operators on Python numbers give Python numbers, which have no data type of
    their own; NumPy's functions on Python numbers give NumPy numbers, which do."""
    if isinstance(r, SymTensor) and all(is_weak(x) or getattr(x, "_weak", False) for x in xs):
        r._weak = True
    return r


def _float_dt(*xs):
    dt = result_dtype(*xs)
    if dt.kind in "iub":
        return np.dtype(np.float64)
    return dt


@model("add")
def m_add(a, b):
    return elementwise(lambda x, y: x + y, a, b)


@model("subtract")
def m_subtract(a, b):
    return elementwise(lambda x, y: x - y, a, b)


@model("multiply")
def m_multiply(a, b):
    r = elementwise(lambda x, y: x * y, a, b)
    if a is b and isinstance(a, SymTensor):
        r._nn = a
    return r


@model("divide", "true_divide")
def m_divide(a, b):
    return _keep_nn(elementwise(lambda x, y: x * apply_fn(("pow", -1), y), a, b, dt=_float_dt(a, b)), a, b)


def _keep_nn(r, a, b):
    """Scaling by a positive number keeps the provenance of small quantities."""
    if getattr(a, "_nn", None) is not None and (
        isinstance(b, SymInt) or (isinstance(b, (int, float, np.number)) and b > 0)
    ):
        r._nn = a._nn
    return r


@model("negative")
def m_negative(a):
    return elementwise(lambda x: -x, a)


@model("positive")
def m_positive(a):
    return elementwise(lambda x: x, a)


@model("absolute", "abs", "fabs")
def m_abs(a):
    r = elementwise(lambda x: apply_fn("abs", x), a)
    r._nn = as_tensor(a)
    return r


@model("sqrt")
def m_sqrt(a):
    return elementwise(lambda x: apply_fn(("pow", Fraction(1, 2)), x), a, dt=_float_dt(a))


@model("square")
def m_square(a):
    r = elementwise(lambda x: x * x, a)
    r._nn = as_tensor(a)
    return r


@model("reciprocal")
def m_reciprocal(a):
    return elementwise(lambda x: apply_fn(("pow", -1), x), a, dt=_float_dt(a))


@model("log")
def m_log(a):
    return elementwise(lambda x: apply_fn("log", x), a, dt=_float_dt(a))


@model("exp")
def m_exp(a):
    return elementwise(lambda x: apply_fn("exp", x), a, dt=_float_dt(a))


@model("isnan")
def m_isnan(a):
    return elementwise(lambda x: apply_fn("isnan", x), a, dt=np.dtype(bool))


@model("power", "float_power", "pow")
def m_power(a, b):
    if isinstance(b, (int, float, np.integer, np.floating)):
        e = Fraction(b).limit_denominator(64) if float(b) != int(b) else int(b)
        if float(e) != float(b):
            raise Unsupported("irrational exponent")
        if isinstance(e, Fraction) and e.denominator == 1:
            e = int(e)
        dt = result_dtype(a, b)
        r = elementwise(lambda x: apply_fn(("pow", e), x), a, dt=dt)
        if e == 2:
            r._nn = as_tensor(a)
        return r
    raise Unsupported("power with a symbolic exponent")


def _cmp_model(name, cond, neg=False):
    """Comparisons of element values: a tensor of truth values."""

    def f(a, b):
        return CmpTensor.build(name, a, b)

    MODELS[name] = f
    return f


class Cmp:
    """Comparison `name` of two tensors, elementwise."""


def _mk_cmp(name):
    def f(a, b):
        pa, pb = as_poly(a), as_poly(b)
        if pa is not None and pb is not None and (isinstance(a, SymInt) or isinstance(b, SymInt)):
            # Comparison of symbolic integers.
            x = a if isinstance(a, SymInt) else mk_int(pa)
            op = {
                "equal": operator.eq,
                "not_equal": operator.ne,
                "less": operator.lt,
                "less_equal": operator.le,
                "greater": operator.gt,
                "greater_equal": operator.ge,
            }[name]
            return bool(op(x, b))
        ta, tb = as_tensor(a), as_tensor(b)
        shape = broadcast_dims([ta._shape, tb._shape])

        def elem(idx):
            d = simplify(ta.bat(idx) - tb.bat(idx))
            if not d.terms or _is_const(d):
                c = 0 if not d.terms else d.terms[0].c
                v = {
                    "equal": c == 0,
                    "not_equal": c != 0,
                    "less": c < 0,
                    "less_equal": c <= 0,
                    "greater": c > 0,
                    "greater_equal": c >= 0,
                }[name]
                return NF.const(int(v))
            return apply_fn("is_" + name, d)

        r = SymTensor.make(shape, elem, np.dtype(bool))
        r._cmp = (name, ta, tb)
        return r

    MODELS[name] = f
    return f


def _is_const(d):
    return len(d.terms) == 1 and not d.terms[0].fac and not d.terms[0].bv and not d.terms[0].cd


for _n in ("equal", "not_equal", "less", "less_equal", "greater", "greater_equal"):
    _mk_cmp(_n)


@model("logical_not")
def m_logical_not(a):
    return elementwise(lambda x: NF.const(1) - x, a, dt=np.dtype(bool))


@model("logical_and")
def m_logical_and(a, b):
    return elementwise(lambda x, y: x * y, a, b, dt=np.dtype(bool))


@model("logical_or")
def m_logical_or(a, b):
    return elementwise(lambda x, y: x + y - x * y, a, b, dt=np.dtype(bool))


@model("all")
def m_all(a, axis=None, keepdims=False, **kw):
    a = as_tensor(a)
    if axis is not None:
        raise Unsupported("all over an axis")
    return SymTruth("all", a)


@model("any")
def m_any(a, axis=None, keepdims=False, **kw):
    a = as_tensor(a)
    if axis is not None:
        raise Unsupported("any over an axis")
    return SymTruth("any", a)


class SymTruth(SymTensor):
    """Truth value of a quantified statement over the elements of a tensor."""

    def __new__(cls, kind, a):
        x = np.ndarray.__new__(cls, (), dtype=object)
        np.ndarray.fill(x, POISON)
        x._shape = ()
        x._dt = np.dtype(bool)
        x._memo = {}
        x._simp = True
        x._kind = kind
        x._arg = a

        def elem(idx):
            return NF.const(int(bool(x)))

        x._elem = elem
        return x

    def __bool__(self):
        idx = tuple(Poly.atom(named_var(f"q{k}", d)) for k, d in enumerate(self._arg._shape))
        e = simplify(self._arg.at(idx))
        if not e.terms:
            return False
        if _is_const(e) and e.terms[0].c == 1:
            return True
        key = (self._kind, N.Key.of(e))
        return value_decide(key)


def truth(t):
    """bool() of a symbolic tensor."""
    if t._shape:
        n = ONE
        for d in t._shape:
            n = n * d
        if not decide(("eq", n.shift(-1))):
            raise ValueError(
                "The truth value of an array with more than one element is ambiguous."
            )
    e = simplify(t.at((ZERO,) * len(t._shape)))
    if not e.terms:
        return False
    if _is_const(e):
        return True
    r = value_decide(("all", N.Key.of(e)))
    c = getattr(t, "_cmp", None)
    if r and c and c[0] in ("less", "less_equal") and getattr(c[1], "_nn", None) is not None:
        # A sum of squares or absolute values below a tolerance: idealised to zero.
        N.ZEROS.append(c[1]._nn)
    return r


def value_decide(key):
    v = N.BASE.values.get(key)
    if v is None:
        raise ValueFork(key)
    return v


# ---- shape manipulation


def shape_polys(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(as_poly_strict(d) for d in shape)
    return (as_poly_strict(shape),)


def _full(shape, c, dtype):
    dt = np.dtype(dtype if dtype is not None else np.float64)
    shape = shape_polys(shape)
    for d in shape:
        if not d.is_const() and not quick_nonneg(d):
            if not decide(("ge", d)):
                raise ValueError("negative dimensions are not allowed")
    return SymTensor.make(shape, lambda idx: NF.const(c), dt)


@model("zeros")
def m_zeros(shape, dtype=None, **kw):
    return _full(shape, 0, dtype)


@model("ones")
def m_ones(shape, dtype=None, **kw):
    return _full(shape, 1, dtype)


@model("full")
def m_full(shape, fill_value, dtype=None, **kw):
    v = as_tensor(fill_value)
    if v._shape:
        return m_broadcast_to(v, shape)
    return SymTensor.make(
        shape_polys(shape), lambda idx: v.at(()), v._dt if dtype is None else dtype
    )


@model("zeros_like")
def m_zeros_like(a, dtype=None, **kw):
    a = as_tensor(a)
    return SymTensor.make(a._shape, lambda idx: NF(), dtype or a._dt)


@model("ones_like")
def m_ones_like(a, dtype=None, **kw):
    a = as_tensor(a)
    return SymTensor.make(a._shape, lambda idx: NF.const(1), dtype or a._dt)


@model("eye")
def m_eye(n, m=None, k=0, dtype=None, **kw):
    n = as_poly_strict(n)
    m = n if m is None else as_poly_strict(m)
    kp = as_poly_strict(k)
    return SymTensor.make(
        (n, m), lambda idx: NF.const(1).cond(eq(idx[0] + kp, idx[1])), dtype or np.float64
    )


@model("identity")
def m_identity(n, dtype=None, **kw):
    return m_eye(n, dtype=dtype)


@model("array", "asarray", "copy", "ascontiguousarray", "asanyarray")
def m_array(x, dtype=None, **kw):
    if isinstance(x, (list, tuple)):
        ts = [m_array(y) for y in x]
        return m_stack(ts, 0)
    t = as_tensor(x)
    if dtype is not None:
        return m_cast(t, dtype)
    r = SymTensor.make(t._shape, lambda idx: t.at(idx), t._dt)
    return r


def m_cast(t, dtype):
    dt = np.dtype(dtype)
    if dt.kind in "iu" and t._dt.kind not in "iub":
        raise Unsupported("truncating cast")
    if dt.kind == "b" and t._dt.kind != "b":
        return elementwise(lambda x: apply_fn("is_not_equal", x), t, dt=dt)
    return SymTensor.make(t._shape, lambda idx: t.at(idx), dt)


@model("shape")
def m_shape(a):
    return as_tensor(a).shape


@model("size")
def m_size(a, axis=None):
    a = as_tensor(a)
    return a.size if axis is None else a.shape[axis]


@model("ndim")
def m_ndim(a):
    return as_tensor(a).ndim


@model("real", "conj", "conjugate", "nan_to_num_never")
def m_real(a):
    return as_tensor(a)


def _axis(axis, n):
    if isinstance(axis, SymInt):
        axis = operator.index(axis)
    axis = operator.index(axis)
    if not -n <= axis < n:
        raise np.exceptions.AxisError(axis, n)
    return axis % n if n else 0


@model("transpose", "permute_dims")
def m_transpose(a, axes=None):
    a = as_tensor(a)
    n = len(a._shape)
    if axes is None:
        axes = tuple(range(n))[::-1]
    axes = tuple(_axis(k, n) for k in axes)
    if sorted(axes) != list(range(n)):
        raise ValueError("axes don't match array")
    shape = tuple(a._shape[k] for k in axes)

    def elem(idx):
        out = [None] * n
        for pos, k in enumerate(axes):
            out[k] = idx[pos]
        return a.at(out)

    return SymTensor.make(shape, elem, a._dt)


@model("swapaxes")
def m_swapaxes(a, axis1, axis2):
    a = as_tensor(a)
    n = len(a._shape)
    p = list(range(n))
    i, j = _axis(axis1, n), _axis(axis2, n)
    p[i], p[j] = p[j], p[i]
    return m_transpose(a, p)


@model("matrix_transpose")
def m_mT(a):
    return m_swapaxes(a, -1, -2)


@model("moveaxis")
def m_moveaxis(a, source, destination):
    a = as_tensor(a)
    n = len(a._shape)
    s, d = _axis(source, n), _axis(destination, n)
    p = [k for k in range(n) if k != s]
    p.insert(d, s)
    return m_transpose(a, p)


@model("expand_dims")
def m_expand_dims(a, axis):
    a = as_tensor(a)
    n = len(a._shape) + 1
    if isinstance(axis, (tuple, list)):
        raise Unsupported("expand_dims with several axes")
    k = _axis(axis, n)
    shape = a._shape[:k] + (ONE,) + a._shape[k:]
    return SymTensor.make(shape, lambda idx: a.at(idx[:k] + idx[k + 1 :]), a._dt)


@model("squeeze")
def m_squeeze(a, axis=None):
    a = as_tensor(a)
    n = len(a._shape)
    if axis is None:
        rem = [k for k in range(n) if decide(("eq", a._shape[k].shift(-1)))]
    else:
        rem = [_axis(k, n) for k in (axis if isinstance(axis, tuple) else (axis,))]
        for k in rem:
            if not decide(("eq", a._shape[k].shift(-1))):
                raise ValueError(
                    "cannot select an axis to squeeze out which has size not equal to one"
                )
    keep = [k for k in range(n) if k not in rem]

    def elem(idx):
        full = [ZERO] * n
        for pos, k in enumerate(keep):
            full[k] = idx[pos]
        return a.at(full)

    return SymTensor.make(tuple(a._shape[k] for k in keep), elem, a._dt)


@model("broadcast_to")
def m_broadcast_to(a, shape, subok=False):
    a = as_tensor(a)
    shape = shape_polys(shape)
    k = len(shape) - len(a._shape)
    if k < 0:
        raise ValueError("input operand has more dimensions than allowed by the axis remapping")
    out = []
    for d, s in zip(a._shape, shape[k:]):
        if d is s:
            continue
        if d is ONE or decide(("eq", d.shift(-1))):
            continue
        if not dim_eq(d, s):
            raise ValueError("operands could not be broadcast together with remapped shapes")
    return SymTensor.make(shape, lambda idx: a.bat(idx), a._dt)


@model("broadcast_shapes")
def m_broadcast_shapes(*shapes):
    return tuple(mk_int(d) for d in broadcast_dims([shape_polys(s) for s in shapes]))


@model("broadcast_arrays")
def m_broadcast_arrays(*xs, **kw):
    ts = [as_tensor(x) for x in xs]
    shape = broadcast_dims([t._shape for t in ts])
    return tuple(m_broadcast_to(t, shape) for t in ts)


@model("sum")
def m_sum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if hasattr(a, "_mask_count") and axis is None:
        # The number of elements that a mask selects.
        return a._mask_count
    a = as_tensor(a)
    n = len(a._shape)
    if axis is None:
        axes = list(range(n))
    else:
        axes = [_axis(k, n) for k in (axis if isinstance(axis, (tuple, list)) else (axis,))]
    keepdims = bool(keepdims) if not isinstance(keepdims, SymTensor) else truth(keepdims)
    shape = []
    for k in range(n):
        if k in axes:
            if keepdims:
                shape.append(ONE)
        else:
            shape.append(a._shape[k])

    def elem(idx):
        full = []
        vs = []
        pos = 0
        for k in range(n):
            if k in axes:
                if keepdims:
                    pos += 1
                v = fresh_var(a._shape[k])
                vs.append(v)
                full.append(Poly.atom(v))
            else:
                full.append(idx[pos])
                pos += 1
        e = a.at(full)
        a._memo.pop(tuple(full), None)
        for v in vs:
            e = e.sum_over(v)
        return e

    dt = a._dt
    if dt.kind == "b":
        dt = np.dtype(np.int64)
    r = SymTensor.make(tuple(shape), elem, dt)
    if getattr(a, "_nn", None) is not None:
        if len(axes) == n:
            r._nn = a._nn
        else:
            r._nnp = a._nn  # vanishes everywhere only if the whole does
    return r


@model("mean")
def m_mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = as_tensor(a)
    n = len(a._shape)
    if axis is None:
        axes = range(n)
    else:
        axes = [_axis(k, n) for k in (axis if isinstance(axis, (tuple, list)) else (axis,))]
    c = ONE
    for k in axes:
        c = c * a._shape[k]
    s = m_sum(a, axis, keepdims=keepdims)
    r = elementwise(
        lambda x: x * apply_fn(("pow", -1), NF.from_poly(c)), s, dt=_float_dt(a)
    )
    r._nn = getattr(s, "_nn", None)
    r._nnp = getattr(s, "_nnp", None)
    return r


@model("prod", "cumsum", "min", "amin", "maximum_", "argmax", "argmin")
def m_unsupported(*a, **k):
    raise Unsupported("reduction without a model")


@model("maximum")
def m_maximum(a, b):
    pa, pb = as_poly(a), as_poly(b)
    if pa is not None and pb is not None:
        return a if bool(a >= b) else b
    return elementwise(lambda x, y: (x + y + apply_fn("abs", x - y)).scale(Fraction(1, 2)), a, b)


@model("minimum")
def m_minimum(a, b):
    pa, pb = as_poly(a), as_poly(b)
    if pa is not None and pb is not None:
        return a if bool(a <= b) else b
    return elementwise(lambda x, y: (x + y - apply_fn("abs", x - y)).scale(Fraction(1, 2)), a, b)


@model("where")
def m_where(c, a, b):
    c_ = as_tensor(c)
    if c_._dt.kind != "b":
        raise Unsupported("where with a non-boolean condition")
    return elementwise(
        lambda x, y, z: x * y + (NF.const(1) - x) * z, c_, a, b, dt=result_dtype(a, b)
    )


@model("matmul", "dot")
def m_matmul(a, b):
    ta, tb = as_tensor(a), as_tensor(b)
    na, nb = len(ta._shape), len(tb._shape)
    if na == 0 or nb == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if na == 1:
        r = m_matmul(m_expand_dims(ta, 0), tb)
        return m_squeeze(r, -2)
    if nb == 1:
        r = m_matmul(ta, m_expand_dims(tb, -1))
        return m_squeeze(r, -1)
    if not dim_eq(ta._shape[-1], tb._shape[-2]):
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    K = ta._shape[-1]
    bs = broadcast_dims([ta._shape[:-2], tb._shape[:-2]])
    shape = bs + (ta._shape[-2], tb._shape[-1])

    def elem(idx):
        batch, i, j = idx[:-2], idx[-2], idx[-1]
        v = fresh_var(K)
        k = Poly.atom(v)
        ea = ta.at(_bidx(ta._shape[:-2], batch) + (i, k))
        ta._memo.pop(_bidx(ta._shape[:-2], batch) + (i, k), None)
        if ea.is_zero():
            return NF()
        eb = tb.at(_bidx(tb._shape[:-2], batch) + (k, j))
        tb._memo.pop(_bidx(tb._shape[:-2], batch) + (k, j), None)
        return (ea * eb).sum_over(v)

    return SymTensor.make(shape, elem, result_dtype(a, b))


def _bidx(dims, batch):
    k = len(dims)
    batch = batch[len(batch) - k :] if k else ()
    return tuple(ZERO if d is ONE else i for d, i in zip(dims, batch))


@model("trace")
def m_trace(a, offset=0, axis1=0, axis2=1, **kw):
    return m_sum(m_diagonal(a, offset, axis1, axis2), -1)


@model("diagonal")
def m_diagonal(a, offset=0, axis1=0, axis2=1):
    a = as_tensor(a)
    n = len(a._shape)
    if offset != 0:
        raise Unsupported("diagonal with an offset")
    i, j = _axis(axis1, n), _axis(axis2, n)
    if n < 2:
        raise ValueError("diag requires an array of at least two dimensions")
    d1, d2 = a._shape[i], a._shape[j]
    d = d1 if decide(("ge", d2 - d1)) else d2
    rest = [k for k in range(n) if k not in (i, j)]

    def elem(idx):
        full = [None] * n
        for pos, k in enumerate(rest):
            full[k] = idx[pos]
        full[i] = full[j] = idx[-1]
        return a.at(full)

    return SymTensor.make(tuple(a._shape[k] for k in rest) + (d,), elem, a._dt)


@model("diag")
def m_diag(a, k=0):
    a = as_tensor(a)
    if k != 0:
        raise Unsupported("diag with an offset")
    if len(a._shape) == 1:
        return SymTensor.make(
            (a._shape[0],) * 2, lambda idx: a.at(idx[:1]).cond(eq(idx[0], idx[1])), a._dt
        )
    if len(a._shape) == 2:
        return m_diagonal(a)
    raise ValueError("Input must be 1- or 2-d.")


def _tri(a, k, lower):
    a = as_tensor(a)
    if len(a._shape) < 2:
        raise Unsupported("tril/triu of a vector")
    kp = as_poly_strict(k)

    def elem(idx):
        e = a.at(idx)
        if lower:
            return e.cond(ge(idx[-2] + kp, idx[-1]))
        return e.cond(ge(idx[-1], idx[-2] + kp))

    return SymTensor.make(a._shape, elem, a._dt)


@model("tril")
def m_tril(a, k=0):
    return _tri(a, k, True)


@model("triu")
def m_triu(a, k=0):
    return _tri(a, k, False)


@model("concatenate", "concat")
def m_concatenate(xs, axis=0, **kw):
    ts = [as_tensor(x) for x in xs]
    if not ts:
        raise ValueError("need at least one array to concatenate")
    n = len(ts[0]._shape)
    if axis is None:
        raise Unsupported("flattening concatenation")
    for t in ts:
        if len(t._shape) != n:
            raise ValueError(
                "all the input array dimensions except for the concatenation axis must match"
            )
    k = _axis(axis, n)
    for t in ts[1:]:
        for d in range(n):
            if d != k and not dim_eq(t._shape[d], ts[0]._shape[d]):
                raise ValueError(
                    "all the input array dimensions except for the concatenation axis must "
                    "match exactly"
                )
    offs = [ZERO]
    for t in ts:
        offs.append(offs[-1] + t._shape[k])
    shape = ts[0]._shape[:k] + (offs[-1],) + ts[0]._shape[k + 1 :]

    def elem(idx):
        out = NF()
        i = idx[k]
        for j, t in enumerate(ts):
            conds = []
            dead = False
            for c in (ge(i, offs[j]), lt(i, offs[j + 1])):
                r = N.BASE.decide(c)
                if r is False:
                    dead = True
                    break
                if r is None:
                    conds.append(c)
            if dead:
                continue
            e = t.at(idx[:k] + (i - offs[j],) + idx[k + 1 :])
            out = out + (e.cond(*conds) if conds else e)
        return out

    dts = [t._dt for t in ts]
    return SymTensor.make(shape, elem, np.result_type(*dts))


@model("stack")
def m_stack(xs, axis=0, **kw):
    ts = [as_tensor(x) for x in xs]
    if len(ts) == 1 and hasattr(ts[0], "_fam"):
        from . import family

        return family.stack(ts[0], _axis(axis, len(ts[0]._shape) + 1))
    return m_concatenate([m_expand_dims(t, _axis(axis, len(t._shape) + 1)) for t in ts], axis=_axis(axis, len(ts[0]._shape) + 1))


@model("split")
def m_split(a, indices, axis=0):
    a = as_tensor(a)
    n = len(a._shape)
    k = _axis(axis, n)
    if isinstance(indices, (int, np.integer)):
        raise Unsupported("split into equal sections")
    cuts = [ZERO] + [as_poly_strict(i) for i in indices] + [a._shape[k]]
    out = []
    for lo, hi in zip(cuts, cuts[1:]):
        out.append(
            SymTensor.make(
                a._shape[:k] + (hi - lo,) + a._shape[k + 1 :],
                lambda idx, lo=lo: a.at(idx[:k] + (idx[k] + lo,) + idx[k + 1 :]),
                a._dt,
            )
        )
    return out


@model("arange")
def m_arange(start, stop=None, step=None, dtype=None, **kw):
    if stop is None:
        start, stop = 0, start
    lo, hi = as_poly(start), as_poly(stop)
    if lo is None or hi is None or step not in (None, 1):
        raise Unsupported("arange")
    if (hi - lo).is_const():
        m = max((hi - lo).const_value(), 0)
        if lo.is_const():
            return np.arange(lo.const_value(), hi.const_value(), dtype=dtype)
    return SymTensor.make((hi - lo,), lambda idx: NF.from_poly(idx[0] + lo), dtype or np.int64)


@model("tile")
def m_tile(a, reps):
    a = as_tensor(a)
    reps = shape_polys(reps)
    n = max(len(a._shape), len(reps))
    reps = (ONE,) * (n - len(reps)) + reps
    sh = (ONE,) * (n - len(a._shape)) + a._shape
    k = n - len(a._shape)

    def elem(idx):
        full = tuple(
            i if r is ONE else (ZERO if d is ONE else mk_mod(i, d))
            for i, r, d in zip(idx, reps, sh)
        )
        return a.at(full[k:])

    return SymTensor.make(tuple(r * d for r, d in zip(reps, sh)), elem, a._dt)


@model("repeat")
def m_repeat(a, repeats, axis=None):
    a = as_tensor(a)
    if axis is None:
        raise Unsupported("flattening repeat")
    r = as_poly_strict(repeats)
    k = _axis(axis, len(a._shape))
    return SymTensor.make(
        a._shape[:k] + (a._shape[k] * r,) + a._shape[k + 1 :],
        lambda idx: a.at(idx[:k] + (mk_div(idx[k], r),) + idx[k + 1 :]),
        a._dt,
    )


def prod_poly(ds):
    p = ONE
    for d in ds:
        p = p * d
    return p


@model("reshape")
def m_reshape(a, shape=None, newshape=None, **kw):
    if shape is None:
        shape = newshape
    a = as_tensor(a)
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    shape = list(shape)
    total = prod_poly(a._shape)
    for pos, d in enumerate(shape):
        if isinstance(d, (int, np.integer)) and not isinstance(d, bool) and d == -1:
            rest = prod_poly([as_poly_strict(x) for q, x in enumerate(shape) if q != pos])
            from .poly import divide_out

            A, R = divide_out(total, rest)
            if R is not ZERO:
                raise Unsupported("reshape with -1 that does not divide")
            shape[pos] = A
    new = shape_polys(shape)
    if not dim_eq(prod_poly(new), total):
        raise ValueError(f"cannot reshape array of size {total!r} into shape {new!r}")
    old = a._shape

    def elem(idx):
        # Match common leading and trailing axes first.
        i, j = 0, len(old)
        p, q = 0, len(new)
        full = [None] * len(old)
        while i < j and p < q and old[i] is new[p]:
            full[i] = idx[p]
            i += 1
            p += 1
        while i < j and p < q and old[j - 1] is new[q - 1]:
            full[j - 1] = idx[q - 1]
            j -= 1
            q -= 1
        # Flatten the rest.
        flat = ZERO
        for k in range(p, q):
            flat = flat * new[k] + idx[k]
        rem = [old[k] for k in range(i, j)]
        for k in range(i, j):
            after = prod_poly(old[k + 1 : j])
            v = mk_div(flat, after)
            if k > i:
                v = mk_mod(v, old[k])
            full[k] = v
        return a.at(full)

    return SymTensor.make(new, elem, a._dt)


@model("ravel")
def m_ravel(a, **kw):
    return m_reshape(a, (-1,))


@model("argsort")
def m_argsort(a, axis=-1, **kw):
    """Of a vector of known length: by case distinction."""
    a = as_tensor(a)
    if len(a._shape) == 1 and not a._shape[0].is_const():
        from .alignloop import Index

        return Index(a._shape[0])
    if len(a._shape) != 1 or a._shape[0].const_value() > 3:
        raise Unsupported("argsort of a vector of symbolic length")
    out = []
    for i in range(a._shape[0].const_value()):
        k = len(out)
        while k > 0 and bool(m_getitem(a, i) < m_getitem(a, out[k - 1])):
            k -= 1
        out.insert(k, i)
    return np.array(out, dtype=np.int64)


@model("flip", "sort", "unique", "einsum", "kron", "outer", "linalg_norm")
def m_unsupported2(*a, **k):
    raise Unsupported("function without a model")


@model("allclose", "isclose", "array_equal")
def m_unsupported3(*a, **k):
    raise Unsupported("function without a model")


class SymIndexList(list):
    """A Python list of symbolic integers in a stated range, of concrete length."""


def m_getitem(a, item):
    if not isinstance(item, tuple):
        item = (item,)
    n = len(a._shape)
    # Count consumed axes.
    consumed = sum(1 for x in item if x is not None and x is not Ellipsis)
    if consumed > n:
        raise IndexError("too many indices for array")
    out_items = []
    seen = False
    for x in item:
        if x is Ellipsis:
            if seen:
                raise IndexError("an index can only have a single ellipsis")
            seen = True
            out_items += [slice(None)] * (n - consumed)
        else:
            out_items.append(x)
    if not seen:
        out_items += [slice(None)] * (n - consumed)
    # Build.
    ax = 0
    maps = []  # per source axis: function of out idx -> poly
    shape = []
    adv = 0
    for x in out_items:
        if x is None:
            shape.append(ONE)
            continue
        d = a._shape[ax]
        if isinstance(x, slice):
            if x.step not in (None, 1):
                if x.step == -1 and x.start is None and x.stop is None:
                    pos = len(shape)
                    shape.append(d)
                    maps.append(lambda idx, pos=pos, d=d: d - ONE - idx[pos])
                    ax += 1
                    continue
                step = as_poly(x.step)
                if step is None or not step.is_const() or not step.const_value():
                    raise Unsupported("slice with a step")
                step = step.const_value()
                if step > 0:
                    lo = _slice_bound(x.start, d, ZERO)
                    hi = _slice_bound(x.stop, d, d)
                    span = hi - lo
                else:
                    lo = _slice_down(x.start, d, d - ONE)
                    hi = _slice_down(x.stop, d, Poly.const(-1))
                    span = lo - hi
                if not decide(("ge", span)):
                    span = ZERO
                pos = len(shape)
                shape.append(mk_div(span + Poly.const(abs(step) - 1), Poly.const(abs(step))))
                maps.append(lambda idx, pos=pos, lo=lo, step=step: idx[pos].scale(step) + lo)
                ax += 1
                continue
            lo = _slice_bound(x.start, d, ZERO)
            hi = _slice_bound(x.stop, d, d)
            if not decide(("ge", hi - lo)):
                hi = lo
            pos = len(shape)
            shape.append(hi - lo)
            maps.append(lambda idx, pos=pos, lo=lo: idx[pos] + lo)
        elif as_poly(x) is not None:
            p = as_poly(x)
            if not decide(("ge", p)):
                p = p + d
                if not decide(("ge", p)):
                    raise IndexError("index out of bounds")
            if not decide(("ge", d - p - ONE)):
                raise IndexError("index out of bounds")
            maps.append(lambda idx, p=p: p)
        elif isinstance(x, (list, np.ndarray)):
            adv += 1
            if adv > 1:
                raise Unsupported("several advanced indices")
            if isinstance(x, SymTensor):
                f = getattr(x, "_index_of", None)
                if f is None:
                    raise Unsupported("indexing by a symbolic tensor")
                if hasattr(x, "_mask_count") and not dim_eq(d, x._shape[0]):
                    raise IndexError("boolean index did not match indexed array along axis")
                hi = atom_upper(next(iter(f(ZERO).atoms())))
                if not decide(("ge", d - hi)):
                    raise Unsupported("index set of another dimension")
                pos = len(shape)
                shape.append(x._index_len)
                maps.append(lambda idx, f=f, pos=pos: f(idx[pos]))
                ax += 1
                continue
            x = list(x)
            if x and all(isinstance(b, (bool, np.bool_)) for b in x):
                if not dim_eq(d, Poly.const(len(x))):
                    raise IndexError("boolean index did not match indexed array along axis")
                x = [k for k, b in enumerate(x) if b]
            ps = []
            for b in x:
                p = as_poly(b)
                if p is None:
                    raise IndexError("only integers are valid indices")
                if not decide(("ge", p)):
                    p = p + d
                    if not decide(("ge", p)):
                        raise IndexError("index out of bounds")
                if not decide(("ge", d - p - ONE)):
                    raise IndexError("index out of bounds")
                ps.append(p)
            pos = len(shape)
            shape.append(Poly.const(len(ps)))
            maps.append(("adv", pos, ps))
        else:
            raise Unsupported(f"index of type {type(x).__name__}")
        ax += 1

    def elem(idx):
        for m in maps:
            if isinstance(m, tuple):
                _, pos, ps = m
                if idx[pos].is_const():
                    p = ps[idx[pos].const_value()]
                    return a.at([p if isinstance(k, tuple) else k(idx) for k in maps])
                out = NF()
                for q, p in enumerate(ps):
                    e = a.at([p if isinstance(k, tuple) else k(idx) for k in maps])
                    out = out + e.cond(eq(idx[pos], Poly.const(q)))
                return out
        return a.at([k(idx) for k in maps])

    return SymTensor.make(tuple(shape), elem, a._dt)


def _slice_down(v, d, default):
    """A bound of a slice with a negative step."""
    if v is None:
        return default
    p = as_poly_strict(v)
    if not decide(("ge", p)):
        p = p + d
        if not decide(("ge", p)):
            return Poly.const(-1)
    if not decide(("ge", d - ONE - p)):
        return d - ONE
    return p


def _slice_bound(x, d, default):
    if x is None:
        return default
    p = as_poly_strict(x)
    if not decide(("ge", p)):
        p = p + d
        if not decide(("ge", p)):
            return ZERO
    if not decide(("ge", d - p)):
        return d
    return p


for _op, _uf in {
    "add": "add",
    "sub": "subtract",
    "mul": "multiply",
    "truediv": "divide",
    "pow": "power",
    "matmul": "matmul",
}.items():
    setattr(SymTensor, f"__{_op}__", _mk_op(_uf, False))
    setattr(SymTensor, f"__r{_op}__", _mk_op(_uf, True))
for _op, _uf in {
    "eq": "equal",
    "ne": "not_equal",
    "lt": "less",
    "le": "less_equal",
    "gt": "greater",
    "ge": "greater_equal",
    "and": "logical_and",
    "or": "logical_or",
}.items():
    setattr(SymTensor, f"__{_op}__", _mk_op(_uf, False))
SymTensor.__neg__ = lambda self: m_negative(self)
SymTensor.__pos__ = lambda self: self
SymTensor.__abs__ = lambda self: m_abs(self)
SymTensor.__invert__ = lambda self: m_logical_not(self)


# ------------------------------------------------------------------ proxy


def contains_symbolic(x, depth=0):
    if isinstance(x, (SymInt, SymTensor, SymBool)):
        return True
    if depth < 3 and isinstance(x, (tuple, list)):
        return any(contains_symbolic(y, depth + 1) for y in x)
    return False


SYMBOLIC = [False]  # Are we in symbolic execution?
ALWAYS = {"zeros", "ones", "eye", "full", "identity"}


class NpProxy:
    """Stands for the module `np` in LAB's NumPy backend and in the code under proof."""

    def __init__(self, real, prefix=""):
        self.__dict__["_real"] = real
        self.__dict__["_prefix"] = prefix

    def __getattr__(self, name):
        r = getattr(self._real, name)
        if name == "linalg" and self._prefix == "":
            return NpProxy(r, "linalg.")
        m = MODELS.get(self._prefix + name)
        if m is None:
            return r

        def f(*args, **kw):
            if SYMBOLIC[0] and (
                name in ALWAYS
                or contains_symbolic(args)
                or contains_symbolic(tuple(kw.values()))
            ):
                return m(*args, **kw)
            return r(*args, **kw)

        f.__name__ = name
        return f
