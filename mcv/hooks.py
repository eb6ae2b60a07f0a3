"""Import the code under proof from /repo with symbolic execution hooked in.

Nothing in /repo is edited.  Hooked are: the name `np` in LAB's NumPy backend and in the
modules of the code under proof (it becomes a proxy that uses the models of `symt.py` when
symbolic values are involved), LAB's triangular solver, and the emission of warnings, which
is recorded.
"""

import os
import sys
import types

os.environ.setdefault("JAX_ENABLE_X64", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
REPO = os.environ.get("MCV_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import warnings

warnings.filterwarnings("ignore")
warnings.showwarning = lambda *a, **k: None

import numpy as np

# Record warnings instead of emitting them: `warn_upmodule` walks the stack, which is slow.
import wbml.warning

WARNINGS = []


def _record(*args, **kw):
    WARNINGS.append((args, kw))


_real_warn_upmodule = wbml.warning.warn_upmodule
wbml.warning.warn_upmodule = _record

import lab as B  # noqa: E402

assert getattr(B, "__name__", "") == "lab"
import matrix  # noqa: E402

assert os.path.realpath(matrix.__file__).startswith(os.path.realpath(REPO) + os.sep), (
    matrix.__file__
)

from . import poly, symt  # noqa: E402
from . import aligncontract  # noqa: E402
from . import family  # noqa: E402
from . import linalg  # noqa: E402
from .symt import NpProxy, SYMBOLIC, SymInt, SymTensor  # noqa: E402

npx = NpProxy(np)
CONTRACTS = [True]  # Use contracts in place of bodies where there are any.
ALIGN_CALLS = [0]


def _install():
    import types

    done = set()
    for f in (B.zeros, B.matmul, B.reshape, B.randn):
        f._resolve_pending_registrations()
    mods = []
    import lab.types

    # Globals of LAB's NumPy backend, found through the implementations.
    funs = [B.zeros, B.matmul, B.reshape, B.randn, B.inv, B.tile]
    for f in funs:
        for m in list(f.methods):
            g = getattr(m, "implementation", m)
            while hasattr(g, "__wrapped__"):
                g = g.__wrapped__
            gl = getattr(g, "__globals__", None)
            if gl is None or id(gl) in done:
                continue
            if gl.get("__name__", "").startswith("lab") and gl.get("np") is np:
                done.add(id(gl))
                gl["np"] = npx
    for name, mod in list(sys.modules.items()):
        if name == "matrix" or name.startswith("matrix."):
            if getattr(mod, "np", None) is np:
                mod.np = npx
            if getattr(mod, "warn_upmodule", None) is _real_warn_upmodule:
                mod.warn_upmodule = _record

    # `min` of symbolic dimensions is a term instead of a case distinction.
    real_min = min

    def sym_min(*xs, **kw):
        ys = xs[0] if len(xs) == 1 and isinstance(xs[0], (tuple, list)) else xs
        if SYMBOLIC[0] and not kw and len(ys) == 2 and any(isinstance(y, SymInt) for y in ys):
            return symt.mk_int(poly.mk_min(symt.as_poly(ys[0]), symt.as_poly(ys[1])))
        return real_min(*xs, **kw)

    for name, mod in list(sys.modules.items()):
        if (name == "matrix" or name.startswith("matrix.")) and "min" not in vars(mod):
            mod.min = sym_min

    # Ghost state: the low-rank matrices constructed so far.
    real_init = matrix.LowRank.__init__

    def __init__(self, *args, **kw):
        real_init(self, *args, **kw)
        if SYMBOLIC[0]:
            linalg.GHOSTS.append(self)

    __init__.__wrapped__ = real_init
    matrix.LowRank.__init__ = __init__

    # `align` is replaced by its contract while its callers are verified symbolically.
    from matrix.ops.algorithms import align as _al_mod

    real_align = getattr(_al_mod, "align", _al_mod)
    if callable(real_align):

        def align(a, b):
            if SYMBOLIC[0] and CONTRACTS[0] and not B.control_flow.use_cache:
                r = aligncontract.stub(a, b)
                if r is not None:
                    ALIGN_CALLS[0] += 1
                    return r
            return real_align(a, b)

        align.__wrapped__ = real_align
        for name, mod in list(sys.modules.items()):
            if name == "matrix" or name.startswith("matrix."):
                if getattr(mod, "align", None) is real_align:
                    mod.align = align

    # LAB's triangular solver loops over the batch with SciPy: its assumed contract.
    real = B.triangular_solve

    @B.dispatch(precedence=5)
    def triangular_solve(a: SymTensor, b: SymTensor, lower_a: bool = True):
        return linalg.triangular_solve(a, b, lower_a)

    @B.dispatch(precedence=5)
    def cholesky(a: SymTensor):
        # LAB adds `np.maximum(1 * B.epsilon, B.epsilon)` to the diagonal: idealised to zero,
        # but a number of double precision.
        return linalg.cholesky(symt.m_cast(a, symt.result_dtype(a, np.float64(0))))

    @B.dispatch(precedence=5)
    def cholesky_solve(a: SymTensor, b: SymTensor):
        t = linalg.triangular_solve(a, b, True)
        return linalg.triangular_solve(symt.m_swapaxes(a, -1, -2), t, False)

    # Lists of symbolic length.
    import lab.shaping

    real_unstack = lab.shaping._unstack

    @lab.shaping.dispatch(precedence=5)
    def _unstack(a: SymTensor, axis: B.Int = 0):
        if a._shape and not a._shape[symt._axis(axis, a.ndim)].is_const():
            return family.unstack(a, axis)
        return [x.squeeze(axis=axis) for x in symt.m_split(a, range(1, a.shape[axis]), axis)]

    for name, mod in list(sys.modules.items()):
        if name.startswith("matrix.ops"):
            for f in {id(x): x for v in list(vars(mod).values()) for x in functions(v) if x.__module__ == name}.values():
                family.compile_lists(f)

    @B.dispatch(precedence=5)
    def take(a: SymTensor, indices_or_mask, axis: B.Int = 0):
        return m_take(a, indices_or_mask, axis)


def functions(v):
    """The functions that a name of a module stands for, or implements."""
    if isinstance(v, types.FunctionType):
        return [v]
    if hasattr(v, "methods") and hasattr(v, "_resolve_pending_registrations"):
        v._resolve_pending_registrations()
        return [x for x in (getattr(m, "implementation", None) for m in v.methods) if isinstance(x, types.FunctionType)]
    return []


def m_take(a, indices_or_mask, axis=0):
    from .symt import m_getitem

    if isinstance(indices_or_mask, aligncontract.Perm):
        return aligncontract.take(a, indices_or_mask, axis)
    n = a.ndim
    ax = axis + n if axis < 0 else axis
    if not 0 <= ax < n:
        raise ValueError("axis cannot be resolved")
    sel = indices_or_mask if isinstance(indices_or_mask, SymTensor) else list(indices_or_mask)
    if np.ndim(sel) != 1 and not (isinstance(sel, SymTensor) and sel.ndim == 1):
        raise ValueError("Indices or mask must be rank 1.")
    item = tuple(
        sel if k == ax else slice(None, None, None) for k in range(n)
    )
    return m_getitem(a, item)


_install()
