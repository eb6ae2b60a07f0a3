"""Obligations, their symbolic discharge, and their concrete replay."""

import itertools
import re
import signal
import sys
import time
import traceback

import numpy as np

from . import hooks
from . import den as D
from . import linalg, nf as N, symt
from .ctx import Ctx, model_of
from .hooks import B, WARNINGS
from .nf import NF, Unsupported
from .poly import ATOMS, ONE, Poly, ZERO, named_var
from .symt import Fork, MutationAttempt, SymTensor, SYMBOLIC, ValueFork, as_poly, as_tensor
from .world import World

MAX_PATHS = 120


class Timeout(BaseException):
    pass


class Failure(Exception):
    """A contract clause that does not hold."""

    def __init__(self, clause, detail, undecided=False):
        super().__init__(f"{clause}: {detail}")
        self.clause, self.detail, self.undecided = clause, detail, undecided
        self.near = False  # a small difference in value


class Skip(Exception):
    """The configuration's precondition does not hold on this path."""


class Obligation:
    def __init__(self, name, fn, functions=(), bounded=None, trials=None, tags=(), thorough=False):
        self.name = name
        self.fn = fn
        self.functions = tuple(functions)
        self.bounded = bounded  # statement of a bound, if this is a stand-in
        self.trials = trials
        self.tags = set(tags)
        self.thorough = thorough


class Checker:
    """What an obligation's function uses to state its clauses."""

    def __init__(self, w):
        self.w = w
        self.clauses = 0
        self.log = []
        self.maps = []  # linear maps that may be applied to what is assumed to be zero

    # ---- value clauses
    def equal(self, got, want, what="value", rtol=1e-6, atol=1e-8, shape=True):
        """Tensor `got` equals tensor `want` in shape and in every element."""
        self.clauses += 1
        if self.w.sym:
            self._equal_sym(got, want, what, shape)
        else:
            self._equal_num(got, want, what, rtol, atol, shape)

    def _equal_sym(self, got, want, what, shape):
        g, x = as_tensor(got), as_tensor(want)
        if shape:
            if len(g._shape) != len(x._shape):
                raise Failure(what + "/shape", f"rank {g._shape} instead of {x._shape}")
            for k, (a, b) in enumerate(zip(g._shape, x._shape)):
                if a is not b and not symt.decide(("eq", a - b)):
                    raise Failure(what + "/shape", f"{g._shape} instead of {x._shape}")
        dims = x._shape
        opts = [
            [Poly.const(i) for i in range(d.const_value())]
            if d.is_const() and d.const_value() <= 3
            else [Poly.atom(named_var(f"i{k}", d))]
            for k, d in enumerate(dims)
        ]
        for idx in itertools.product(*opts):
            self._equal_at(g, x, idx, what)

    def _equal_at(self, g, x, idx, what):
        d = g.bat(idx) - x.bat(idx)
        r = N.prove_zero(d, rewriter=linalg.rewrite)
        if r is not None and N.ZEROS:
            r = self._by_ghosts(d, idx, r)
        if r is not None:
            res, ctx = r
            raise Failure(
                what,
                f"residual {str(res)[:400]} under {[c for c in ctx.premises][:6]}",
                undecided=True,
            )

    def _by_ghosts(self, d, idx, r):
        """Use what the path assumes to be zero: tensors, and products with them."""
        hyps = []
        for z in N.ZEROS:
            if len(z._shape) <= len(idx):
                hyps.append(z)
            for g in list(linalg.GHOSTS):
                m = g._middle
                if m is None:
                    continue
                m = D.den(m)
                if m._shape == z._shape:
                    ix = tuple(
                        ZERO if k is ONE else Poly.atom(named_var(f"z{n}", k))
                        for n, k in enumerate(z._shape)
                    )
                    if N.prove_zero(m.at(ix) - z.at(ix)) is None:
                        hyps.append(D.den(g))
        for f in self.maps:
            for h in list(hyps):
                try:
                    hyps.append(as_tensor(f(h)))
                except (ValueError, AssertionError):
                    pass
        for h in hyps:
            try:
                e = h.bat(idx[len(idx) - len(h._shape):] if len(h._shape) < len(idx) else idx)
            except Exception:
                continue
            for s in (1, -1):
                r2 = N.prove_zero(d + e.scale(s), rewriter=linalg.rewrite)
                if r2 is None:
                    return None
        return r

    def _equal_num(self, got, want, what, rtol, atol, shape):
        g, x = np.asarray(got), np.asarray(want)
        if shape and g.shape != x.shape:
            raise Failure(what + "/shape", f"{g.shape} instead of {x.shape}")
        if g.dtype == object or x.dtype == object:
            raise Failure(what, f"object array {g!r}")
        fin = np.isfinite(np.asarray(x, dtype=np.result_type(x.dtype, np.float64)))
        if not fin.all():
            raise Skip("oracle not finite")
        scale = max(1.0, float(np.max(np.abs(x))) if x.size else 1.0)
        if rtol and (g.dtype.itemsize <= 4 and g.dtype.kind == "f" or x.dtype.itemsize <= 4 and x.dtype.kind == "f"):
            rtol, atol = max(rtol, 1e-3), max(atol, 1e-3)
        err = np.abs(np.asarray(g, dtype=float) - np.asarray(x, dtype=float))
        ok = err <= atol + rtol * scale
        if not bool(np.all(ok)):
            w = np.unravel_index(int(np.argmax(np.where(np.isnan(err), np.inf, err))), g.shape) if g.ndim else ()
            f = Failure(
                what, f"element {tuple(int(i) for i in w)} is {np.asarray(g)[w]!r} instead of {np.asarray(x)[w]!r}"
            )
            f.near = bool(np.max(err) <= 1e-3 * scale)
            raise f

    def matrix(self, res, want, what="result", rtol=1e-6, atol=1e-8, dense=True):
        """`res` (matrix object or tensor) denotes `want`: by the abstraction function and
        by the code's own conversion to dense; and its reported shape is right."""
        want = D.den(want)
        from matrix.matrix import AbstractMatrix

        if isinstance(res, AbstractMatrix):
            self.invariant(res, what)
            self.equal(D.den(res), want, what, rtol, atol)
            if dense:
                sh = tuple(B.shape(res))
                self.true(len(sh) == len(D.shp(want)), what + "/reported-rank")
                for a, b in zip(sh, D.shp(want)):
                    self.true(bool(D.unwrap(a) == D.unwrap(b)), what + "/reported-shape")
                self.equal(B.dense(res), want, what + "/dense", rtol, atol)
        else:
            self.equal(D.den(res), want, what, rtol, atol)

    def true(self, cond, what, detail=""):
        self.clauses += 1
        if not cond:
            raise Failure(what, detail or "clause is false")

    def dtype(self, got, want, what="dtype"):
        self.clauses += 1
        if np.dtype(got) != np.dtype(want):
            raise Failure(what, f"{np.dtype(got)} instead of {np.dtype(want)}")

    # ---- representation invariants
    def invariant(self, x, what="result"):
        """Representation invariant of a matrix object: triangular matrices have zeros in
        the other triangle; caches are empty or right."""
        from matrix import LowerTriangular, UpperTriangular
        from matrix.matrix import AbstractMatrix

        for o in walk(x):
            if isinstance(o, (LowerTriangular, UpperTriangular)):
                t = D.den(o)
                tri = hooks.npx.tril(t) if isinstance(o, LowerTriangular) else hooks.npx.triu(t)
                self.equal(t, tri, what + "/triangular", rtol=1e-9, atol=1e-9)
            c = getattr(o, "dense", None)
            if isinstance(c, np.ndarray):
                self.equal(c, D.den(o), what + "/dense-cache")

    def raises(self, f, what):
        """`f` must raise an exception (any ordinary exception will do)."""
        self.clauses += 1
        try:
            r = f()
        except Exception:
            return
        # Laziness: force the value.
        try:
            if isinstance(r, (tuple, list)):
                r = r[0]
            B.dense(r)
        except Exception:
            return
        raise Failure(what, f"accepted, and returned {type(r).__name__}")


def walk(x):
    """All matrix objects reachable through the data fields of `x`."""
    from matrix.matrix import AbstractMatrix

    if isinstance(x, (tuple, list)):
        for y in x:
            yield from walk(y)
        return
    if not isinstance(x, AbstractMatrix):
        return
    yield x
    if hasattr(x, "_mcv_den"):
        return
    for k, v in list(vars(x).items()):
        if k in ("cholesky", "schur", "_middle_default"):
            continue
        if isinstance(v, (AbstractMatrix, tuple, list)):
            yield from walk(v)


# ------------------------------------------------------------------ symbolic run


def item_key(it):
    return repr(it)


class Path:
    def __init__(self, sub=None, lb=None, prem=(), values=None):
        self.sub = sub or {}
        self.lb = lb or {}
        self.prem = tuple(prem)
        self.values = values or {}

    def world(self, ob=None):
        w = World("sym", dims={"sub": self.sub, "lb": self.lb})
        w.least = least(ob)
        return w


def fork_items(path, cond):
    """The two refinements of `path` by `cond` and its negation."""
    kind, p = cond
    out = []
    if kind == "eq":
        # true branch: substitute a dimension
        done = False
        if all(ATOMS[a][0] == "dim" for a in p.all_atoms()):
            cands = []
            if len(p.t) == 2 and sum(c for _, c in p.t) == 0 and p.coef(()) != 0 and all(p.linear_in(a) is None for a in p.atoms()):
                # A product of dimensions is one only if all of them are.
                ones = {ATOMS[a][1]: ONE for a in p.atoms()}
                out.append(Path({**path.sub, **ones}, path.lb, path.prem, path.values))
                done = True
            for a in sorted(p.atoms()) if not done else ():
                c = p.linear_in(a)
                if c in (1, -1):
                    expr = (Poly.atom(a).scale(c) - p).scale(c)
                    cands.append((len(expr.t), a, expr))
            for _, a, expr in sorted(cands, key=lambda x: (x[0], -x[1])):
                name, lb = ATOMS[a][1], ATOMS[a][2]
                sub = dict(path.sub)
                sub[name] = expr
                prem = path.prem
                if not N.quick_nonneg(expr.shift(-lb)):
                    prem = prem + (("ge", expr.shift(-lb)),)
                out.append(Path(sub, path.lb, prem, path.values))
                done = True
                break
        if not done:
            out.append(Path(path.sub, path.lb, path.prem + (cond,), path.values))
        # false branch
        neg = None
        ats = [a for a in p.atoms()]
        if len(ats) == 1 and ATOMS[ats[0]][0] == "dim" and len(p.t) == 2 and p.linear_in(ats[0]) in (1, -1):
            a = ats[0]
            val = -p.coef(()) * p.linear_in(a)
            if val == ATOMS[a][2]:
                lb = dict(path.lb)
                lb[ATOMS[a][1]] = val + 1
                neg = Path(path.sub, lb, path.prem, path.values)
        out.append(neg or Path(path.sub, path.lb, path.prem + (("ne", p),), path.values))
    else:
        def ge_item(q):
            ats = list(q.atoms())
            if len(ats) == 1 and ATOMS[ats[0]][0] == "dim" and len(q.t) == 2 and q.linear_in(ats[0]) is not None:
                a = ats[0]
                c = q.linear_in(a)
                name, lb0 = ATOMS[a][1], ATOMS[a][2]
                k = q.coef(())
                if c == 1:
                    lb = dict(path.lb)
                    lb[name] = max(lb0, -k)
                    return Path(path.sub, lb, path.prem, path.values)
                if c == -1 and k == lb0:
                    sub = dict(path.sub)
                    sub[name] = Poly.const(lb0)
                    return Path(sub, path.lb, path.prem, path.values)
            return Path(path.sub, path.lb, path.prem + (("ge", q),), path.values)

        out.append(ge_item(p))
        out.append(ge_item((-p).shift(-1)))
    return out


def resolve_premises(path, w):
    return tuple((k, w._resolve_poly(p)) for k, p in path.prem)


def run_symbolic(ob, budget=20.0):
    """Discharge an obligation.  Returns a dict with `status` in
    proved | failed | undecided | unsupported | error, and details.  The budget is in
    seconds of processor time, so that the result does not depend on the load."""
    t0 = time.process_time()
    items = [Path()]
    npaths = 0
    clauses = 0
    worst = None
    reasons = []
    while items:
        it = items.pop()
        npaths += 1
        if npaths > MAX_PATHS:
            return dict(status="undecided", reason="too many paths", paths=npaths, clauses=clauses, t=time.process_time() - t0)
        w = it.world(ob)
        ctx = Ctx(None, resolve_premises(it, w))
        ctx.values = it.values
        if ctx.premises and not ctx.consistent():
            continue
        linalg.reset()
        N.set_base(ctx)
        WARNINGS.clear()
        SYMBOLIC[0] = True
        ck = Checker(w)
        left = budget - (time.process_time() - t0)
        try:
            if left <= 0.05:
                raise Timeout()
            _alarm(left, signal.ITIMER_PROF)
            ob.fn(w, ck)
            _alarm(0)
            clauses += ck.clauses
        except Fork as f:
            _alarm(0)
            items.extend(fork_items(it, f.cond))
        except ValueFork as f:
            _alarm(0)
            for v in (True, False):
                vals = dict(it.values)
                vals[f.key] = v
                items.append(Path(it.sub, it.lb, it.prem, vals))
        except Skip as e:
            _alarm(0)
            continue
        except Failure as e:
            _alarm(0)
            return dict(
                status="failed",
                clause=e.clause,
                reason=e.detail,
                undecided=e.undecided,
                path=describe(it),
                it=it,
                paths=npaths,
                clauses=clauses,
                t=time.process_time() - t0,
            )
        except Unsupported as e:
            _alarm(0)
            return dict(status="unsupported", reason=str(e), paths=npaths, clauses=clauses, t=time.process_time() - t0)
        except Timeout:
            _alarm(0)
            return dict(status="undecided", reason="time limit", paths=npaths, clauses=clauses, t=time.process_time() - t0)
        except RecursionError as e:
            _alarm(0)
            return dict(status="unsupported", reason="recursion limit", paths=npaths, clauses=clauses, t=time.process_time() - t0)
        except Exception as e:
            _alarm(0)
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = [f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-5:]]
            mine = any("/mcv/" in f.filename and "run.py" not in f.filename for f in tb[-1:])
            return dict(
                status="failed",
                clause="exception",
                reason=f"{type(e).__name__}: {str(e)[:300]} at {where}",
                undecided=True,
                path=describe(it),
                it=it,
                paths=npaths,
                clauses=clauses,
                t=time.process_time() - t0,
            )
        finally:
            _alarm(0)
            SYMBOLIC[0] = False
            N.set_base(Ctx())
    return dict(
        status="proved" if clauses else "vacuous",
        paths=npaths,
        clauses=clauses,
        t=time.process_time() - t0,
    )


def describe(it):
    return dict(
        sub={k: repr(v) for k, v in it.sub.items()},
        lb=dict(it.lb),
        prem=[f"{p!r} {k}" for k, p in it.prem],
        values=[f"{k[0]} {str(k[1])[:200]} is {v}" for k, v in it.values.items()],
    )


def _handler(signum, frame):
    raise Timeout()


def _alarm(t, timer=signal.ITIMER_REAL):
    if t <= 0:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
    else:
        signal.signal(signal.SIGALRM, _handler)
        signal.signal(signal.SIGPROF, _handler)
        signal.setitimer(timer, t)


# ------------------------------------------------------------------ concrete run


# Obligations about matrix dimensions of at least two; all others start from one.
TWO = re.compile(r"^C17|^C18:(submatrix|take)|^C13:(submatrix.*wb|.*list=|.*getitem)|^C16:.*(list=|take|submatrix|getitem)|^C(08|09|10|16|19|20):.*wb|^C19:.*R=const")


def least(ob):
    return 2 if ob is None or TWO.search(ob.name) else 1


# Properties whose concrete runs also use lazily wrapped dimensions (see DESIGN.md).
LAZY = {"C01", "C02", "C03", "C06", "C14"}


def run_concrete(ob, seed, dims=None, dtype=np.float64, style=None):
    """One concrete execution.  Returns None if fine, or a dict describing the failure."""
    rng = np.random.default_rng(seed)
    w = World("num", rng=rng, dims=dict(dims or {}), dtype=dtype, style=style)
    w.lazy = ob.name[:3] in LAZY
    w.least = least(ob)
    ck = Checker(w)
    SYMBOLIC[0] = False
    N.set_base(Ctx())
    eps = B.epsilon
    WARNINGS.clear()
    try:
        with np.errstate(all="ignore"):
            ob.fn(w, ck)
        return None
    except Skip:
        return None
    except Failure as e:
        return dict(clause=e.clause, detail=e.detail, dims=dict(w.dims), seed=seed, style=style, near=e.near)
    except Timeout:
        raise
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = [f"{f.filename}:{f.lineno}" for f in tb[-4:]]
        return dict(
            clause="exception",
            detail=f"{type(e).__name__}: {str(e)[:300]} at {where}",
            dims=dict(w.dims),
            seed=seed,
            style=style,
        )


def path_dims(it, ob):
    """Concrete dimensions that follow a symbolic path, by a solver model."""
    w = it.world(ob)
    names = {}
    try:
        SYMBOLIC[0] = True
        linalg.reset()
        ctx = Ctx(None, resolve_premises(it, w))
        ctx.values = it.values
        N.set_base(ctx)
        try:
            _alarm(10)
            ob.fn(w, Checker(w))
        except BaseException:
            pass
        finally:
            _alarm(0)
        atoms = set()
        polys = {}
        for name, v in w.dims.items():
            p = as_poly(v)
            polys[name] = p
            atoms |= p.all_atoms()
        conds = list(ctx.premises)
        extra = [a for a in atoms if ATOMS[a][0] == "dim"]
        # Prefer distinct small values.
        m = None
        for bound in (4, 6, 12):
            cs = conds + [("ge", Poly.const(bound) - Poly.atom(a)) for a in extra]
            ds = [
                ("ne", Poly.atom(a) - Poly.atom(b))
                for i, a in enumerate(extra)
                for b in extra[i + 1 :]
            ]
            m = model_of(cs + ds, extra) or model_of(cs, extra)
            if m:
                break
        if m is None:
            return None
        out = {}
        for name, p in polys.items():
            q = p.subst({a: Poly.const(v) for a, v in m.items()})
            if not q.is_const():
                return None
            out[name] = q.const_value()
        return out
    finally:
        SYMBOLIC[0] = False
        N.set_base(Ctx())
