"""Arguments of an obligation, in symbolic or in concrete mode.

An obligation is written once, against a `World`.  In symbolic mode its dimensions are
`SymInt`s and its tensors `SymTensor`s; in concrete mode they are random Python integers
and NumPy arrays, which is what replays and cross-checks run on.
"""

import numpy as np

from . import nf as N
from .hooks import B, npx
from .nf import NF, eq, ge, lt
from .poly import ONE, Poly, ZERO, dim_atom, intern_atom
from .symt import SymTensor, as_poly, mk_int


class World:
    def __init__(self, mode, rng=None, dims=None, style=None, dtype=np.float64):
        self.mode = mode  # 'sym' or 'num'
        self.style = style  # num: None or 'special' (zeros, small integers, copies)
        self.rng = rng
        self.dimsub = dims or {}  # sym: name -> Poly or lower bound; num: name -> int
        self.dims = {}
        self.tensors = {}
        self.dtype = np.dtype(dtype)
        self.dtypes = {}  # by name of the operand
        self.notes = {}
        self.assumptions = []
        self.lazy = False
        self.least = 2  # the smallest matrix dimension

    @property
    def sym(self):
        return self.mode == "sym"

    # ---- dimensions
    def dim(self, name, lb=2):
        if name in self.dims:
            return self.dims[name]
        if self.sym:
            p = self._resolve(name, lb)
            v = mk_int(p)
        else:
            v = self.dimsub.get(name)
            if v is None:
                used = set(self.dims.values())
                opts = [lb + k for k in (0, 1, 2, 3, 6)]
                w = [0.34, 0.33, 0.19, 0.1, 0.04]
                v = int(self.rng.choice(opts, p=w))
                if v in used and self.rng.random() < 0.7:
                    free = [o for o in opts if o not in used]
                    if free:
                        v = int(free[0])
        self.dims[name] = v
        return v

    def _resolve(self, name, lb):
        sub, lbs = self.dimsub.get("sub", {}), self.dimsub.get("lb", {})
        lb = max(lb, lbs.get(name, lb))
        if name in sub:
            return self._resolve_poly(sub[name])
        return Poly.atom(dim_atom(name, lb))

    def _resolve_poly(self, p):
        from .poly import ATOMS

        sub, lbs = self.dimsub.get("sub", {}), self.dimsub.get("lb", {})
        for _ in range(20):
            s = {}
            for a in p.all_atoms():
                k = ATOMS[a]
                if k[0] == "dim":
                    if k[1] in sub:
                        s[a] = sub[k[1]]
                    elif lbs.get(k[1], k[2]) > k[2]:
                        s[a] = Poly.atom(dim_atom(k[1], lbs[k[1]]))
            if not s:
                return p
            p = p.subst(s)
        return p

    # ---- tensors
    def T(self, name, shape, kind=None, dtype=None):
        """A tensor.  `kind`: None, 'pos', 'lower', 'upper', 'ltpos', 'utpos', 'psd',
        'inv' (well-conditioned square), 'zero'."""
        dtype = np.dtype(dtype or self.dtype)
        if self.sym:
            ps = tuple(as_poly(d) for d in shape)
            info = {}
            if kind == "pos":
                info["positive"] = True
            if kind == "psd":
                info["sym"] = True
            if kind in ("ltpos", "utpos"):
                info["positive"] = "diag"
            N.TENSORS[name] = info

            def elem(idx):
                e = NF.elem(name, tuple(ZERO if d is ONE else i for d, i in zip(ps, idx)))
                if kind in ("lower", "ltpos"):
                    e = e.cond(ge(idx[-2], idx[-1]))
                if kind in ("upper", "utpos"):
                    e = e.cond(ge(idx[-1], idx[-2]))
                return e

            t = SymTensor.make(ps, elem, dtype)
        else:
            shape = tuple(int(d) for d in shape)
            if dtype.kind in "iu":
                x = self.rng.integers(1, 6, size=shape).astype(dtype)
            elif dtype.kind == "b":
                x = self.rng.random(size=shape) < 0.5
            else:
                x = self.rng.standard_normal(size=shape)
                if self.style == "special":
                    x = self._special(x, shape)
            if kind == "pos":
                x = np.abs(x) + 0.5
            elif kind in ("lower", "ltpos"):
                x = np.tril(x)
            elif kind in ("upper", "utpos"):
                x = np.triu(x)
            elif kind == "psd":
                n = shape[-1]
                x = np.matmul(x, np.swapaxes(x, -1, -2)) + (0.5 + n) * np.eye(n)
            elif kind == "inv":
                n = shape[-1]
                x = x + (2.0 + n) * np.eye(n)
            if kind in ("ltpos", "utpos", "ltinv", "utinv"):
                n = shape[-1]
                e = np.eye(n)
                x = x * (1 - e) + (np.abs(x) + 0.75 + 0.25 * n) * e
            t = np.asarray(x, dtype=dtype) if not isinstance(x, np.ndarray) else x.astype(dtype)
        self.tensors[name] = t
        return t

    def index(self, name, n, kind="idx"):
        """An ordered index set into a dimension of size `n`: a vector of indices, in
        increasing order ('idx', or 'list' and 'tuple' in concrete mode) or a mask
        ('mask').  Of arbitrary positive length."""
        if self.sym:
            k = as_poly(self.dim(name + "_k", 1))
            np_ = as_poly(n)

            def at(p):
                return Poly.atom(intern_atom(("app", "incr:" + name, (p,), np_)))

            if kind == "mask":

                def elem(idx):
                    raise N.Unsupported("entry of a mask")

                t = SymTensor.make((np_,), elem, np.dtype(bool), simp=False)
                t._mask_count = mk_int(k)
            else:
                t = SymTensor.make((k,), lambda idx: NF.from_poly(at(idx[0])), np.dtype(np.int64))
            t._index_of, t._index_len = at, k
            return t
        n = int(n)
        k = self.dimsub.get(name + "_k") or int(self.rng.integers(1, n + 1))
        k = self.dims[name + "_k"] = min(k, n)
        idx = np.sort(self.rng.permutation(n)[:k])
        if kind == "mask":
            m = np.zeros(n, dtype=bool)
            m[idx] = True
            u = self.rng.random()
            return m if u < 0.7 else [bool(x) for x in m] if u < 0.85 else tuple(bool(x) for x in m)
        u = self.rng.random()
        return idx if u < 0.6 else [int(x) for x in idx] if u < 0.8 else tuple(int(x) for x in idx)

    def _special(self, x, shape):
        u = self.rng.random()
        if u < 0.2:
            return np.zeros(shape)
        if u < 0.4:
            return np.asarray(np.clip(np.round(x), -2, 2))
        if u < 0.6:
            same = [t for t in self.tensors.values() if t.shape == shape and t.dtype.kind == "f"]
            if same:
                return np.array(same[int(self.rng.integers(len(same)))], dtype=float)
        if u < 0.75 and len(shape) >= 2 and shape[-1] > 1:
            # Repeated and permuted columns, of this tensor or of another one.
            src = x
            same = [
                t
                for t in self.tensors.values()
                if t.ndim == len(shape) and t.shape[:-1] == shape[:-1] and t.dtype.kind == "f"
            ]
            if same and self.rng.random() < 0.7:
                src = np.concatenate([x, same[int(self.rng.integers(len(same)))]], axis=-1)
            return np.array(src[..., self.rng.integers(src.shape[-1], size=shape[-1])], dtype=float)
        if u < 0.85:
            return np.ones(shape)
        return x

    def scalar(self, name, kind=None, dtype=None):
        """A scalar: a Python float in concrete mode, a 0-d symbolic tensor otherwise."""
        t = self.T(name, (), kind, dtype)
        if self.sym:
            t._weak = True
            return t
        return float(t) if np.dtype(dtype or self.dtype).kind == "f" else int(t)
