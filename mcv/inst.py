"""Instances: matrix objects of every type together with their denotation, built from the
arguments of the constructors."""

import numpy as np

from . import hooks  # noqa: F401  (first)
from lab.shape import Dimension
from matrix import (
    Constant,
    Dense,
    Diagonal,
    Kronecker,
    LowerTriangular,
    LowRank,
    TiledBlocks,
    UpperTriangular,
    Woodbury,
    Zero,
)

from . import den as D
from .hooks import B, npx


class Ax:
    """A matrix dimension, with the ways in which it decomposes: `kron`, the dimensions of
    Kronecker factors, and `tile`, pairs of a repetition and the size of a block."""

    def __init__(self, size, kron=None, tile=None):
        self.size, self.kron, self.tile = size, kron, tile


ONE_AX = Ax(1, (1, 1), ((1, 1),))


def axis(w, name, kron=False, tile=False):
    if kron:
        n1, n2 = w.dim(name + "1", w.least), w.dim(name + "2", w.least)
        if kron == "same":
            n2 = n1
        if kron in ("Lone", "LRone"):
            n1 = 1
        if kron in ("Rone", "LRone"):
            n2 = 1
        return Ax(n1 * n2, (n1, n2), ((n1, n2),))
    if tile:
        plan = tuple((w.dim(f"{name}q{k}", w.least), w.dim(f"{name}h{k}", w.least)) for k in range(1, tile + 1))
        return Ax(sum((q * h for q, h in plan[1:]), plan[0][0] * plan[0][1]), None, plan)
    n = w.dim(name, w.least)
    return Ax(n)


def axes(w, letters, specs):
    """Axis plans for the letters in `letters`; '1' is the literal one."""
    kron = any("kron" in s for s in specs)
    for o in ("same", "Lone", "Rone", "LRone"):
        if any("kron" in s and o in s.split(":") for s in specs):
            kron = o
    tile = max([int(([o[2:] for o in s.split(":") if o.startswith("n=")] or [2])[0]) for s in specs if "tiled" in s] or [0])
    out = {"1": ONE_AX}
    for c in letters:
        if c not in out:
            out[c] = axis(w, c, kron, tile)
    return out


class Inst:
    def __init__(self, obj, den, kind, desc):
        self.obj, self.den, self.kind, self.desc = obj, den, kind, desc

    @property
    def shape(self):
        return D.shp(self.den)


def num(w, name, rows, cols, batch=(), kind=None, dtype=None):
    t = w.T(name, tuple(batch) + (rows, cols), kind, dtype)
    return Inst(t, t, "num", "num")


def scalar(w, name, kind=None):
    t = w.scalar(name, kind)
    return Inst(t, D.den(t), "scalar", "scalar")


def wrapdim(w, d):
    """Dimensions may be plain or lazily wrapped, as they are in intermediate results.  The
    properties about the basic operations cover wrapped ones."""
    if not w.sym and isinstance(d, int) and w.rng.random() < 0.4 and w.lazy:
        return Dimension(d)
    return d


def wrap(t, mat):
    return Dense(t) if mat else t


def part(b, opts, x, full=True):
    """The batch of a component: none of the batch, ones, all but the first dimension, one
    for the first dimension, or one for the last dimension."""
    if f"no{x}b" in opts:
        return ()
    if f"o{x}b" in opts:
        return (1,) * len(b)
    if f"s{x}b" in opts:
        return b[1:]
    if f"p{x}b" in opts:
        return (1,) + b[1:]
    if f"q{x}b" in opts:
        return b[:-1] + (1,)
    return b if full else ()


def mixed(opts, dt):
    """The data types of the first, second, and third component."""
    f = np.dtype(np.float32)
    if "mix" in opts:
        return f, dt, dt
    if "mix2" in opts:
        return dt, f, f
    if "mixm" in opts:
        return f, f, dt
    return dt, dt, dt


def make(w, spec, name, rows, cols, batch=(), flag=None, dtype=None):
    """`spec`: a type name, possibly with options after colons, e.g. 'lr', 'lr:sym',
    'lr:mid', 'lr:symmid', 'kron', 'wb', 'tiled:-2'.

    `flag`: None, 'pd' (positive definite), 'inv' (invertible), 'pos' (positive entries of
    the data)."""
    kind, *opts = spec.split(":")
    ra = rows if isinstance(rows, Ax) else Ax(rows)
    ca = cols if isinstance(cols, Ax) else Ax(cols)
    rows, cols = ra.size, ca.size
    b = tuple(batch)
    dt = np.dtype(dtype or w.dtypes.get(name) or w.dtype)
    ek = {"pd": "psd", "inv": "inv", "pos": "pos", None: None}[flag]
    dk = "pos" if flag in ("pd", "inv", "pos") else None
    if kind == "num":
        return num(w, name, rows, cols, b, ek, dt)
    if kind == "scalar":
        return scalar(w, name, "pos" if flag else None)
    if kind == "zero":
        o = Zero(dt.type, *b, wrapdim(w, rows), wrapdim(w, cols))
        return Inst(o, npx.zeros(b + (rows, cols), dtype=dt), kind, spec)
    if kind == "dense":
        t = w.T(name, b + (rows, cols), ek, dt)
        return Inst(Dense(t), t, kind, spec)
    if kind in ("lt", "ut"):
        low = kind == "lt"
        k = ("ltpos" if low else "utpos") if flag in ("pd", "inv", "pos") else ("lower" if low else "upper")
        t = w.T(name, b + (rows, cols), k, dt)
        return Inst((LowerTriangular if low else UpperTriangular)(t), t, kind, spec)
    if kind == "diag":
        t = w.T(name, b + (rows,), dk, dt)
        return Inst(Diagonal(t), D.diagm(t), kind, spec)
    if kind == "const":
        t = w.T(name, b, dk, dt)
        if not b and not w.sym:
            t = np.asarray(t)[()] if "py" not in opts else float(t)
        o = Constant(t, wrapdim(w, rows), wrapdim(w, cols))
        d = npx.broadcast_to(npx.expand_dims(npx.expand_dims(D.den(t), -1), -1), b + (rows, cols))
        return Inst(o, d, kind, spec)
    if kind == "lr":
        r = w.dim(name + "_r", 1 if "r1" in opts else 2) if "rone" not in opts else 1
        rk = [int(o[3:]) for o in opts if o.startswith("rk=")]
        r = rk[0] if rk else r
        for o in opts:
            if o.startswith("r="):
                r = w.dim(o[2:] + "_r", 2)
        mat = "mat" in opts
        # Factors may have fewer batch dimensions than the whole.
        bl, br = part(b, opts, "l"), part(b, opts, "r")
        bm = part(b, opts, "m", "mb" in opts)
        sym = "sym" in opts or flag == "pd"
        dl, dr, dm = mixed(opts, dt)
        left = w.T(name + "_l", bl + (rows, r), "pos" if flag == "pos" else None, dl)
        if sym:
            right = left
        else:
            right = w.T(name + "_rt", br + (cols, r), "pos" if flag == "pos" else None, dr)
        mid = None
        if "mid" in opts:
            r2 = r
            if "rectmid" in opts and not sym:
                r2 = w.dim(name + "_r2")
                right = w.T(name + "_rt", br + (cols, r2), "pos" if flag == "pos" else None, dr)
            mid = w.T(name + "_m", bm + (r, r2), {"pd": "psd", "inv": "inv", "pos": "pos"}.get(flag), dm)
        if "dmid" in opts:
            md = w.T(name + "_m", bm + (r,), "pos" if flag in ("pd", "inv", "pos") else None, dm)
            mobj, mden = Diagonal(md), D.diagm(md)
        elif mid is not None:
            mobj, mden = wrap(mid, mat), mid
        else:
            mobj = mden = None
        args = [wrap(left, mat)]
        kw = {}
        if not sym:
            args.append(wrap(right, mat))
        elif "explicit" in opts:
            args.append(wrap(right, mat))
        if mobj is not None:
            kw["middle"] = mobj
        o = LowRank(*args, **kw)
        if mden is None:
            d = npx.matmul(left, D.T(right))
        else:
            d = npx.matmul(npx.matmul(left, mden), D.T(right))
        return Inst(o, d, kind, spec)
    if kind == "wb":
        dopts = [o for o in opts]
        db = part(b, opts, "d")
        dl, dr, _ = mixed(opts, dt)
        dopts = [o for o in dopts if not o.startswith("mix")]
        dg = make(w, "diag", name + "_d", rows, rows, db, "pd" if flag in ("pd", "inv") else flag, dl)
        lr = make(w, ":".join(["lr"] + dopts), name + "_w", rows, cols, b, flag, dr)
        return Inst(Woodbury(dg.obj, lr.obj), npx.add(dg.den, lr.den), kind, spec)
    if kind == "kron":
        if ra.kron is None or ca.kron is None:
            raise ValueError("no Kronecker plan for this axis")
        (n1, n2), (m1, m2) = ra.kron, ca.kron
        lk = rk = "dense"
        for o in opts:
            if o.startswith("L="):
                lk = o[2:]
            if o.startswith("R="):
                rk = o[2:]
        bl, br = part(b, opts, "l"), part(b, opts, "r")
        dl, dr, _ = mixed(opts, dt)
        left = make(w, lk.replace("+", ":"), name + "_L", n1, m1, bl, flag, dl)
        if "same" in opts:
            return Inst(Kronecker(left.obj, left.obj), D.kron(left.den, left.den), kind, spec)
        right = make(w, rk.replace("+", ":"), name + "_R", n2, m2, br, flag, dr)
        return Inst(Kronecker(left.obj, right.obj), D.kron(left.den, right.den), kind, spec)
    if kind == "tiled":
        axis_ = -2
        for o in opts:
            if o.lstrip("-").isdigit():
                axis_ = int(o)
        sub = sub2 = "num"
        for o in opts:
            if o.startswith("B="):
                sub = sub2 = o[2:].replace("+", ":")
            if o.startswith("B2="):
                sub2 = o[3:].replace("+", ":")
        plan = (ra if axis_ == -2 else ca).tile if axis_ in (-2, -1) else None
        blocks, dens = [], []
        if plan is not None:
            for k, (q, h) in enumerate(plan):
                bb = (b if not (k == 1 and "nob2" in opts) else ()) if not (k == 0 and "ob" in opts) else (1,) * len(b)
                only = [o[4:] for o in opts if o.startswith("only")]
                bb = () if only and only != [str(k + 1)] else bb
                bb = part(b, opts, str(k + 1)) if any(o[1:] in ("1b", "2b") for o in opts) else bb
                rr, cc = (h, cols) if axis_ == -2 else (rows, h)
                blk = make(w, sub2 if k else sub, f"{name}_b{k}", rr, cc, bb, flag if flag == "pos" else None, mixed(opts, dt)[min(k, 1)])
                blocks.append((blk.obj, q))
                dens.append((blk.den, q))
        else:
            # Along a batch axis, given as a positive number.
            q = w.dim(name + "_q")
            blk = make(w, sub, f"{name}_b0", rows, cols, b, None, dt)
            blocks.append((blk.obj, q))
            dens.append((blk.den, q))
            if "two" in opts:
                k = axis_ if axis_ >= 0 else axis_ + len(b) + 2
                blk = make(w, sub2, f"{name}_b1", rows, cols, b[:k] + (w.dim(name + "_h"),) + b[k + 1 :], None, dt)
                blocks.append((blk.obj, 1))
                dens.append((blk.den, 1))
        given = axis_ + len(b) + 2 if "pos" in opts else axis_
        if len(blocks) == 1 and "pairs" not in opts:
            o = TiledBlocks(blocks[0][0], blocks[0][1], axis=given)
        else:
            o = TiledBlocks(*blocks, axis=given)
        return Inst(o, D.tiled(dens, axis_), kind, spec)
    raise ValueError(spec)


SHARED = {
    "dense": ("mat",), "lt": ("mat",), "ut": ("mat",), "diag": ("diag",), "const": ("const",),
    "lr": ("left", "right", "left,right", "right,left", "middle"), "wb": ("diag", "lr"),
    "kron": ("left", "right", "left,right"), "tiled": ("blocks",),
}


def sibling(w, a, spec, what, rows, cols, batch=()):
    """Another matrix like `a` that shares the components `what` with it."""
    kind = spec.split(":")[0]
    o = a.obj
    if kind in ("dense", "lt", "ut", "diag"):
        x = type(o)(getattr(o, what))
    elif kind == "const":
        x = Constant(o.const, o.rows, o.cols)
    else:
        rank = {"lr": ":r=a", "wb": ":r=a_w"}.get(kind, "") if "rk=" not in spec else ""
        c = make(w, spec + rank, "b", rows, cols, batch).obj
        if kind == "lr":
            left, right, mid = c.left, c.right, c._middle
            if what == "left,right":
                left, right = o.left, o.right
            elif what == "right,left":
                left, right = o.right, o.left
            elif what == "middle":
                mid = o._middle
            elif what == "left":
                left = o.left
            else:
                right = o.right
            x = LowRank(left, right, mid)
        elif kind == "wb":
            x = Woodbury(o.diag if what == "diag" else c.diag, o.lr if what == "lr" else c.lr)
        elif kind == "kron":
            x = Kronecker(o.left if "left" in what else c.left, o.right if "right" in what else c.right)
        elif kind == "tiled":
            n = len(o.blocks)
            x = TiledBlocks(*zip(o.blocks, [w.dim(f"b_s{i}", 1) for i in range(n)]), axis=o.axis)
    return Inst(x, D.den(x), kind, spec + "/" + what)
