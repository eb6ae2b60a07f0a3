"""The abstraction function: what dense tensor a matrix object denotes.

Written against the fields of the data structures only; no code of the operations under
proof is used.  Works on symbolic and on concrete objects.
"""

import numpy as np
from matrix import (
    Constant,
    Dense,
    Diagonal,
    Kronecker,
    LowerTriangular,
    LowRank,
    TiledBlocks,
    UpperTriangular,
    Woodbury,
    Zero,
)
from matrix.matrix import AbstractMatrix

from .hooks import npx
from .symt import SymInt, SymTensor, as_poly, as_tensor, m_getitem


def is_sym():
    from .symt import SYMBOLIC

    return SYMBOLIC[0]


def shp(x):
    if isinstance(x, np.ndarray):
        return tuple(x.shape)
    if isinstance(x, AbstractMatrix):
        return shp(den(x))
    return ()


def uprank(x, n=2):
    while len(shp(x)) < n:
        x = npx.expand_dims(x, -1)
    return x


def unwrap(d):
    from lab.shape import Dimension

    while isinstance(d, Dimension) and not isinstance(d, SymInt):
        d = d.dim
    return d


def bshape(*shapes):
    """Broadcast shapes (our own definition)."""
    n = max((len(s) for s in shapes), default=0)
    out = []
    for k in range(n):
        cur = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            d = unwrap(s[j])
            if bool(d == 1) or bool(d == cur):
                continue
            if bool(cur == 1):
                cur = d
                continue
            raise ValueError("incompatible shapes")
        out.append(cur)
    return tuple(out)


def eye(n, dtype=np.float64):
    return npx.eye(n, dtype=dtype)


def T(x):
    return npx.swapaxes(x, -1, -2)


def diagm(d):
    """Batched diagonal matrix."""
    return npx.multiply(npx.expand_dims(d, -1), eye(shp(d)[-1], dtype=d.dtype))


def kron(a, b):
    """Batched Kronecker product by its definition."""
    batch = bshape(shp(a)[:-2], shp(b)[:-2])
    a = npx.broadcast_to(a, batch + shp(a)[-2:])
    b = npx.broadcast_to(b, batch + shp(b)[-2:])
    n, m = shp(a)[-2:]
    p, q = shp(b)[-2:]
    k = len(batch)
    x = npx.expand_dims(npx.expand_dims(a, k + 1), k + 3)  # batch, n, 1, m, 1
    y = npx.expand_dims(npx.expand_dims(b, k), k + 2)  # batch, 1, p, 1, q
    return npx.reshape(npx.multiply(x, y), batch + (n * p, m * q))


def den(x):
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, (int, float, np.generic, SymInt)) and not isinstance(x, AbstractMatrix):
        return as_tensor(x) if is_sym() else np.asarray(x)
    if hasattr(x, "_mcv_den"):
        return x._mcv_den
    if isinstance(x, Zero):
        dims = tuple(unwrap(d) for d in tuple(x.batch) + (x.rows, x.cols))
        return npx.zeros(dims, dtype=np_dtype(x.dtype))
    if isinstance(x, (Dense, LowerTriangular, UpperTriangular)):
        return den(x.mat)
    if isinstance(x, Diagonal):
        return diagm(den(x.diag))
    if isinstance(x, Constant):
        c = den(x.const)
        r, k = unwrap(x.rows), unwrap(x.cols)
        c2 = npx.expand_dims(npx.expand_dims(c, -1), -1)
        return npx.broadcast_to(c2, shp(c) + (r, k))
    if isinstance(x, LowRank):
        left, right = den(x.left), den(x.right)
        m = x._middle if hasattr(x, "_middle") else x.middle
        if m is None:
            return npx.matmul(left, T(right))
        return npx.matmul(npx.matmul(left, den(m)), T(right))
    if isinstance(x, Woodbury):
        return npx.add(den(x.diag), den(x.lr))
    if isinstance(x, Kronecker):
        return kron(den(x.left), den(x.right))
    if isinstance(x, TiledBlocks):
        return tiled([(den(b), unwrap(r)) for b, r in zip(x.blocks, x.reps)], x.axis)
    raise TypeError(f"no denotation for {type(x).__name__}")


def tiled(blocks, axis):
    rank = max(len(shp(b)) for b, _ in blocks)
    ax = axis if axis < 0 else axis - rank
    padded = []
    for b, r in blocks:
        while len(shp(b)) < rank:
            b = npx.expand_dims(b, 0)
        padded.append((b, r))
    others = []
    for b, _ in padded:
        s = list(shp(b))
        del s[rank + ax]
        others.append(tuple(s))
    common = bshape(*others)
    out = []
    for b, r in padded:
        target = list(common)
        target.insert(rank + ax, shp(b)[rank + ax])
        b = npx.broadcast_to(b, tuple(target))
        reps = [1] * rank
        reps[rank + ax] = r
        out.append(npx.tile(b, tuple(reps)))
    return npx.concatenate(out, axis=rank + ax)


def take(d, index, axis):
    """The entries of `d` along `axis` selected by an index set or a mask."""
    k = axis + len(shp(d)) if axis < 0 else axis
    if is_sym():
        f, m = index._index_of, index._index_len
        return SymTensor.make(
            d._shape[:k] + (m,) + d._shape[k + 1 :], lambda i: d.at(i[:k] + (f(i[k]),) + i[k + 1 :]), d._dt
        )
    x = np.asarray(index)
    if x.dtype.kind == "b":
        x = np.nonzero(x)[0]
    return np.take(d, x, axis=k)


def np_dtype(dt):
    return np.dtype(dt)
