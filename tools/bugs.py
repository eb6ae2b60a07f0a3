bug(
    "C06-kron-batch", "C06",
    [("matrix/ops/sum.py", "        left_sum = B.sum(a.left, axis=-2)[..., :, None]\n        right_sum = B.sum(a.right, axis=-2)[..., None, :]\n        return B.reshape(left_sum * right_sum, *B.shape_batch(a), B.shape_matrix(a, 1))",
      "        left_sum = B.sum(a.left, axis=-2)[..., :, None]\n        right_sum = B.sum(a.right, axis=-2)[..., None, :]\n        batch = B.shape_batch(a.left) or B.shape_batch(a.right)\n        return B.reshape(left_sum * right_sum, *batch, B.shape_matrix(a, 1))")],
    "a Kronecker product whose left factor has fewer batch elements than its right factor, summed over its rows",
    "the sum over the rows has the wrong shape or fails",
    """
l, r = R(1, 2, 3), R(4, 3, 2)
x = np.stack([np.kron(l[0], r[i]) for i in range(4)])
close(B.sum(Kronecker(Dense(l), Dense(r)), axis=-2), x.sum(-2))
""",
)
bug(
    "C16-schur-transpose", "C16",
    [("matrix/ops/transpose.py", "    return Woodbury(B.transpose(a.diag), B.transpose(a.lr))",
      "    res = Woodbury(B.transpose(a.diag), B.transpose(a.lr))\n    # The Schur complement need not be computed again.\n    res.schur = a.schur\n    return res")],
    "a diagonal plus low-rank matrix that is not symmetric, whose Schur complement was computed before it is transposed and inverted",
    "the inverse of the transpose is wrong after the inverse of the matrix itself was computed",
    """
w = Woodbury(Diagonal(np.abs(R(5)) + 5), LowRank(R(5, 2), R(5, 2), R(2, 2) + 3 * np.eye(2)))
d = np.asarray(B.dense(w))
B.inv(w)
close(B.inv(B.transpose(w)), np.linalg.inv(d.T))
""",
)
bug(
    "C19-state", "C19",
    [("matrix/ops/sample.py", "    state, sample_diag = B.sample(state, a.diag, num=num)\n    state, sample_lr = B.sample(state, a.lr, num=num)\n    return state, sample_diag + sample_lr",
      "    new_state, sample_diag = B.sample(state, a.diag, num=num)\n    _, sample_lr = B.sample(state, a.lr, num=num)\n    return new_state, sample_diag + sample_lr")],
    "sampling from a diagonal plus low-rank matrix with a random state that is a value and not an object that is modified in place (JAX)",
    "both parts of the sample use the same random numbers",
    """
import lab.jax
import jax.numpy as jnp

n = 3
w = Woodbury(Diagonal(jnp.ones(n)), LowRank(jnp.eye(n)))
state = B.create_random_state(jnp.float64, seed=0)
state, x = B.sample(state, w, 4000)
x = np.asarray(B.dense(x))
c = x @ x.T / x.shape[1]
assert np.abs(c - 2 * np.eye(n)).max() < 0.5, c
""",
)
bug(
    "C03-triple", "C03",
    [("matrix/ops/matmul.py", "    cr, cc = _shape_matrix_tr(c, tr_c)\n\n    cost_ab_first", "    cr, cc = _shape_matrix_tr(c, tr_c)\n    symmetric = a is c and tr_a == tr_c\n\n    cost_ab_first"),
     ("matrix/ops/matmul.py", "    else:\n        return B.matmul(a, B.matmul(b, c, tr_a=tr_b, tr_b=tr_c), tr_a=tr_a)", "    elif symmetric:\n        return B.matmul(a, B.matmul(b, c, tr_a=tr_b, tr_b=tr_c))\n    else:\n        return B.matmul(a, B.matmul(b, c, tr_a=tr_b, tr_b=tr_c), tr_a=tr_a)")],
    "a product of three matrices whose first and last factor are the same object, both transposed, where multiplying the last two first is cheaper",
    "the first factor is not transposed",
    """
x = Dense(R(2, 9))
b = Dense(R(2, 9))
close(B.matmul(x, b, x, tr_a=True, tr_c=True), np.asarray(B.dense(x)).T @ np.asarray(B.dense(b)) @ np.asarray(B.dense(x)).T)
""",
)
bug(
    "C01-zero-batch", "C01",
    [("matrix/ops/add.py", "        is_zero = B.mean(B.abs(join_middle)) < 1e-10",
      "        # Average per batch element to not depend on the size of the batch.\n        means = B.mean(B.mean(B.abs(B.dense(join_middle)), axis=-1), axis=-1)\n        is_zero = B.min(means) < 1e-10")],
    "a batch of low-rank matrices whose sum cancels for one batch element and not for another",
    "the sum is zero for all batch elements",
    """
l = R(2, 4, 2)
m = np.stack([np.diag([1.0, 2.0]), np.diag([1.0, 3.0])])
n = np.stack([np.diag([1.0, 2.0]), np.diag([2.0, 1.0])])
a, b = LowRank(l, l, m), LowRank(l, l, n)
close(B.subtract(a, b), np.asarray(B.dense(a)) - np.asarray(B.dense(b)))
""",
)
bug(
    "C02-same-factor", "C02",
    [("matrix/ops/multiply.py", """    return Kronecker(
        B.multiply(
            B.expand_dims(a.const, axis=-1, times=2, ignore_scalar=True), b.left
        ),
        b.right,
    )""", """    left = B.multiply(
        B.expand_dims(a.const, axis=-1, times=2, ignore_scalar=True), b.left
    )
    # Keep the factors the same object if they are.
    return Kronecker(left, left if b.left is b.right else b.right)""")],
    "a Kronecker product of a matrix object with itself, multiplied by a constant",
    "the constant is applied twice",
    """
x = Dense(R(2, 3))
close(B.multiply(3.0, Kronecker(x, x)), 3 * np.kron(x.mat, x.mat))
""",
)
bug(
    "C04-power-kron", "C04",
    [("matrix/ops/power.py", """def power(a: Kronecker, b: B.Numeric):
    return Kronecker(B.power(a.left, b), B.power(a.right, b))""",
      """def power(a: Kronecker, b: B.Numeric):
    left = B.power(a.left, b)
    if a.right is a.left or B.shape(a.right) == B.shape(a.left) == (1, 1):
        return Kronecker(left, left)
    return Kronecker(left, B.power(a.right, b))""")],
    "a Kronecker product of two matrices of size one by one",
    "the power of the right factor is that of the left factor",
    """
close(B.power(Kronecker(Dense(np.array([[2.0]])), Dense(np.array([[3.0]]))), 2), [[36.0]])
""",
)
bug(
    "C03-diag-swap", "C03",
    [("matrix/ops/matmul.py", "    middle = B.matmul(a.middle, middle, b.middle)\n", "    if a.middle is b.middle:\n        # Multiply by the middle factor once, from the cheaper side.\n        middle = B.matmul(B.matmul(a.middle, b.middle), middle)\n    else:\n        middle = B.matmul(a.middle, middle, b.middle)\n")],
    "the product of a low-rank matrix with another that shares its middle factor",
    "the order of the middle factors is wrong",
    """
l = LowRank(R(4, 2), R(4, 2), Dense(R(2, 2)))
d = np.asarray(B.dense(l))
close(B.matmul(l, l), d @ d)
""",
)
bug(
    "C05-lr-same", "C05",
    [("matrix/ops/transpose.py", "    return LowRank(a.right, a.left, B.transpose(a.middle))",
      "    if a.left is a.right:\n        # The matrix is symmetric.\n        return a\n    return LowRank(a.right, a.left, B.transpose(a.middle))")],
    "a low-rank matrix whose left and right factors are the same object and whose middle factor is not symmetric",
    "the transpose is the matrix itself",
    """
l = R(4, 2)
x = LowRank(l, l, R(2, 2))
close(B.transpose(x), np.asarray(B.dense(x)).T)
""",
)
bug(
    "C10-kron-same", "C10",
    [("matrix/ops/cholesky_solve.py", """    return Kronecker(
        B.cholesky_solve(a.left, b.left),
        B.cholesky_solve(a.right, b.right),
    )""", """    left = B.cholesky_solve(a.left, b.left)
    if a.left is a.right:
        # Both factors give the same system.
        return Kronecker(left, left)
    return Kronecker(left, B.cholesky_solve(a.right, b.right))""")],
    "a system with the Kronecker product of a Cholesky factor with itself and a right-hand side with different factors",
    "the right factor of the solution is the left one",
    """
l = LowerTriangular(np.tril(R(2, 2)) + 3 * np.eye(2))
b = Kronecker(Dense(R(2, 2)), Dense(R(2, 2)))
a = np.asarray(B.dense(Kronecker(l, l)))
close(B.cholesky_solve(Kronecker(l, l), b), np.linalg.solve(a @ a.T, np.asarray(B.dense(b))))
""",
)
bug(
    "C14-align-first", "C14",
    [("matrix/ops/util.py", "    return B.squeeze([B.broadcast_batch_to(x, *batch) for x in xs])",
      "    if len({B.rank(x) for x in xs}) == 1 and tuple(B.shape_batch(xs[0])) == tuple(batch):\n        # All batches align already.\n        return B.squeeze(list(xs))\n    return B.squeeze([B.broadcast_batch_to(x, *batch) for x in xs])")],
    "aligning batches where the first already has the result's batch and another one has a batch of size one",
    "the other matrix is not broadcast",
    """
from matrix.ops.util import align_batch

x, y = align_batch(Dense(R(3, 2, 2)), Dense(R(1, 2, 2)))
assert tuple(B.shape(y)) == (3, 2, 2), B.shape(y)
k = Kronecker(Dense(R(3, 2, 2)), Dense(R(1, 2, 2)))
d = np.asarray(B.dense(k))
close(B.take(k, [1, 2], axis=0), d[[1, 2]])
""",
)
bug(
    "C18-tri-both", "C18",
    [("matrix/ops/matmul.py", "    if not tr_a and not tr_b:\n        return LowerTriangular(B.matmul(a.mat, b.mat))\n", "    if tr_a == tr_b:\n        return LowerTriangular(B.matmul(a.mat, b.mat, tr_a=tr_a, tr_b=tr_b))\n")],
    "the product of two lower-triangular matrices which are both transposed",
    "the upper-triangular product is presented as lower triangular",
    """
a, b = LowerTriangular(np.tril(R(3, 3))), LowerTriangular(np.tril(R(3, 3)))
x = B.matmul(a, b, tr_a=True, tr_b=True)
d = np.asarray(B.dense(x))
close(x, np.asarray(a.mat).T @ np.asarray(b.mat).T)
assert not isinstance(x, LowerTriangular) or np.allclose(d, np.tril(d)), type(x)
""",
)
bug(
    "C16-schur-scale", "C16",
    [("matrix/ops/multiply.py", "    # Expand out Woodbury matrices.\n    return B.add(B.multiply(a.diag, b), B.multiply(a.lr, b))", "    # Expand out Woodbury matrices.\n    res = B.add(B.multiply(a.diag, b), B.multiply(a.lr, b))\n    if isinstance(b, Constant) and isinstance(res, Woodbury):\n        # Only the scale changes.\n        res.schur = a.schur\n    return res")],
    "a diagonal plus low-rank matrix of which the inverse was computed is multiplied by a number and inverted",
    "the inverse of the multiple uses the Schur complement of the matrix itself",
    """
l = R(5, 2)
w = Woodbury(Diagonal(np.ones(5) * 2), LowRank(l))
d = np.asarray(B.dense(w))
close(B.pd_inv(w), np.linalg.inv(d))
close(B.pd_inv(B.multiply(3.0, w)), np.linalg.inv(3 * d))
""",
)
bug(
    "C20-ratio-same", "C20",
    [("matrix/ops/ratio.py", "    chol = B.cholesky(a)\n    return", "    if a is b:\n        # The trace of the identity.\n        return B.cast(B.dtype(a), B.shape_matrix(a, 0))\n    chol = B.cholesky(a)\n    return")],
    "the ratio of a batch of matrices and itself",
    "the result is not batched",
    """
z = R(3, 2, 2)
x = Dense(z @ np.swapaxes(z, -1, -2) + np.eye(2))
close(B.ratio(x, x), [2.0, 2.0, 2.0])
""",
)
bug(
    "C08-schur-pd", "C08",
    [("matrix/ops/schur.py", "    if a.schur is None:\n", "    if a.schur is None and a.lr.left is a.lr.right:\n        # The matrix is symmetric.\n        return B.pd_schur(a)\n    if a.schur is None:\n")],
    "the inverse of a diagonal matrix minus a low-rank matrix with equal factors, which is symmetric with a middle factor that is not positive definite",
    "the inverse fails or is not a number",
    """
l = R(5, 2)
w = Woodbury(Diagonal(np.ones(5) * 20), LowRank(l, l, Dense(np.array([[1.0, 2.0], [2.0, 1.0]]))))
close(B.inv(w), np.linalg.inv(np.asarray(B.dense(w))))
""",
)
bug(
    "C09-root-stored", "C09",
    [("matrix/ops/root.py", "    return Dense(B.root(B.dense(a)))\n\n\n@B.dispatch\ndef root(a: Diagonal)", "    if a.cholesky is not None:\n        # Use the factor that is available.\n        return Dense(B.dense(a.cholesky))\n    return Dense(B.root(B.dense(a)))\n\n\n@B.dispatch\ndef root(a: Diagonal)")],
    "the square root of a dense matrix is asked for after its Cholesky factor",
    "the root is not symmetric and its square is not the matrix",
    """
z = R(3, 3)
x = Dense(z @ z.T + np.eye(3))
B.cholesky(x)
r = np.asarray(B.dense(B.root(x)))
close(r @ r, x.mat)
""",
)
bug(
    "C11-wb-stored", "C11",
    [("matrix/ops/logdet.py", "    return B.logdet(a.diag) + B.logdet(a.lr.middle) + B.logdet(B.pd_schur(a))", "    if a.cholesky is not None:\n        # Use the factor that is available.\n        return B.logdet(a.cholesky)\n    return B.logdet(a.diag) + B.logdet(a.lr.middle) + B.logdet(B.pd_schur(a))")],
    "the log-determinant of a diagonal plus low-rank matrix is asked for after its Cholesky factor",
    "the log-determinant is half of what it should be",
    """
import matrix

w = Woodbury(Diagonal(np.ones(4)), LowRank(R(4, 2)))
B.cholesky(w)
close(B.logdet(w), np.linalg.slogdet(np.asarray(B.dense(w)))[1])
""",
)
bug(
    "C12-tiled-merge", "C12",
    [("matrix/ops/concat.py", "        # All axes are aligned.\n", "        # All axes are aligned.\n        if all([all(x is y for x, y in zip(el.blocks, element.blocks)) for el in elements]):\n            # Repeat the same blocks more often.\n            reps = [sum(rs) for rs in zip(*[el.reps for el in elements])]\n            return TiledBlocks(*zip(element.blocks, reps), axis=axis)\n")],
    "the concatenation of tiled blocks that share their blocks, of which there are two",
    "the blocks are in the wrong order",
    """
a, b = Dense(R(1, 2)), Dense(R(1, 2))
s, t = TiledBlocks((a, 1), (b, 2), axis=0), TiledBlocks((a, 2), (b, 1), axis=0)
close(B.concat(s, t, axis=0), np.concatenate([np.asarray(B.dense(s)), np.asarray(B.dense(t))], 0))
""",
)
bug(
    "C13-submatrix-wb", "C13",
    [("matrix/ops/take.py", "        diag, lr = align_batch(a.diag, a.lr)\n        axis = resolve_axis(a, axis)\n        diag = B.take(diag, indices_or_mask, axis=axis)\n        lr = B.take(lr, indices_or_mask, axis=axis)\n        return diag + lr",
      "        axis = resolve_axis(a, axis)\n        # The diagonal is cheap to broadcast.\n        diag = B.take(B.broadcast_batch_to(a.diag, *B.shape_batch(a)), indices_or_mask, axis=axis)\n        lr = a.lr\n        if B.rank(lr) == B.rank(a) and B.shape(lr, axis) > 1:\n            lr = B.take(lr, indices_or_mask, axis=axis)\n        return diag + lr")],
    "selecting from a batch axis of size one of a diagonal plus low-rank matrix with a repeated or an empty selection, or from the second of two batch axes where the low-rank part has one batch axis",
    "the selection has the wrong shape",
    """
w = Woodbury(Diagonal(R(3, 2, 4)), LowRank(R(2, 4, 2), R(2, 4, 2)))
close(B.take(w, [1], axis=1), np.asarray(B.dense(w))[:, [1]])
""",
)
bug(
    "C15-cast-dense", "C15",
    [("matrix/ops/cast.py", "    return Diagonal(B.cast(dtype, a.diag))", "    res = Diagonal(B.cast(dtype, a.diag))\n    # Keep what has been computed.\n    res.dense = a.dense\n    return res")],
    "casting a diagonal matrix after its dense form was computed",
    "the dense form has the old data type",
    """
d = Diagonal(R(3))
B.dense(d)
assert B.dtype(B.dense(B.cast(np.float32, d))) == np.float32
""",
)
bug(
    "C17-diag-rows", "C17",
    [("matrix/ops/multiply.py", """def multiply(a: Diagonal, b: AbstractMatrix):
    assert_compatible(B.shape(a), B.shape(b))
""", """def multiply(a: Diagonal, b: AbstractMatrix):
    # The matrix `a` is square.
    assert_compatible(B.shape(a)[:-1], B.shape(b)[:-1])
""")],
    "the element-wise product of a diagonal matrix and a matrix with as many rows and more columns",
    "a result is given for operands that do not fit",
    """
try:
    x = B.dense(B.multiply(Diagonal(R(3)), Dense(R(3, 5))))
except Exception:
    pass
else:
    raise AssertionError(("no error", np.shape(x)))
""",
)
bug(
    "C03-kron-reshape", "C03",
    [("matrix/ops/matmul.py", "    return B.reshape(a, *B.shape_batch(a), *indices)", "    return B.reshape(a, *B.shape_batch(a)[:2], *indices)")],
    "the product of a Kronecker product and a matrix with three batch dimensions",
    "the product fails",
    """
k, d = Kronecker(Dense(R(2, 3, 2, 2, 2)), Dense(R(2, 3, 2, 2, 2))), Dense(R(2, 3, 2, 4, 3))
close(B.matmul(k, d), np.asarray(B.dense(k)) @ np.asarray(d.mat))
""",
)
bug(
    "C14-bcast-four", "C14",
    [("matrix/shape.py", "    running_shape = expand_and_broadcast(shape1, shape2)\n    for s in further_shapes:", "    running_shape = expand_and_broadcast(shape1, shape2)\n    for s in further_shapes[:2]:")],
    "five shapes of which only the last one has a dimension larger than one",
    "the last shape is ignored",
    """
from matrix.shape import expand_and_broadcast

assert tuple(expand_and_broadcast((1,), (1,), (1,), (1,), (3,))) == (3,)
""",
)
