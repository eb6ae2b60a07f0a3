"""Writes properties.jsonl and MANIFEST.json."""
import json, os, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = sys.argv[1].split(",") if len(sys.argv) > 1 else None
O = "matrix/ops/"

TYPES = (
    "all structured types (zero, dense, diagonal, constant, lower and upper triangular, low-rank, diagonal plus "
    "low-rank, Kronecker, tiled) and plain arrays and scalars, all data"
)
SIZES = "all matrix sizes, ranks, and batch shapes"
T = lambda s: "The tests sample a fixed set of type pairs with small fixed shapes (6x6 and the like) and random data; " + s

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=T(why),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["observe_at"] = observe or ["the dense form of the result", "the reported shape of the result"]
    P.append(d)


prop("C01", "Sums and differences equal the sums and differences of the dense matrices",
     "For any two operands that broadcast against each other, adding or subtracting them gives a result whose dense form, shape, and batch shape are those of the element-wise sum or difference of their dense forms. "
     "This holds for structured matrices, plain arrays, and scalars on either side, through functions and operators alike.",
     ["inputs", "configurations"], f"{TYPES}; every ordered pair; {SIZES}, including dimensions equal to one that broadcast",
     "the equation must hold for every pair of types, every broadcasting pattern, and every size and value.",
     [O + "add.py", O + "subtract.py", "matrix/matrix.py", "matrix/shape.py", O + "shape_broadcast.py"],
     [("pairwise addition rules with structure promotion", O + "add.py"), ("operators", "matrix/matrix.py"), ("alignment of low-rank terms", O + "algorithms/align.py")])
prop("C02", "Element-wise products and quotients equal those of the dense matrices",
     "For any two operands that broadcast against each other, the element-wise product (and the quotient, where the divisor has no zeros) has the dense form, shape, and batch shape of the product (quotient) of their dense forms. "
     "Products with a structured operand never change the value because of the structure chosen for the result.",
     ["inputs", "configurations"], f"{TYPES}; every ordered pair; {SIZES}",
     "structured shortcuts (diagonal times anything is diagonal, low-rank times low-rank has multiplied ranks) must agree with the dense product for all of them.",
     [O + "multiply.py", O + "divide.py", "matrix/matrix.py", O + "shape_broadcast.py"],
     [("pairwise multiplication rules", O + "multiply.py"), ("division", O + "divide.py")])
prop("C03", "Matrix products equal the dense matrix products for every transposition flag",
     "For any two operands with matching inner dimensions, their matrix product, with either operand optionally transposed, has the dense form and shape of the dense product, with batches broadcast. "
     "The diagonal of a product that is computed without forming the product equals the diagonal of the dense product.",
     ["inputs", "configurations"], f"{TYPES}; every ordered pair; both transposition flags; {SIZES}",
     "the number of (type, type, flag, flag, batch pattern, shape) combinations is far larger than what is sampled.",
     [O + "matmul.py", O + "matmul_diag.py", "matrix/matrix.py", O + "util.py"],
     [("pairwise products with transposition flags", O + "matmul.py"), ("diagonal of a product", O + "matmul_diag.py"), ("batch alignment", O + "util.py")])
prop("C04", "Element-wise unary maps act on every entry of the dense matrix",
     "Negation, absolute value, square root, positive powers, and not-a-number tests of a matrix have the dense form obtained by applying the map to each entry of the dense matrix. "
     "The shape is preserved.",
     ["inputs", "configurations"], f"{TYPES}; {SIZES}; integer and fractional exponents on their domains",
     "structure-preserving shortcuts apply the map to components, which is right only when the map commutes with the representation.",
     [O + f for f in ("negative.py", "abs.py", "sqrt.py", "power.py", "isnan.py")], [("per-type maps", O + "negative.py"), ("powers", O + "power.py")])
prop("C05", "Transposition swaps the last two dimensions and is an involution",
     "The transpose of any matrix has as dense form the dense matrix with its last two dimensions swapped and batch dimensions in place, whichever notation is used. "
     "Transposing twice gives back the same matrix.",
     ["inputs", "configurations"], f"{TYPES}; {SIZES}", "tiled and batched representations permute components, and the permutation depends on the tiling axis and batch rank.",
     [O + "transpose.py", "matrix/matrix.py"], [("per-type transposition", O + "transpose.py")])
prop("C06", "Sums, means, diagonals, and traces equal those of the dense matrix",
     "Summing or averaging over any axis, any choice of negative or positive axis number, or all axes gives the reduction of the dense matrix. "
     "Extracting the diagonal and taking the trace give the diagonal and trace of the dense matrix, and constructing a diagonal matrix from a vector has that vector as its diagonal and zeros elsewhere.",
     ["inputs", "configurations"], f"{TYPES}; every axis; {SIZES}, square and rectangular",
     "reductions are computed from components (for example a Kronecker product from the reductions of its factors), and axis handling depends on the batch rank.",
     [O + f for f in ("sum.py", "mean.py", "diag.py", "diag_extract.py", "trace.py")], [("reductions", O + "sum.py"), ("diagonals", O + "diag.py")])
prop("C07", "Shape, batch shape, rank, data type, and dense form agree with each other",
     "Every matrix reports the shape, matrix shape, batch shape, rank, and data type of its dense form, under every way of asking, with positive and negative indices. "
     "Asking for the dense form repeatedly always gives the same values.",
     ["inputs", "configurations", "histories"], f"{TYPES}; {SIZES}; components whose batch shapes differ but broadcast",
     "shapes are computed from components without looking at the dense form, and the dense form is cached.",
     [O + f for f in ("shape.py", "shape_batch.py", "shape_matrix.py", "rank.py", "dtype.py", "dense.py", "to_numpy.py", "uprank.py")],
     [("shape computation", O + "shape.py"), ("conversion to dense", O + "dense.py")], [("dense", "the cached dense form", "matrix/matrix.py")])
prop("C08", "The inverse of an invertible matrix multiplies with it to the identity",
     "For every invertible matrix the inverse, and for every positive-definite matrix the positive-definite inverse, multiplied with the matrix from either side is the identity of the right size and batch shape. "
     "Intermediate complements that are stored on the way equal their definition.",
     ["inputs", "configurations"], "dense, diagonal, diagonal plus low-rank (with and without a middle factor), and Kronecker matrices; all sizes, ranks, batch shapes; every invertible (positive-definite) value",
     "the matrix inversion lemma and Kronecker identities are applied with batches and optional factors, which are sampled in few combinations.",
     [O + f for f in ("inv.py", "pd_inv.py", "schur.py", "pd_schur.py")], [("matrix inversion lemma", O + "inv.py"), ("via Cholesky", O + "pd_inv.py")],
     [("schur", "cached Schur complement", "matrix/woodbury.py")])
prop("C09", "Cholesky factors and matrix roots multiply back to the matrix",
     "For every positive semi-definite structured matrix with a supported factorisation, the factor times its transpose is the matrix, and for dense positive-definite input the factor is lower triangular with positive diagonal. "
     "The square root is symmetric, positive, and its square is the matrix.",
     ["inputs", "configurations", "histories"], f"supported types; {SIZES}; every positive (semi-)definite value; repeated requests served from the stored factor",
     "factors of structured matrices are assembled from factors of components and are cached.",
     [O + "cholesky.py", O + "root.py"], [("per-type factorisations", O + "cholesky.py"), ("singular value decomposition", O + "root.py")],
     [("cholesky", "cached factor", "matrix/matrix.py")])
prop("C10", "Solutions of linear systems satisfy the system",
     "Solving with any supported coefficient matrix gives a result that, multiplied by the coefficient matrix, is the right-hand side (broadcast over batches). "
     "Triangular solves use the requested triangle, and solving with a Cholesky factor solves the system of the factor times its transpose.",
     ["inputs", "configurations"], f"coefficient matrices: dense, diagonal, triangular, diagonal plus low-rank, Kronecker; right-hand sides: every type; {SIZES}",
     "every pair of types has its own path, with its own batch handling.",
     [O + f for f in ("solve.py", "triangular_solve.py", "cholesky_solve.py")], [("solving", O + "solve.py"), ("triangular", O + "triangular_solve.py")])
prop("C11", "Log-determinants equal the logarithm of the determinant of the dense matrix",
     "For every positive-definite or positively triangular matrix the log-determinant equals the logarithm of the determinant of its dense form, per batch element. "
     "This does not depend on what was computed and stored before.",
     ["inputs", "configurations", "histories"], f"dense, diagonal, triangular, diagonal plus low-rank, and Kronecker matrices; {SIZES}",
     "the determinant lemma and the exponents of Kronecker products depend on sizes that are sampled at one point.",
     [O + "logdet.py"], [("determinant identities", O + "logdet.py")], [("schur, cholesky", "stored intermediate results", "matrix/woodbury.py")])
prop("C12", "Kronecker products, tilings, concatenations, and blocks equal the dense constructions",
     "Kronecker products, tilings, concatenations, block matrices, and block-diagonal matrices of structured matrices have the dense form and shape of the same construction on the dense matrices. "
     "This holds for any number, types, and sizes of blocks that fit together.",
     ["inputs", "configurations"], f"{TYPES}; block layouts up to three by three; {SIZES}",
     "block structure (recognising block-diagonal and triangular layouts, lazy tilings) is decided from the types and shapes of all blocks.",
     [O + f for f in ("kron.py", "tile.py", "concat.py", "block.py", "block_diag.py")] + ["matrix/tiledblocks.py", "matrix/kronecker.py"],
     [("block assembly", O + "block.py"), ("Kronecker products", O + "kron.py")])
prop("C13", "Indexing, taking, submatrices, reshaping, and squeezing select the right entries",
     "Selecting rows, columns, batch elements, or principal submatrices of a structured matrix with ordered index sets, masks, slices, or integers gives the corresponding selection of its dense form. "
     "Reshaping and squeezing give the same entries as on the dense form.",
     ["inputs", "configurations"], f"{TYPES}; {SIZES}; index lists, masks, slices, integers",
     "structured selections act on components and decide by axis what structure survives.",
     [O + f for f in ("take.py", "submatrix.py", "reshape.py", "squeeze.py")] + ["matrix/matrix.py"], [("taking", O + "take.py"), ("submatrices", O + "submatrix.py")])
prop("C14", "Broadcasting preserves entries and agrees on the broadcast shape",
     "Broadcasting a matrix, or the batch dimensions of a matrix, to a compatible shape gives the broadcast of its dense form, and the shape to which operands broadcast is the shape of the broadcast of their dense forms. "
     "Aligning the batch dimensions of several matrices changes no entries.",
     ["inputs", "configurations"], f"{TYPES}; {SIZES}", "broadcasting is lazy and per component.",
     [O + f for f in ("broadcast_to.py", "broadcast_batch_to.py", "shape_broadcast.py", "shape_batch_broadcast.py", "shape_matrix_broadcast.py", "util.py")],
     [("broadcasting", O + "broadcast_to.py"), ("batch alignment", O + "util.py")])
prop("C15", "Constructors, casts, and fills give the requested values, shape, and data type",
     "Zeros, ones, identities, and constant or diagonal fills have the entries, shape, and data type that were asked for, also when modelled on another matrix. "
     "Casting changes the data type of every component and no entry. Arithmetic, products, reductions, and structural operations on matrices and arrays of one floating-point type give results of that type; matrices of two floating-point types (neither zero nor constant) combine to the wider one.",
     ["inputs", "configurations"], f"{TYPES}; {SIZES}; single and double precision",
     "each type constructs and casts its own components.",
     [O + f for f in ("zeros.py", "ones.py", "eye.py", "zero.py", "one.py", "fill_diag.py", "cast.py", "dtype.py")], [("construction", O + "eye.py"), ("casting", O + "cast.py")])
prop("C16", "Operations never change their operands, and stored results never change answers",
     "No operation changes the value, shape, or components of a matrix it is given. "
     "The answer of every operation is the same whether or not other operations were performed on the same matrix before, in any order.",
     ["inputs", "histories"], f"{TYPES}; all sequences of operations that store intermediate results",
     "tests use fresh matrices for most assertions; interleavings of cached computations are not explored.",
     ["matrix/matrix.py", "matrix/woodbury.py", O + "dense.py", O + "cholesky.py", O + "schur.py", O + "pd_schur.py", O + "pd_inv.py"],
     [("caches filled on first use", O + "cholesky.py")], [("dense, cholesky, schur", "stored results", "matrix/matrix.py")],
     ["the value of the operands after the call", "the result of a repeated or reordered call"])
prop("C17", "Operands whose shapes do not fit are rejected",
     "Operations on operands whose shapes cannot be combined raise an error and never give a result: sums and products of incompatible shapes, matrix products with different inner dimensions, and square-only operations on rectangular matrices. "
     "Constructing a matrix from inconsistent components is rejected too.",
     ["inputs", "configurations"], f"{TYPES}; all incompatible sizes and batch shapes", "structured shortcuts that do not touch the data of one operand can silently accept it.",
     [O + f for f in ("add.py", "multiply.py", "matmul.py", "solve.py", "shape_broadcast.py")] + ["matrix/shape.py", "matrix/util.py", "matrix/lowrank.py", "matrix/woodbury.py"],
     [("shape assertions", "matrix/shape.py"), ("broadcast shapes", O + "shape_broadcast.py")], None, ["whether the call raises"])
prop("C18", "Structure is kept where it is known and never claimed where it is false",
     "A result that is presented as diagonal, triangular, constant, low-rank, or diagonal plus low-rank really has that form. "
     "Operations that preserve a structure mathematically (sums and products of diagonal, triangular, or low-rank matrices, inverses of diagonal plus low-rank matrices, and the like) return it in structured form, with a rank no larger than the sum (for sums) or product (for element-wise products) of the ranks.",
     ["inputs", "configurations"], f"{TYPES}; every operation; {SIZES}", "value tests on the dense form cannot see lost or invented structure.",
     [O + f for f in ("add.py", "multiply.py", "matmul.py", "inv.py", "cholesky.py", "transpose.py")] + ["matrix/promote.py"], [("structure-preserving rules", O + "add.py")],
     None, ["the type and rank of the result"])
prop("C19", "Samples have exactly the requested covariance, shape, and random-state threading",
     "Samples drawn for a covariance matrix are a linear function of independent standard normal numbers whose covariance is exactly that matrix, for every supported structure. "
     "The samples have one column per requested sample and the batch shape of the matrix, and the random state is threaded: the same state gives the same samples and a used state is advanced.",
     ["inputs", "configurations"], f"dense, diagonal, constant, low-rank, diagonal plus low-rank, and Kronecker covariances; {SIZES}; any number of samples",
     "tests compare empirical moments with a loose tolerance.", [O + "sample.py", O + "cholesky.py"], [("linear map of noise", O + "sample.py")], None, ["the samples", "the returned random state"])
prop("C20", "Inverse quadratic forms and ratios equal their dense definitions",
     "The inverse quadratic form of a positive-definite matrix with two factors equals the first factor transposed times the inverse of the matrix times the second; its diagonal variant equals the diagonal of that. "
     "The ratio of two positive-definite matrices is the trace of the inverse of the second times the first.",
     ["inputs", "configurations"], f"positive-definite dense, diagonal, diagonal plus low-rank, and Kronecker matrices with factors of every type; {SIZES}",
     "each combination takes its own shortcut.", [O + f for f in ("iqf.py", "iqf_diag.py", "ratio.py")], [("quadratic forms", O + "iqf.py"), ("ratio", O + "ratio.py")])

with open(f"{ROOT}/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

sys.path.insert(0, ROOT)
sys.path.insert(0, "/repo")
src = open(f"{ROOT}/mcv/specs/__init__.py").read()
claimed = CLAIMED or [p["id"] for p in P if f'"{p["id"]}"' in src]
NOTE = (
    "Every obligation is generated from the functions in /repo on every run: the real code (with the real dispatch) is executed on "
    "matrices with symbolic sizes and entries, and the postcondition is discharged by the normal-form prover with z3 for integer side "
    "conditions; no bound on sizes or values unless a case is labelled bounded. Trusted: models of NumPy primitives, defining relations "
    "of NumPy/SciPy factorisations, real arithmetic. Every obligation is also run on concrete inputs."
)
m = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -m mcv.conformance",
    checks=[
        dict(
            property=p["id"],
            quick_cmd=f"/opt/venv/bin/python -m mcv.check {p['id']} quick",
            thorough_cmd=f"/opt/venv/bin/python -m mcv.check {p['id']} thorough",
            technique="contract-based deductive verification: pre/postconditions on the real functions, VCs by symbolic execution, normal-form prover + z3",
            level="proof",
            level_note=NOTE,
        )
        for p in P
        if p["id"] in claimed
    ],
    not_applicable=[dict(property=p["id"], reason="no check has been built for it yet") for p in P if p["id"] not in claimed],
)
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(P), "properties;", len(m["checks"]), "claimed")
