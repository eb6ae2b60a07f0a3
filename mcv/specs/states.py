"""Cases started from operands whose results have been stored by earlier operations."""

import re

from ..cases import Case
from ..hooks import B

# Which cases are repeated from which states.  Cholesky factors can only be stored for
# operands that are positive definite.
PD = ("dense", "chol", "pd_schur", "all")
PLAN = [
    ("C08", r"^(inv|inv-twice|schur)\(", ("dense", "schur")),
    ("C08", r"^(inv-pd|pd_inv|pd_schur)\(", PD),
    ("C09", r"^(cholesky|root)\(", PD),
    ("C10", r"^(solve|cholesky_solve)\((?!num).*\[(,nn\],.*\[,|b,nn\],.*\[b,)", ("dense", "schur")),
    ("C11", r"^logdet\(", PD),
    ("C19", r"^sample\(", PD),
    ("C20", r"^(iqf|iqf_diag|ratio)\((?!num)[^,]*\[(,nn\],[^,]*\[,n.\]|b,nn\],[^,]*\[b,n.\])\)$", ("chol", "pd_schur", "all")),
    ("C01", r"^(add|subtract)\([^,]*\[,nn\],[^,]*\[,nn\]\)$", ("dense",)),
    ("C02", r"^(multiply|divide)\([^,]*\[,nn\],[^,]*\[,nn\]\)$", ("dense",)),
    ("C03", r"^(matmul|matmul_diag)\([^,]*\[,..\],[^,]*\[,..\],(NN|TN)\)$", ("dense",)),
    ("C04", r"\[b?,.n\]\)$", ("dense",)),
    ("C05", r"^transpose\(.*\[b?,.n\]\)$", ("dense",)),
    ("C06", r"^(sum|mean|diag|trace)[^(]*\(.*\[b?,.n\]\)$", ("dense",)),
    ("C12", r"^(kron|tile)\(.*\[,..\]\)$", ("dense",)),
    ("C12", r"^(block|block_diag|concat)[^(]*\((dense|diag|zero|const)\[,..\],(dense|diag|zero|const|lr)\[,..\].*\)$", ("dense",)),
    ("C13", r"^(take|submatrix|getitem)[^(]*\(.*\[b?,.n\]\)$", ("dense",)),
    ("C14", r"^broadcast[^(]*\(.*\[b?,.n\]\)$", ("dense",)),
    ("C15", r"^cast[^(]*\(.*\[b?,.n\]\)$", ("dense",)),
]
KIND = re.compile(r"[(,]([a-z]+)")


def components(o):
    from matrix.matrix import AbstractMatrix

    for v in list(vars(o).values()):
        for x in v if isinstance(v, (tuple, list)) else (v,):
            if isinstance(x, AbstractMatrix):
                yield x


def fill(o, state, depth=0):
    """Bring `o` and its components in a state in which results are stored."""
    from matrix import LowRank, Woodbury
    from matrix.matrix import AbstractMatrix

    if not isinstance(o, AbstractMatrix):
        return
    h = type(o)
    if depth < 2:
        for x in components(o):
            fill(x, state, depth + 1)
    if state in ("dense", "all"):
        B.dense(o)
    if state in ("middle", "all"):
        if h is LowRank:
            o.middle
        elif h is Woodbury:
            o.lr.middle
    if state == "schur" and h is Woodbury:
        B.schur(o)
    if state in ("pd_schur", "all") and h is Woodbury:
        B.cholesky(B.pd_schur(o))
        B.cholesky(o.lr.middle)
        B.cholesky(o.diag)
    # The components are not necessarily positive definite.
    if state in ("chol", "all") and not depth:
        try:
            B.cholesky(o)
        except Exception as e:
            if type(e).__name__ not in ("NotFoundLookupError", "RuntimeError"):
                raise


class Started:
    def __init__(self, case, state, first):
        self.case, self.state, self.first = case, state, first

    def build(self, w):
        c = self.case.build(w)
        for o in c.objs[:1] if self.first else c.objs:
            fill(o, self.state)
        return c


def more(prop, cases):
    for p, pat, states in PLAN:
        if p != prop:
            continue
        pat = re.compile(pat)
        for k in cases:
            if not isinstance(k, Case) or not pat.search(k.name) or k.thorough:
                continue
            kinds = KIND.findall(k.name)
            for st in states:
                if st in ("schur", "pd_schur") and "wb" not in k.name:
                    continue
                if st == "dense" and set(kinds) <= {"dense", "lt", "ut", "num", "scalar"}:
                    continue
                s = Started(k, st, prop in ("C10", "C20"))
                yield Case(
                    prop, f"{k.name}@{st}", s.build, k.call, k.post, k.functions, opname=k.opname,
                    num_only=k.num_only, trials=2, bounded=k.bounded, budget=k.budget,
                )
