"""Element-wise operations: addition, multiplication, unary maps."""

import itertools
import operator

import numpy as np
from matrix import Dense

from .. import den as D
from ..cases import Args, Case, arg, axes, bt, head, matrix_post
from ..hooks import B, npx
from ..inst import SHARED, Inst, sibling

RAW = ("num", "scalar")
SQ = ["dense", "zero", "diag", "const", "lt", "ut", "lr", "lr:mid", "wb:mid", "kron", "tiled"]


def raw(s):
    return head(s) in RAW


def compatible_plans(*specs):
    """Kronecker and tiled axis plans cannot be combined."""
    return not (any("kron" in s for s in specs) and any("tiled" in s for s in specs))


def binary(prop, op, npop, k1, k2, p1="nn", p2="nn", b1="", b2="", flag2=None, tag="", **kw):
    def build(w):
        ax = axes(w, [c for c in p1 + p2 if c != "1"], (k1, k2))
        return Args(arg(w, k1, "a", p1, b1, ax), arg(w, k2, "b", p2, b2, ax, flag2))

    name = f"{op}({k1}[{b1}{','+p1}],{k2}[{b2}{','+p2}]){tag}"
    f = getattr(B, op)
    return Case(
        prop, name, build, lambda c: f(*c.objs), matrix_post(lambda c: npop(*c.dens)),
        [f"ops/{op}.py"], opname=op, **kw,
    )


HEAVY = ("lr", "wb", "const")


def heavy(k1, k2):
    h = head(k1), head(k2)
    return h[0] in HEAVY and h[1] in HEAVY and h != ("const", "const")


def batches_for(k1, k2, level):
    out = [("", ""), ("b", "b"), ("b", ""), ("", "b")]
    if level:
        out += [("b", "1"), ("1", "b"), ("cb", "b")]
    if "scalar" in (k1, k2):
        out = [p for p in out if (k1 == "scalar" and p[0] == "") or (k2 == "scalar" and p[1] == "")]
    return out


def grid(prop, op, npop, kinds, flag2=None, skip=()):
    for k1, k2 in itertools.product(kinds + ["num", "scalar"], kinds + ["num", "scalar"]):
        if raw(k1) and raw(k2) or not compatible_plans(k1, k2) or (head(k1), head(k2)) in skip:
            continue
        for b1, b2 in batches_for(k1, k2, 1):
            if not tiled_ok(op, k1, k2, b1, b2):
                continue
            th = False
            if prop == "C01" and heavy(k1, k2):
                # Costly: the symbolic run of the low-rank addition.
                quick = [("", ""), ("b", "b"), ("b", "") if k1 <= k2 else ("", "b")]
                if op == "subtract":
                    quick = [("", ""), ("b", "b")]
                if "lr" in (k1, k2):
                    quick = quick[1:2]
                th = (b1, b2) not in quick
            yield binary(prop, op, npop, k1, k2, "nn", "nn", b1, b2, flag2, thorough=th)


def tiled_ok(op, k1, k2, b1, b2):
    """Tiled blocks support only part of the operations."""
    h = head(k1), head(k2)
    if "tiled" not in h:
        return True
    if op == "subtract" and h[1] == "tiled":
        return False  # no negation of tiled blocks
    if op in ("add", "subtract") and "zero" in h:
        return b1 == b2 or (h[0] == "tiled") == (len(b1.replace("1", "")) > len(b2.replace("1", "")))
    if op == "multiply" and ("diag" in h or "wb" in h):
        return False  # no diagonal of tiled blocks
    return True


# Types whose structure is lost when they are broadcast along a matrix dimension.
STRUCT = ("diag", "lt", "ut", "lr", "wb", "kron")
RECT = ["dense", "zero", "const", "lr", "lr:mid:rectmid", "kron", "num"]
BCAST = ["dense", "num", "const", "zero", "lr", "kron"]


def deep(prop, op, npop):
    """More batch dimensions."""
    for k in ("dense", "zero", "diag", "const", "lt", "lr:mid", "wb:mid", "kron"):
        for b1, b2 in (("dcb", "dcb"), ("dcb", ""), ("b", "dcb"), ("d1b", "cb")):
            for o in ("dense", "diag", "const", "scalar"):
                if o == "scalar" and b2:
                    continue
                yield binary(prop, op, npop, k, o, "nn", "nn", b1, b2)
                if o != "scalar" and k not in ("dense", "diag", "const"):
                    yield binary(prop, op, npop, o, k, "nn", "nn", b1, b2)


def operator_cases(prop, sym, f, g):
    """Python operators, with matrices, arrays, and scalars on either side."""
    for k in SQ:
        for o in ("scalar", "num", "dense", "diag", "const"):
            for b in ("", "b"):
                for swap in (False, True):
                    k1, k2 = (o, k) if swap else (k, o)
                    if o == "scalar" and sym == "@" or swap and o in SQ or not compatible_plans(k1, k2):
                        continue
                    if not tiled_ok({"+": "add", "-": "subtract", "@": "matmul"}.get(sym, "multiply"), k1, k2, b, b) or k == "tiled" and sym == "@":
                        continue
                    if sym == "/" and (head(k2) in ("diag", "lt", "ut", "zero", "wb") or raw(k2) and k1 == "tiled"):
                        continue

                    def build(w, k1=k1, k2=k2, b=b, o=o):
                        ax = axes(w, "n", (k1, k2))
                        flag = "pos" if sym == "/" else None
                        return Args(arg(w, k1, "a", "nn", "" if k1 == "scalar" else b, ax), arg(w, k2, "b", "nn", "" if k2 == "scalar" else b, ax, flag))

                    yield Case(
                        prop, f"operator({k1}{sym}{k2})[{b}]", build, lambda c: f(*c.objs),
                        matrix_post(lambda c: g(*c.dens)), ["matrix.py"], opname="operator" + sym,
                    )


def shapes(prop, op, npop, flag2=None, quick_lr=True):
    """Rectangular operands, and broadcasting of the matrix dimensions."""
    for k1, k2 in itertools.product(RECT + ["tiled"], RECT + ["tiled"]):
        if not compatible_plans(k1, k2) or (k1 == "num" and k2 == "num") or not tiled_ok(op, k1, k2, "", ""):
            continue
        for b1, b2 in [("", ""), ("b", "b")]:
            if prop == "C02" and heavy(k1, k2):
                continue
            th = prop == "C01" and heavy(k1, k2) and (op, b1) != ("add", "")
            yield binary(prop, op, npop, k1, k2, "mn", "mn", b1, b2, flag2, thorough=th)
    for k1, k2 in itertools.product(RECT + ["tiled:-1"], BCAST):
        if not compatible_plans(k1, k2) or (k1 == "num" and k2 == "num") or not tiled_ok(op, k1, k2, "", ""):
            continue
        for p2 in ("1n", "m1", "11"):
            if k1 == "tiled:-1" and (p2 != "1n" or op == "subtract"):
                continue
            if op == "multiply" and (h2 := head(k2)) in STRUCT and (head(k1) in ("const", "kron", "lr") or h2 == "kron"):
                continue  # see broadcast_findings
            yield binary(prop, op, npop, k1, k2, "mn", p2, "", "", flag2)
            yield binary(prop, op, npop, k2, k1, p2, "mn", "", "", flag2)
    for k1, k2 in itertools.product(["diag", "lt", "ut", "wb"], BCAST):
        for p2 in ("1n", "n1", "11"):
            if not compatible_plans(k1, k2):
                continue
            yield binary(prop, op, npop, k1, k2, "nn", p2, "", "", flag2)
            yield binary(prop, op, npop, k2, k1, p2, "nn", "", "", flag2)
    for k1, k2 in itertools.product(RECT, ["diag", "lt", "ut", "wb"]):
        if op == "multiply" and k1 != "zero":
            continue  # see broadcast_findings
        yield binary(prop, op, npop, k1, k2, "mn", "11", "", "", flag2)
        yield binary(prop, op, npop, k2, k1, "11", "mn", "", "", flag2)


def shared(prop, op, npop, kinds, batches=("", "b")):
    """Operands that are the same object, or share components."""
    for k in kinds:
        for b in batches:
            for tag, p, second, sec in [
                ("same-object", "mn", lambda a: a, lambda d: d),
                ("with-transpose", "nn", lambda a: B.transpose(a), D.T),
            ]:
                if head(k) in ("diag", "lt", "ut", "wb") or "sym" in k:
                    p = "nn"

                def build(w, k=k, b=b, p=p):
                    return Args(arg(w, k, "a", p, b, axes(w, p, (k,))))

                yield Case(
                    prop, f"{op}({k}[{b},{p}],{tag})", build,
                    lambda c, second=second: getattr(B, op)(c.objs[0], second(c.objs[0])),
                    matrix_post(lambda c, sec=sec: npop(c.dens[0], sec(c.dens[0]))), [f"ops/{op}.py"], opname=op,
                )


SIBLINGS = ["dense", "diag", "const", "lt", "lr", "lr:mid", "lr:mid:mat", "wb", "wb:mid", "kron"]


def siblings(prop, op, npop, kinds, batches=("", "b"), call=None, tag="", **kw):
    """Operands that are put together from some of the same components."""
    f = call or (lambda a, b: getattr(B, op)(a, b))
    for k in kinds:
        for what in SHARED[head(k)]:
            if what == "middle" and "mid" not in k:
                continue
            for b in batches:
                p = "nn" if head(k) in ("diag", "lt", "ut", "wb") or what == "right,left" else "mn"
                for swap in (False, True):
                    def build(w, k=k, b=b, p=p, what=what, swap=swap):
                        ax = axes(w, p, (k,))
                        a = arg(w, k, "a", p, b, ax)
                        out = [a, sibling(w, a, k, what, ax[p[0]], ax[p[1]], bt(w, b))]
                        return Args(*(out[::-1] if swap else out))

                    yield Case(
                        prop, f"{op}({k}[{b},{p}],shares {what}{',swapped' if swap else ''}){tag}", build,
                        lambda c: f(*c.objs), matrix_post(lambda c: npop(*c.dens)), [f"ops/{op}.py"], opname=op,
                        **kw,
                    )


def c01():
    yield from operator_cases("C01", "+", operator.add, npx.add)
    yield from operator_cases("C01", "-", operator.sub, npx.subtract)
    yield from align_cases()
    for op, f in (("add", npx.add), ("subtract", npx.subtract)):
        yield from siblings("C01", op, f, SIBLINGS)
    for op, f in (("add", npx.add), ("subtract", npx.subtract)):
        kinds = ["dense", "zero", "diag", "const", "lt", "ut", "lr", "lr:mid", "lr:mid:sym", "wb:mid:sym", "kron", "kron:same"]
        yield from shared("C01", op, f, kinds + (["tiled"] if op == "add" else []))
    for op, f in (("add", npx.add), ("subtract", npx.subtract)):
        for c in grid("C01", op, f, SQ):
            yield c
        yield from shapes("C01", op, f)
        yield from deep("C01", op, f)
    for k1, p1, k2, p2 in [
        ("diag", "nn", "diag", "11"), ("lt", "nn", "lt", "11"), ("lt", "nn", "diag", "11"), ("ut", "nn", "ut", "11"),
        ("ut", "nn", "diag", "11"), ("wb", "nn", "diag", "11"), ("wb", "nn", "wb", "11"), ("wb", "nn", "lr", "11"),
        ("diag", "nn", "wb", "11"), ("lt", "nn", "wb", "11"), ("ut", "nn", "lt", "11"), ("diag", "nn", "lr", "11"),
        ("diag", "nn", "kron", "11"), ("lr", "mn", "lr", "11"), ("lr", "mn", "lr", "1n"), ("lr", "mn", "lr", "m1"),
        ("lr", "m1", "lr", "1n"), ("dense", "m1", "const", "1n"), ("const", "m1", "const", "1n"), ("zero", "m1", "dense", "1n"),
    ]:
        yield binary("C01", "add", npx.add, k1, k2, p1, p2, tag="self-broadcast")
        yield binary("C01", "add", npx.add, k2, k1, p2, p1, tag="self-broadcast-swapped")


def align_post(w, ck, c, r):
    """The contract of `align` that its callers rely on, for its real body."""
    a, b = c.dens
    p, q = (int(D.unwrap(D.shp(x)[-1])) for x in (a, b))
    ap, bp, aj, bj = ([int(i) for i in x] for x in r)
    n = len(ap)
    ck.true(n == len(bp) == len(aj) == len(bj) and n <= p + q, "lengths")
    ck.true(sorted(i for i in ap if i != -1) == list(range(p)) and all(-1 <= i < p for i in aj), "columns of the first")
    ck.true(sorted(i for i in bp if i != -1) == list(range(q)) and all(-1 <= i < q for i in bj), "columns of the second")

    def col(x, i):
        # An index of minus one gives a column of zeros.
        return npx.zeros(D.shp(x)[:-1]) if i == -1 else x[..., i]

    for k in range(n):
        joined = npx.add(col(a, aj[k]), col(b, bj[k]))
        for x, i, what in ((a, ap[k], "first"), (b, bp[k], "second")):
            if i != -1:
                want = npx.add(col(x, i), npx.multiply(joined, 0))
                ck.equal(joined, want, f"joined columns of the {what}", rtol=1e-4, atol=1e-4)


def align_loop(f):
    """Any numbers of columns, by an invariant of the loop."""
    from .. import alignloop

    try:
        stages = alignloop.stages(f)
    except (ValueError, OSError, SyntaxError):
        return  # another form: the bounded cases only
    for (stage, run, post), (b1, b2) in itertools.product(
        stages, (("", ""), ("b", "b"), ("b", ""), ("", "b"), ("b", "1"), ("1", "b"), ("cb", "b"), ("cb", "cb"), ("b", "cb"))
    ):
        def build(w, b1=b1, b2=b2):
            n, p, q = w.dim("n", 1), w.dim("p", 1), w.dim("q", 1)
            x, y = w.T("a", bt(w, b1) + (n, p)), w.T("b", bt(w, b2) + (n, q))
            if not D.is_sym() and b1 == b2:
                # Columns of the first recur in the second.
                x[..., 0], x[..., -1] = y[..., -1], y[..., q // 2]
            # One more than the numbers of indices that remain.
            left = w.dim("leftp", 1), w.dim("leftq", 1)
            return Args(Inst(Dense(x), x, "dense", "dense"), Inst(Dense(y), y, "dense", "dense"), left=left)

        def call(c, run=run):
            return run(c) if D.is_sym() else f(*c.objs)

        def check(w, ck, c, r, post=post):
            (post if D.is_sym() else align_post)(w, ck, c, r)

        yield Case("C01", f"align:loop:{stage}[{b1};{b2}]", build, call, check, ["ops/algorithms/align.py"], opname="align")


def align_cases():
    try:
        from matrix.ops.algorithms import align as mod
    except ImportError:
        return  # without that function there is no contract to verify
    f = getattr(mod, "align", mod)
    f = getattr(f, "__wrapped__", f)
    yield from align_loop(f)
    for p, q in itertools.product((1, 2, 3), (1, 2, 3)):
        for b1, b2 in (("", ""), ("b", "b"), ("b", ""), ("", "b"), ("b", "1"), ("1", "b"), ("cb", "b"), ("cb", "cb")):
            for share in ("none", "first", "last", "all"):
                def build(w, p=p, q=q, b1=b1, b2=b2, share=share):
                    n = w.dim("n")
                    x, y = (w.T(m, bt(w, bb) + (n, k)) for m, k, bb in (("a", p, b1), ("b", q, b2)))
                    if share != "none" and b1 == b2:
                        # Columns of the first recur in the second.
                        idx = {"first": [0], "last": [p - 1], "all": list(range(p))[::-1]}[share]
                        y = npx.concatenate([y] + [x[..., i : i + 1] for i in idx], axis=-1)
                    return Args(Inst(Dense(x), x, "dense", "dense"), Inst(Dense(y), y, "dense", "dense"))

                if share != "none" and b1 != b2:
                    continue
                few = p + q + {"none": 0, "all": p}.get(share, 1) <= 3
                yield Case(
                    "C01", f"align:{share}(dense[{b1},n{p}],dense[{b2},n{q}])", build, lambda c: f(*c.objs), align_post,
                    ["ops/algorithms/align.py"], opname="align", num_only=not few,
                    bounded="at most 3 columns in total" if few else "concrete runs only",
                )


def c02():
    yield from operator_cases("C02", "*", operator.mul, npx.multiply)
    yield from operator_cases("C02", "/", operator.truediv, npx.divide)
    yield from siblings("C02", "multiply", npx.multiply, ["dense", "diag", "const", "lt", "lr", "lr:mid", "wb:mid", "kron"])
    kinds = ["dense", "zero", "diag", "const", "lt", "ut", "lr:mid", "lr", "wb:mid", "wb", "kron", "kron:same", "tiled"]
    yield from shared("C02", "multiply", npx.multiply, kinds)
    for k in ("kron:same", "kron:Lone", "kron:Rone", "kron:LRone", "kron:same:L=diag"):
        for o in ("const", "scalar", "dense", "num", k):
            for b1, b2 in batches_for(k, o, 0):
                yield binary("C02", "multiply", npx.multiply, k, o, "nn", "nn", b1, b2)
                if o != k:
                    yield binary("C02", "multiply", npx.multiply, o, k, "nn", "nn", b2, b1)
    for c in grid("C02", "multiply", npx.multiply, SQ):
        yield c
    yield from shapes("C02", "multiply", npx.multiply)
    yield from deep("C02", "multiply", npx.multiply)
    for c in low_rank_products():
        yield c
    # Division.
    pos = ["dense", "num", "const", "scalar", "lr:mid", "kron", "tiled", "lr"]
    for k1, k2 in itertools.product(SQ + ["num", "scalar"], pos):
        if raw(k1) and raw(k2) or not compatible_plans(k1, k2):
            continue
        if not tiled_ok("multiply", k1, k2, "", "") and k2 != "tiled":
            pass
        for b1, b2 in batches_for(k1, k2, 1):
            yield binary("C02", "divide", npx.divide, k1, k2, "nn", "nn", b1, b2, "pos")
    for k1, k2 in itertools.product(RECT, ["dense", "num", "const"]):
        if k1 == "num" and k2 == "num":
            continue
        for p2 in ("mn", "1n", "m1", "11"):
            yield binary("C02", "divide", npx.divide, k1, k2, "mn", p2, "", "", "pos")
    yield from broadcast_findings()


def low_rank_products():
    """Any rank, by the comprehension rule; and concrete runs with higher ranks."""
    for k1, k2 in itertools.product(["lr", "lr:mid", "wb:mid", "lr:mid:mat", "lr:sym"], repeat=2):
        for b1, b2 in [("", ""), ("b", "b"), ("b", ""), ("", "b"), ("cb", "b")]:
            yield binary("C02", "multiply", npx.multiply, k1, k2, "nn", "nn", b1, b2, tag="any rank")
    # Higher ranks.
    for k1, k2 in (("lr:mid", "lr:mid"), ("lr", "lr:mid"), ("wb:mid", "lr"), ("lr:mid", "wb")):
        for b1, b2 in [("", ""), ("b", "")]:
            for ra, rb in ((5, 2), (2, 6), (4, 4)):
                yield binary(
                    "C02", "multiply", npx.multiply, f"{k1}:rk={ra}", f"{k2}:rk={rb}", "nn", "nn", b1, b2,
                    bounded="concrete runs only", num_only=True,
                )
    for p1, p2 in [("mn", "mn"), ("mn", "1n"), ("mn", "m1"), ("m1", "1n"), ("mn", "11")]:
        yield binary(
            "C02", "multiply", npx.multiply, "lr:mid", "lr:mid", p1, p2, tag="rect",
        )


def broadcast_findings():
    """Element-wise products in which a structured operand is itself broadcast along a
    matrix dimension: one obligation per implementation."""
    for k1, p1, k2, p2 in [
        ("const", "mn", "lr", "1n"), ("const", "mn", "kron", "1n"), ("const", "mn", "diag", "11"),
        ("lt", "11", "dense", "mn"), ("ut", "11", "dense", "mn"), ("wb", "11", "dense", "mn"),
        ("diag", "11", "dense", "mn"), ("const", "mn", "lt", "11"), ("const", "mn", "ut", "11"),
        ("diag", "nn", "diag", "11"), ("lt", "nn", "lt", "11"), ("lt", "nn", "diag", "11"),
    ]:
        yield binary("C02", "multiply", npx.multiply, k1, k2, p1, p2, tag="self-broadcast")
