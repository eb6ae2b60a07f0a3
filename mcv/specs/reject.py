"""Operands whose shapes do not fit are rejected."""

import itertools

import numpy as np

import matrix as M
from .. import den as D
from ..cases import Args, Case, SQUARE_ONLY, arg, axes, bt, head
from ..hooks import B, npx
from ..run import Skip
from .elementwise import compatible_plans

KINDS = ["dense", "zero", "diag", "const", "lt", "ut", "lr", "lr:mid", "wb", "wb:mid", "kron", "tiled", "num"]


def differ(*pairs):
    """Precondition: these sizes differ."""
    for a, b in pairs:
        if bool(D.unwrap(a) == D.unwrap(b)):
            raise Skip


def rejected(name, build, call, functions, **kw):
    return Case("C17", name, build, lambda c: None, lambda w, ck, c, r: ck.raises(lambda: call(c), "accepted"), functions, **kw)


def two(op, call, k1, k2, p1, p2, b1, b2, pairs, functions, tag="", flag=None, **kw):
    """`pairs`: pairs of letters of sizes that must differ."""

    def build(w):
        ax = axes(w, [c for c in p1 + p2 if c != "1"], (k1, k2))
        size = lambda l: w.dim("B" + l[1:]) if l[0] == "B" else ax[l].size
        differ(*((size(x), size(y)) for x, y in pairs))
        return Args(arg(w, k1, "a", p1, b1, ax, flag), arg(w, k2, "b", p2, b2, ax, flag))

    return rejected(f"{op}({k1}[{b1},{p1}],{k2}[{b2},{p2}]){tag}", build, lambda c: call(*c.objs), functions, opname=op, **kw)


def sq(k):
    return head(k) in SQUARE_ONLY


def pairs(kinds=KINDS):
    for k1, k2 in itertools.product(kinds, kinds):
        if (k1, k2) != ("num", "num") and compatible_plans(k1, k2):
            yield k1, k2


def elementwise():
    for op in ("add", "subtract", "multiply", "divide"):
        f = getattr(B, op)
        fs = [f"ops/{op}.py", "ops/shape_broadcast.py", "shape.py"]
        for k1, k2 in pairs():
            flag = "pos" if op == "divide" else None
            for b1, b2 in [("", ""), ("b", "b"), ("b", "")]:
                if op in ("subtract", "divide") and b1 != b2:
                    continue
                p1 = "nn" if sq(k1) else "mn"
                for p2, differs in [
                    ("kk", [("k", p1[0]), ("k", p1[1])]),
                    (p1[0] + "k", [("k", p1[1])]),
                    ("k" + p1[1], [("k", p1[0])]),
                ]:
                    if sq(k2) and p2 != "kk":
                        continue
                    yield two(op, f, k1, k2, p1, p2, b1, b2, differs, fs, flag=flag)
            if op in ("add", "multiply"):
                p1 = "nn" if sq(k1) or sq(k2) else "mn"
                for b1, b2, differs in [("b", "c", [("Bb", "Bc")]), ("bc", "c1", []) , ("cb", "d", [("Bb", "Bd")])]:
                    if not differs:
                        continue
                    yield two(op, f, k1, k2, p1, p1, b1, b2, differs, fs)


def products():
    fs = ["ops/matmul.py"]
    for k1, k2 in pairs([k for k in KINDS if k != "tiled"]):
        for ta, tb in itertools.product((False, True), repeat=2):
            p1 = "nn" if sq(k1) else "mn"
            p2 = "kk" if sq(k2) else "kl"
            flags = ("T" if ta else "N") + ("T" if tb else "N")
            inner = (p1[0] if ta else p1[1], p2[1] if tb else p2[0])
            call = lambda a, b, ta=ta, tb=tb: B.matmul(a, b, tr_a=ta, tr_b=tb)
            for b1, b2 in [("", ""), ("b", "b"), ("b", ""), ("", "b")]:
                if (b1, b2) != ("", "") and ta != tb:
                    continue
                yield two("matmul", call, k1, k2, p1, p2, b1, b2, [inner], fs, tag=flags)
            yield two("matmul", call, k1, k2, "nn", "nn", "b", "c", [("Bb", "Bc")], fs, tag=flags + ":batch")
            dcall = lambda a, b, ta=ta, tb=tb: B.matmul_diag(a, b, tr_a=ta, tr_b=tb)
            yield two("matmul_diag", dcall, k1, k2, p1, p2, "", "", [inner], ["ops/matmul_diag.py"], tag=flags)


def one(tag, call, k, p, b, pairs, functions, flag=None, extra=None, **kw):
    def build(w):
        ax = axes(w, [c for c in p if c != "1"], (k,))
        size = lambda l: ax[l].size if l in ax else w.dim(l)
        differ(*((size(x), size(y)) for x, y in pairs))
        c = Args(arg(w, k, "a", p, b, ax, flag))
        c.d = lambda n: D.unwrap(ax[n].size if n in ax else w.dim(n))
        c.w = w
        return c

    return rejected(f"{tag}({k}[{b},{p}])", build, call, functions, opname=tag, **kw)


def square():
    """Operations on square matrices only."""
    kinds = ["dense", "zero", "const", "lr", "lr:mid", "lr:sym", "lr:dmid", "kron", "kron:R=const", "tiled", "tiled:B=dense"]
    for name in ("inv", "pd_inv", "cholesky", "root", "logdet", "eye"):
        for k in kinds:
            for b in ("", "b"):
                if k == "lr:sym":
                    continue
                yield one(name, lambda c, f=getattr(B, name): f(c.objs[0]), k, "mn", b, ["mn"], [f"ops/{name}.py"], "pos" if k == "const" else None)


def systems():
    rhs = ["dense", "zero", "const", "lr", "lr:mid", "diag", "lt", "ut", "wb", "kron", "num", "tiled"]
    for k1, k2 in itertools.product(["dense", "diag", "lt", "ut", "wb", "wb:mid", "kron", "const", "lr", "num"], rhs):
        if not compatible_plans(k1, k2) or (k1, k2) == ("num", "num"):
            continue
        p2 = "kk" if sq(k2) else "kl"
        flag = "inv" if head(k1) in ("dense", "diag", "lt", "ut", "wb", "kron", "num") else None
        for b1, b2 in [("", ""), ("b", "b"), ("", "b")]:
            yield three("solve", lambda a, b: B.solve(a, b), k1, k2, None, "nn", p2, None, b1, b2, ["nk"], ["ops/solve.py"], flag)
            if head(k1) in ("dense", "kron", "const", "lr", "num"):
                p2r = "mm" if sq(k2) else "ml"
                yield three("solve", lambda a, b: B.solve(a, b), k1, k2, None, "mn", p2r, None, b1, b2, ["mn"], ["ops/solve.py"], tag=":rect")
            if b1 == b2 and head(k1) in ("diag", "lt", "ut"):
                yield three("cholesky_solve", lambda a, b: B.cholesky_solve(a, b), k1, k2, None, "nn", p2, None, b1, b2, ["nk"], ["ops/cholesky_solve.py"], flag)
                if head(k1) != "diag":
                    up = k1 == "ut"
                    yield three("triangular_solve", lambda a, b, up=up: B.triangular_solve(a, b, lower_a=not up), k1, k2, None, "nn", p2, None, b1, b2, ["nk"], ["ops/triangular_solve.py"], flag)
        yield three("solve", lambda a, b: B.solve(a, b), k1, k2, None, "nn", "nn", None, "b", "c", ["bc"], ["ops/solve.py"], flag, tag=":batch")
    for k1 in ("dense", "diag", "wb:mid", "kron"):
        for k2 in ("dense", "zero", "const", "diag", "lr", "num"):
            for k3 in ("dense", "zero", "num"):
                if not compatible_plans(k1, k2):
                    continue
                p2 = "kk" if sq(k2) else "kl"
                for name in ("iqf", "iqf_diag"):
                    f = getattr(B, name)
                    yield three(name, f, k1, k2, k3, "nn", p2, "n" + p2[1], "", "", ["nk"], [f"ops/{name}.py"], "pd", tag=":second")
                    yield three(name, f, k1, k3, k2, "nn", "n" + p2[1], p2, "", "", ["nk"], [f"ops/{name}.py"], "pd", tag=":third")
            yield three("ratio", B.ratio, k2, k1, None, "kk", "nn", None, "", "", ["nk"], ["ops/ratio.py"], "pd", tag="") if k2 not in ("zero", "const", "lr") else None


def three(op, call, k1, k2, k3, p1, p2, p3, b1, b2, pairs, functions, flag=None, tag="", **kw):
    ks = [k for k in (k1, k2, k3) if k]

    def build(w):
        ax = axes(w, [c for c in p1 + p2 + (p3 or "") if c != "1"], ks)
        size = lambda l: ax[l].size if l in ax else w.dim("B" + l)
        differ(*((size(x), size(y)) for x, y in pairs))
        args = [arg(w, k1, "a", p1, b1, ax, flag), arg(w, k2, "b", p2, b2, ax, "pd" if op == "ratio" else None)]
        if k3:
            args.append(arg(w, k3, "c", p3, b2, ax))
        return Args(*args)

    name = f"{op}({k1}[{b1},{p1}],{k2}[{b2},{p2}]" + (f",{k3}[{b2},{p3}]" if k3 else "") + f"){tag}"
    return rejected(name, build, lambda c: call(*c.objs), functions, opname=op, **kw)


def constructors():
    def case(name, tensors, call, functions, pairs=()):
        """`tensors`: patterns of plain arrays."""

        def build(w):
            differ(*((w.dim(x), w.dim(y)) for x, y in pairs))
            ts = [w.T(f"t{i}", tuple(1 if c == "1" else w.dim(c) for c in p)) for i, p in enumerate(tensors)]
            return Args(ts=ts, d=lambda n: D.unwrap(w.dim(n)))

        return rejected(name, build, lambda c: call(c, *c.ts), functions)

    f = ["lowrank.py"]
    wraps = {"num": lambda x: x, "dense": lambda x: M.Dense(x)}
    for b in ("", "b"):
        for t, wr in wraps.items():
            yield case(f"LowRank:left-middle:{t}[{b}]", [b + "nr", b + "ms", b + "ks"], lambda c, l, r, m, wr=wr: M.LowRank(wr(l), wr(r), wr(m)), f, ["rk"])
            yield case(f"LowRank:right-middle:{t}[{b}]", [b + "nr", b + "ms", b + "rk"], lambda c, l, r, m, wr=wr: M.LowRank(wr(l), wr(r), wr(m)), f, ["sk"])
            yield case(f"LowRank:left-right:{t}[{b}]", [b + "nr", b + "ms"], lambda c, l, r, wr=wr: M.LowRank(wr(l), wr(r)), f, ["rs"])
            yield case(f"LowRank:only-middle-left:{t}[{b}]", [b + "nr", b + "ks"], lambda c, l, m, wr=wr: M.LowRank(wr(l), middle=wr(m)), f, ["rk"])
            yield case(f"LowRank:only-middle-right:{t}[{b}]", [b + "nr", b + "rs"], lambda c, l, m, wr=wr: M.LowRank(wr(l), middle=wr(m)), f, ["rs"])
        yield case(f"Woodbury:size[{b}]", [b + "n", b + "mr", b + "mr"], lambda c, d, l, r: M.Woodbury(M.Diagonal(d), M.LowRank(l, r)), ["woodbury.py"], ["nm"])
        yield case(f"Woodbury:rows[{b}]", [b + "n", b + "mr", b + "nr"], lambda c, d, l, r: M.Woodbury(M.Diagonal(d), M.LowRank(l, r)), ["woodbury.py"], ["nm"])
        yield case(f"Woodbury:cols[{b}]", [b + "n", b + "nr", b + "mr"], lambda c, d, l, r: M.Woodbury(M.Diagonal(d), M.LowRank(l, r)), ["woodbury.py"], ["nm"])
    yield case("Woodbury:batch", ["bn", "cnr", "cnr"], lambda c, d, l, r: M.Woodbury(M.Diagonal(d), M.LowRank(l, r)), ["woodbury.py"], ["bc"])
    for p in ("", "n"):
        yield case(f"LowRank:left-rank{len(p)}", [p, "nr"], lambda c, l, r: M.LowRank(l, r), f)
        yield case(f"LowRank:only-left-rank{len(p)}", [p], lambda c, l: M.LowRank(l), f)
        yield case(f"LowRank:right-rank{len(p)}", ["nr", p], lambda c, l, r: M.LowRank(l, r), f)
        yield case(f"LowRank:middle-rank{len(p)}", ["nr", p], lambda c, l, m: M.LowRank(l, l, m), f)
        yield case(f"LowerTriangular:rank{len(p)}", [p], lambda c, x: M.LowerTriangular(x), ["triangular.py"])
        yield case(f"UpperTriangular:rank{len(p)}", [p], lambda c, x: M.UpperTriangular(x), ["triangular.py"])
        yield case(f"TiledBlocks:rank{len(p)}", [p], lambda c, x: M.TiledBlocks(x, c.d("q")), ["tiledblocks.py"])
        yield case(f"TiledBlocks:second-rank{len(p)}", ["mn", p], lambda c, x, y: M.TiledBlocks((x, c.d("q")), (y, c.d("s"))), ["tiledblocks.py"])
    yield case("Diagonal:rank0", [""], lambda c, x: M.Diagonal(x), ["diagonal.py"])
    yield case("Zero:one-dimension", [], lambda c: M.Zero(float, c.d("n")), ["constant.py"])
    yield case("Zero:no-dimension", [], lambda c: M.Zero(float), ["constant.py"])
    yield case("Constant:one-dimension", [""], lambda c, x: M.Constant(x, c.d("n")), ["constant.py"])
    yield case("Constant:no-dimension", [""], lambda c, x: M.Constant(x), ["constant.py"])
    yield case("Constant:batch", ["b"], lambda c, x: M.Constant(x, c.d("c"), c.d("m"), c.d("n")), ["constant.py"], ["bc"])
    yield case("Constant:batch2", ["bd"], lambda c, x: M.Constant(x, c.d("c"), c.d("m"), c.d("n")), ["constant.py"], ["dc"])
    yield case("Constant:batch3", ["b"], lambda c, x: M.Constant(x, c.d("d"), c.d("c"), c.d("m"), c.d("n")), ["constant.py"], ["bc"])
    # Shapes.
    for tag, s1, s2, pr in [("last", "mn", "mk", ["nk"]), ("first", "mn", "kn", ["mk"]), ("ranks", "bmn", "kn", ["mk"]), ("batch", "bmn", "cmn", ["bc"]), ("one", "b1n", "c1", ["bc"])]:
        if tag == "one":
            s1, s2 = "b1n", "c1n"
        for nm in ("shape_broadcast", "shape_batch_broadcast", "shape_matrix_broadcast"):
            if nm == "shape_batch_broadcast" and tag not in ("batch", "one") or nm == "shape_matrix_broadcast" and tag in ("batch", "one"):
                continue
            yield case(f"{nm}:{tag}", [s1, s2], lambda c, x, y, nm=nm: getattr(B, nm)(M.Dense(x), M.Dense(y)), [f"ops/{nm}.py", "shape.py"], pr)
            yield case(f"{nm}:{tag}:three", [s1, s1, s2], lambda c, x, z, y, nm=nm: getattr(B, nm)(M.Dense(x), z, M.Dense(y)), [f"ops/{nm}.py", "shape.py"], pr)
    import sys

    sh = sys.modules["matrix.shape"]
    for tag, s1, s2, pr in [("last", "mn", "mk", ["nk"]), ("rank", "mn", "bmn", []), ("first", "mn", "kn", ["mk"])]:
        yield case(f"broadcast:{tag}", [], lambda c, s1=s1, s2=s2: sh.broadcast(tuple(map(c.d, s1)), tuple(map(c.d, s2))), ["shape.py"], pr)
    for tag, s1, s2, pr in [("last", "mn", "mk", ["nk"]), ("rank", "bmn", "kn", ["mk"])]:
        yield case(f"assert_compatible:{tag}", [], lambda c, s1=s1, s2=s2: sh.assert_compatible(tuple(map(c.d, s1)), tuple(map(c.d, s2))), ["shape.py"], pr)


def selections():
    kinds = ["dense", "zero", "diag", "const", "lt", "ut", "lr", "lr:mid", "wb", "wb:mid", "kron", "tiled"]
    for k in kinds:
        p = "nn" if sq(k) else "mn"
        for b in ("", "b"):
            scal = lambda c: c.d("x")
            mat = lambda c: np.zeros((2, 2), dtype=int)
            for t, ix in (("matrix", mat),):
                for ax_ in (-2, -1):
                    yield one(f"take:axis={ax_}:{t}", lambda c, ix=ix, ax_=ax_: B.take(c.objs[0], ix(c), axis=ax_), k, p, b, [], ["ops/take.py"])
                if k != "kron":
                    yield one(f"submatrix:{t}", lambda c, ix=ix: B.submatrix(c.objs[0], ix(c)), k, "nn", b, [], ["ops/submatrix.py"])
            for ax_ in (len(b) + 2, -len(b) - 3):
                yield one(f"take:axis={ax_}", lambda c, ax_=ax_: B.take(c.objs[0], [0], axis=ax_), k, p, b, [], ["ops/take.py"])
            # Broadcasting.
            bs = lambda c, b=b: tuple(c.w.dim("B" + x) for x in b)
            for t, to, pr in [
                ("rows", lambda c, p=p: bs(c) + (c.d("k"), c.d(p[1])), ["k" + p[0]]), ("cols", lambda c, p=p: bs(c) + (c.d(p[0]), c.d("k")), ["k" + p[1]]),
                ("to-one", lambda c, p=p: bs(c) + (1, c.d(p[1])), []), ("cols-to-one", lambda c, p=p: bs(c) + (c.d(p[0]), 1), []),
                ("rank", lambda c, p=p: (c.d(p[1]),), []),
            ]:
                yield one(f"broadcast_to:{t}", lambda c, to=to: B.broadcast_to(c.objs[0], *to(c)), k, p, b, pr, ["ops/broadcast_to.py"])
            if b:
                for t, to in [("batch", lambda c, p=p: (c.d("k"), c.d(p[0]), c.d(p[1]))), ("fewer", lambda c, p=p: (c.d(p[0]), c.d(p[1]))), ("batch-to-one", lambda c, p=p: (1, c.d(p[0]), c.d(p[1])))]:
                    pr = [("k", "Bb")] if t == "batch" else []
                    yield one(f"broadcast_to:{t}", lambda c, to=to: B.broadcast_to(c.objs[0], *to(c)), k, p, b, pr, ["ops/broadcast_to.py"])
                    yield one(f"broadcast_batch_to:{t}", lambda c, to=to: B.broadcast_batch_to(c.objs[0], *to(c)[:-2]), k, p, b, pr, ["ops/broadcast_batch_to.py"])
            if k in ("zero", "const"):
                for r in (1, 3 if not b else 2, 4):
                    yield one(f"tile:{r}", lambda c, r=r: B.tile(c.objs[0], *[c.d("q")] * r), k, p, b, [], ["ops/tile.py"])
    for k1, k2 in pairs([x for x in kinds if x not in ("tiled",)] + ["num"]):
        for ax_ in (-2, -1):
            p1 = "nn" if sq(k1) else "mn"
            p2 = "kk" if sq(k2) else "lk" if ax_ == -2 else "kl"
            yield two(f"concat:axis={ax_}", lambda a, b, ax_=ax_: B.concat(a, b, axis=ax_), k1, k2, p1, p2, "", "", [("k", p1[1] if ax_ == -2 else p1[0])], ["ops/concat.py"])


def c17():
    yield from elementwise()
    yield from products()
    yield from square()
    yield from (c for c in systems() if c)
    yield from constructors()
    yield from selections()
