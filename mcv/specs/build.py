"""Matrices put together from others: Kronecker products, tilings, concatenations, blocks,
block-diagonal matrices."""

from .. import den as D
from ..cases import Args, Case, arg, axes, bt, head, matrix_post
from ..hooks import B, npx
from ..inst import Ax, Inst, axis as mkaxis, sibling
from .structure import PARTIAL, deep, VARIANTS, square_only, unary, variants

ALL = ["dense", "zero", "const", "diag", "lt", "ut", "lr", "lr:mid", "wb", "wb:mid", "kron", "tiled", "tiled:-1"]
PLAIN = ["dense", "zero", "const", "diag", "lt", "ut", "lr:mid", "wb"]


def pats(s, letters):
    """Shape patterns: square or rectangular."""
    m, n = letters
    return (n + n,) if square_only(s) or s.endswith("sym") else (m + n,)


def grid(w, specs_pats_batches, flag=None, common=()):
    """Several operands with shared letters for dimensions."""
    ax = axes(w, "".join(p for _, p, _ in specs_pats_batches), [s for s, _, _ in specs_pats_batches])
    return Args(*[arg(w, s, "abcdefghijklmnopqrstuvwxyz"[k], p, b, ax, flag) for k, (s, p, b) in enumerate(specs_pats_batches)])


def many(tag, ops, call, spec, functions, label=None, **kw):
    name = label or ",".join(f"{s}[{b},{p}]" for s, p, b in ops)
    return Case("C12", f"{tag}({name})", lambda w: grid(w, ops), call, matrix_post(spec), functions, opname=tag, **kw)


# ------------------------------------------------------------------ Kronecker products


def krons():
    pb = [("", ""), ("b", "b"), ("b", ""), ("", "b")]
    for s in ALL + ["num"]:
        for t in ALL + ["num"]:
            if s == t == "num":
                continue
            if head(s) == "kron" and head(t) in ("kron", "tiled") or head(s) == "tiled" and head(t) in ("kron", "tiled"):
                continue
            for b1, b2 in pb + ([("1", "b"), ("b", "1")] if (s, t) in (("const", "const"), ("zero", "dense"), ("dense", "zero"), ("dense", "dense"), ("const", "zero"), ("zero", "zero"), ("diag", "diag")) else []):
                ops = [(s, pats(s, "mn")[0], b1), (t, pats(t, "pq")[0], b2)]
                yield many("kron", ops, lambda c: B.kron(*c.objs), lambda c: D.kron(*c.dens), ["ops/kron.py", "kronecker.py"])


# ------------------------------------------------------------------ tilings


def tiles():
    kinds = list(VARIANTS)
    for s, p, b in [*variants(kinds=kinds), *deep()]:
        if head(s) in ("kron", "tiled") and len(b) > 1:
            continue

        def build(w, s=s, p=p, b=b):
            ax = axes(w, p, (s,))
            a = arg(w, s, "a", p, b, ax)
            return Args(a, reps=[w.dim(f"reps{k}", 1) for k in range(len(b) + 2)])

        yield Case(
            "C12", f"tile({s}[{b},{p}])", build, lambda c: B.tile(c.objs[0], *c.reps),
            matrix_post(lambda c: npx.tile(c.dens[0], tuple(c.reps))), ["ops/tile.py"], opname="tile",
        )


# ------------------------------------------------------------------ concatenations


def concats():
    pairs = []
    for s in ALL:
        for t in ALL:
            if head(s) in ("kron", "tiled") and head(t) in ("kron", "tiled") and s != t:
                continue
            if head(s) in ("kron", "tiled") and t not in ("dense", "zero", "lr", s) or head(t) in ("kron", "tiled") and s not in ("dense", "zero", "lr", t):
                continue
            pairs.append((s, t))
    for s, t in pairs:
        sq = square_only(s) or square_only(t)
        for b in ("", "b"):
            n = len(b) + 2
            for ax in ["default", *range(-n, n)]:
                k = (0 if ax == "default" else ax) % n - n
                if ax not in ("default", -1, -2, 0) and not (s == t or "zero" in (s, t)):
                    continue
                # Dimensions along the axis may differ where the types allow it.
                if sq and (square_only(s) and square_only(t) or head(s) in ("kron", "tiled") or head(t) in ("kron", "tiled")):
                    p1 = p2 = "nn"
                elif square_only(s) or square_only(t):
                    p = {-2: "mn", -1: "nm"}.get(k, "nn")
                    p1, p2 = ("nn", p) if square_only(s) else (p, "nn")
                else:
                    p1, p2 = ("mn", {-2: "pn", -1: "mp"}.get(k, "mn"))
                if head(s) in ("kron", "tiled") or head(t) in ("kron", "tiled"):
                    p2 = p1
                b2 = "c" if k == -3 else b
                kw = {} if ax == "default" else {"axis": ax}
                yield many(
                    f"concat:axis={ax}", [(s, p1, b), (t, p2, b2)], lambda c, kw=kw: B.concat(*c.objs, **kw),
                    lambda c, k=k: npx.concatenate(c.dens, axis=k), ["ops/concat.py"],
                )
    for ops in (
        [("dense", "mn", ""), ("zero", "pn", ""), ("lr", "qn", "")],
        [("diag", "nn", "b"), ("dense", "pn", "b"), ("const", "qn", "b")],
    ):
        yield many("concat3", ops, lambda c: B.concat(*c.objs, axis=-2), lambda c: npx.concatenate(c.dens, axis=-2), ["ops/concat.py"])
    for b in ("", "b"):
        yield many("concat4", [("dense", "mn", b), ("zero", "pn", b), ("lr", "qn", b), ("const", "rn", b)], lambda c: B.concat(*c.objs, axis=-2), lambda c: npx.concatenate(c.dens, axis=-2), ["ops/concat.py"])
        yield many("concat4", [("dense", "mn", b), ("diag", "mm", b), ("num", "mp", b), ("kron", "mm", b)], lambda c: B.concat(*c.objs, axis=-1), lambda c: npx.concatenate(c.dens, axis=-1), ["ops/concat.py"])
        yield many("concat5", [("zero", "mn", b), ("zero", "pn", b), ("zero", "qn", b), ("zero", "rn", b), ("zero", "sn", b)], lambda c: B.concat(*c.objs, axis=-2), lambda c: npx.concatenate(c.dens, axis=-2), ["ops/concat.py"])
        yield many("concat6", [("dense", "mn", b), ("zero", "mp", b), ("lr", "mq", b), ("const", "mr", b), ("num", "ms", b), ("wb", "mm", b)], lambda c: B.concat(*c.objs, axis=-1), lambda c: npx.concatenate(c.dens, axis=-1), ["ops/concat.py"])
    yield many("concat1", [("diag", "nn", "")], lambda c: B.concat(*c.objs, axis=-2), lambda c: c.dens[0], ["ops/concat.py"])
    # Tiled blocks.
    for s, t in (("tiled", "tiled"), ("tiled:-1", "tiled:-1"), ("tiled", "tiled:-1"), ("tiled:B=dense", "tiled"), ("tiled:nob2", "tiled"), ("tiled:0", "tiled:0"), ("tiled:0", "tiled"), ("tiled:-3:two", "tiled:-3")):
        for b in ("", "b"):
            if not b and any(x in s for x in ("nob2", ":0", "-3")):
                continue
            for ax in (-2, -1, 0) + ((-3,) if b else ()):
                nd = len(b) + 2
                k = ax % nd - nd
                batchy = ":0" in s or "-3" in s
                if batchy and (t == "tiled" or k != -3):
                    # Their batch dimensions differ.
                    continue
                yield many(
                    f"concat-tiled:axis={ax}", [(s, "mn", b), (t, "mn", b)], lambda c, x=ax: B.concat(*c.objs, axis=x),
                    lambda c, x=ax: npx.concatenate(c.dens, axis=x), ["ops/concat.py", "tiledblocks.py"],
                )


def shared_blocks():
    """Operands that share components."""
    for s in ("tiled", "tiled:-1", "tiled:B=dense", "tiled:0", "tiled:-1:B=lr+mid"):
        for b in ("", "b"):
            if s == "tiled:0" and not b:
                continue
            for x in (-2, -1):
                if x == (-1 if ":-1" in s else -2):
                    ax = 0 if s == "tiled:0" else x

                    def build(w, s=s, b=b):
                        axs = axes(w, "mn", (s,))
                        a = arg(w, s, "a", "mn", b, axs)
                        return Args(a, sibling(w, a, s, "blocks", axs["m"], axs["n"], bt(w, b)))

                    for tag, f, g in (
                        ("ab", lambda c, ax=ax: B.concat(*c.objs, axis=ax), lambda c, ax=ax: npx.concatenate(c.dens, axis=ax)),
                        ("ba", lambda c, ax=ax: B.concat(*c.objs[::-1], axis=ax), lambda c, ax=ax: npx.concatenate(c.dens[::-1], axis=ax)),
                        ("aa", lambda c, ax=ax: B.concat(c.objs[0], c.objs[0], axis=ax), lambda c, ax=ax: npx.concatenate([c.dens[0]] * 2, axis=ax)),
                        ("aba", lambda c, ax=ax: B.concat(c.objs[0], c.objs[1], c.objs[0], axis=ax), lambda c, ax=ax: npx.concatenate([c.dens[0], c.dens[1], c.dens[0]], axis=ax)),
                    ):
                        yield Case("C12", f"concat-shared:{tag}:axis={ax}({s}[{b},mn])", build, f, matrix_post(g), ["ops/concat.py", "tiledblocks.py"], opname="concat")
    for s in ("dense", "diag", "zero", "const", "lr:mid", "wb", "kron", "num"):
        for b in ("", "b"):
            def one(w, s=s, b=b):
                return grid(w, [(s, "nn", b)])

            f = ["ops/concat.py", "ops/block.py", "ops/block_diag.py", "ops/kron.py"]
            mk = lambda tag, call, spec: Case("C12", f"{tag}:same-object({s}[{b},nn])", one, call, matrix_post(spec), f, opname=tag)
            if s != "num":
                yield mk("concat", lambda c: B.concat(c.objs[0], c.objs[0], axis=-1), lambda c: npx.concatenate([c.dens[0]] * 2, axis=-1))
            yield mk("block", lambda c: B.block([c.objs[0], c.objs[0]], [c.objs[0], c.objs[0]]), lambda c: block_spec([c.dens[0]] * 4, 2))
            yield mk("block_diag", lambda c: B.block_diag(c.objs[0], c.objs[0]), lambda c: blockdiag_spec([c.dens[0]] * 2))
            if s not in ("kron", "num"):
                yield mk("kron", lambda c: B.kron(c.objs[0], c.objs[0]), lambda c: D.kron(c.dens[0], c.dens[0]))


# ------------------------------------------------------------------ blocks


def broadcast_all(dens):
    batch = D.bshape(*[D.shp(d)[:-2] for d in dens])
    return [npx.broadcast_to(d, batch + D.shp(d)[-2:]) for d in dens]


def block_spec(dens, ncols):
    ds = broadcast_all(dens)
    rows = [npx.concatenate(ds[k : k + ncols], axis=-1) for k in range(0, len(ds), ncols)]
    return npx.concatenate(rows, axis=-2)


def block_case(ops, ncols, mod=None):
    def call(c):
        rows = [list(c.objs[k : k + ncols]) for k in range(0, len(c.objs), ncols)]
        return B.block(*rows)

    return many(f"block:{len(ops) // ncols}x{ncols}", ops, call, lambda c: block_spec(c.dens, ncols), ["ops/block.py"])


def blocks():
    D1 = ["dense", "zero", "const", "diag", "lt", "ut", "lr:mid", "wb", "kron", "tiled", "num"]
    for s in D1:
        for b in ("", "b"):
            yield block_case([(s, "nn", b)], 1)
    sq = ["dense", "zero", "diag", "lt", "lr", "wb", "num", "const"]
    for s in sq:
        for t in sq:
            for b1, b2 in (("", ""), ("b", ""), ("", "b"), ("b", "b"), ("1", "b"), ("cb", "b")):
                if (b1, b2) in (("1", "b"), ("cb", "b")) and not {s, t} <= {"zero", "dense", "diag"}:
                    continue
                if s == t == "num" and b1 != b2 and "" in (b1, b2) and False:
                    continue
                pt = "nn" if square_only(t) else "nq"
                yield block_case([(s, "nn", b1), (t, pt, b2)], 2)
                pt = "nn" if square_only(t) else "qn"
                yield block_case([(s, "nn", b1), (t, pt, b2)], 1)
    # Two by two.
    quads = [
        ("zero", "zero", "zero", "zero"), ("diag", "zero", "zero", "diag"), ("zero", "zero", "zero", "diag"), ("diag", "zero", "zero", "zero"),
        ("diag", "dense", "zero", "diag"), ("diag", "zero", "dense", "diag"), ("dense", "zero", "zero", "diag"), ("diag", "zero", "zero", "lt"),
        ("zero", "diag", "diag", "zero"), ("dense", "dense", "dense", "dense"), ("num", "num", "num", "num"), ("lt", "zero", "dense", "lt"),
        ("wb", "lr", "lr", "wb"), ("const", "num", "dense", "lr"), ("diag", "const", "const", "diag"), ("zero", "num", "num", "zero"),
    ]
    for q in quads:
        for bs in (("", "", "", ""), ("b", "b", "b", "b"), ("b", "", "", ""), ("", "b", "", ""), ("", "", "", "b"), ("1", "", "b", "")):
            for p in ("nnnn", "npqr"):
                pp = ("nn", "nn", "nn", "nn") if p == "nnnn" else ("nn", "nm", "mn", "mm")
                if p == "npqr" and any(square_only(q[k]) for k in (1, 2)):
                    continue
                yield block_case([(q[k], pp[k], bs[k]) for k in range(4)], 2)
    # Blocks off the square: a zero on the diagonal that is not square.
    for q in (("zero", "zero", "zero", "diag"), ("diag", "zero", "zero", "zero"), ("zero", "zero", "zero", "dense"), ("zero", "zero", "zero", "zero")):
        for b in ("", "b"):
            pp = ("mn", "mp", "pn", "pp") if q[0] == "zero" else ("nn", "nq", "mn", "mq")
            yield block_case([(q[k], pp[k], b) for k in range(4)], 2)
    # Three rows or columns, and grids that are not square.
    for b in ("", "b"):
        yield block_case([("diag", "nn", b), ("zero", "np", ""), ("zero", "nq", ""), ("zero", "pn", ""), ("diag", "pp", ""), ("zero", "pq", ""), ("zero", "qn", ""), ("zero", "qp", ""), ("diag", "qq", b)], 3)
        yield block_case([("diag", "nn", b), ("zero", "np", ""), ("zero", "pn", ""), ("diag", "pp", ""), ("zero", "qn", ""), ("zero", "qp", "")], 2)
        yield block_case([("diag", "nn", b), ("zero", "np", ""), ("zero", "nq", b), ("zero", "pn", ""), ("diag", "pp", ""), ("zero", "pq", "")], 3)
        yield block_case([("diag", "nn", b), ("zero", "np", ""), ("dense", "nq", b), ("lr", "mn", ""), ("const", "mp", ""), ("num", "mq", "")], 3)
        yield block_case([("dense", "mn", b), ("zero", "mp", ""), ("lr", "mq", b)], 3)
        # Four and five.
        z = lambda p: ("zero", p, "")
        four = "npqr"
        for ds in (("diag",) * 4, ("diag", "dense", "diag", "zero"), ("zero",) * 4):
            grid4 = [(ds[i], x + x, b) if i == j else z(x + y) for i, x in enumerate(four) for j, y in enumerate(four)]
            yield block_case(grid4, 4)
        yield block_case([("dense", "mn", b), z("mp"), ("lr", "mq", b), ("const", "mr", ""), ("num", "ms", b)], 5)
        yield block_case([("dense", "nm", b), z("pm"), ("lr", "qm", b), ("const", "rm", ""), ("num", "sm", b)], 1)


# ------------------------------------------------------------------ block-diagonal matrices


def blockdiag_spec(dens):
    ds = broadcast_all(dens)
    rows = []
    for i, d in enumerate(ds):
        b, n = D.shp(d)[:-2], D.shp(d)[-2]
        rows.append(npx.concatenate([e if i == j else npx.zeros(b + (n, D.shp(e)[-1])) for j, e in enumerate(ds)], axis=-1))
    return npx.concatenate(rows, axis=-2)


def blockdiags():
    kinds = ["dense", "zero", "const", "diag", "lt", "lr:mid", "wb", "num", "kron"]
    f = ["ops/block_diag.py"]
    for s in kinds + ["ut", "tiled"]:
        if s == "tiled":
            continue
        for b in ("", "b"):
            yield many("block_diag", [(s, pats(s, "mn")[0], b)], lambda c: B.block_diag(*c.objs), lambda c: blockdiag_spec(c.dens), f)
    for s in kinds:
        for t in kinds:
            if s == t == "kron":
                continue
            for b1, b2 in (("", ""), ("b", "b"), ("b", ""), ("", "b"), ("1", "b"), ("cb", "b")):
                if b1 in ("1", "cb") and not {s, t} <= {"zero", "dense", "diag", "num"}:
                    continue
                ops = [(s, pats(s, "mn")[0], b1), (t, pats(t, "pq")[0], b2)]
                yield many("block_diag", ops, lambda c: B.block_diag(*c.objs), lambda c: blockdiag_spec(c.dens), f)
                if s == t:
                    yield many("block_diag:same-size", [(s, pats(s, "mn")[0], b1), (t, pats(t, "mn")[0], b2)], lambda c: B.block_diag(*c.objs), lambda c: blockdiag_spec(c.dens), f)
    for many_ in (("diag",) * 4, ("dense", "zero", "num", "diag"), ("zero",) * 4, ("dense",) * 5, ("lr", "diag", "zero", "wb", "num", "const")):
        for b in ("", "b"):
            ops = [(s, pats(s, q)[0], b if k != 1 else "") for k, (s, q) in enumerate(zip(many_, ("mn", "pq", "rs", "tu", "vw", "xy")))]
            yield many("block_diag", ops, lambda c: B.block_diag(*c.objs), lambda c: blockdiag_spec(c.dens), f)
    for tri in (("dense", "zero", "num"), ("diag", "diag", "diag"), ("zero", "zero", "zero"), ("num", "num", "num"), ("diag", "zero", "lr"), ("zero", "diag", "dense"), ("lt", "wb", "const")):
        for bs in (("", "", ""), ("b", "b", "b"), ("", "", "b"), ("b", "", ""), ("1", "", "b")):
            ops = [(s, pats(s, q)[0], b) for s, q, b in zip(tri, ("mn", "pq", "rs"), bs)]
            yield many("block_diag", ops, lambda c: B.block_diag(*c.objs), lambda c: blockdiag_spec(c.dens), f)
    # Tiled blocks: every repetition of every block.
    for s in ("tiled", "tiled:-1", "tiled:B=dense", "tiled:B=diag:B2=dense", "tiled:nob2", "tiled:B=zero:B2=lr+mid", "tiled:B=const"):
        for b in ("", "b"):
            if "nob2" in s and not b:
                continue

            def spec(c):
                a = c.objs[0]
                out = []
                for blk, q in zip(a.blocks, a.reps):
                    out.append(D.kron(D.eye(D.unwrap(q)), D.den(blk)))
                return blockdiag_spec(out)

            def build(w, s=s, b=b):
                return grid(w, [(s, "mn" if "diag" not in s else "nn", b)])

            if "diag" in s:
                continue
            yield Case("C12", f"block_diag({s}[{b}])", build, lambda c: B.block_diag(*c.objs), matrix_post(spec), f, opname="block_diag")


def c12():
    yield from krons()
    yield from tiles()
    yield from concats()
    yield from shared_blocks()
    yield from blocks()
    yield from blockdiags()
