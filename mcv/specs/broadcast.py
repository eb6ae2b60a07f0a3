"""Broadcasting of matrices, of batch dimensions, and of shapes."""

import sys

from lab.shape import Shape

from .. import den as D
from ..cases import Args, Case, arg, axes, bt, head, matrix_post
from ..hooks import B, npx
S = sys.modules["matrix.shape"]
from .structure import DEEP, PARTIAL, PARTIAL2, VARIANTS, square_only, unary, variants

BATCHES = [("", ""), ("", "b"), ("", "cb"), ("b", "b"), ("b", "cb"), ("1", "b"), ("1b", "cb"), ("b1", "bc"), ("1", "cb"), ("1", "1")]


def usable(s, b):
    if any(o in PARTIAL2 for o in s.split(":")):
        return len(b) >= 2
    return b and b.strip("1") or not any(o in PARTIAL for o in s.split(":"))


def target(w, ax, b, p):
    return bt(w, b) + (ax[p[0]].size, ax[p[1]].size)


def to_shape(s, p, b, p2, b2, tag="broadcast_to", call=None):
    def build(w):
        ax = axes(w, p + p2, (s,))
        return Args(arg(w, s, "a", p, b, ax), shape=target(w, ax, b2, p2))

    return Case(
        "C14", f"{tag}({s}[{b},{p}]->[{b2},{p2}])", build, call or (lambda c: B.broadcast_to(c.objs[0], *c.shape)),
        matrix_post(lambda c: npx.broadcast_to(c.dens[0], c.shape)), ["ops/broadcast_to.py", "ops/broadcast_batch_to.py"], opname=tag,
    )


def broadcasts():
    for s in VARIANTS + ["num"]:
        for b, b2 in BATCHES:
            if not usable(s, b):
                continue
            for p in ("nn",) if square_only(s) else ("nn", "mn"):
                if s != "num":
                    yield to_shape(s, p, b, p, b2)
                yield to_shape(s, p, b, p, b2, "broadcast_batch_to", lambda c: B.broadcast_batch_to(c.objs[0], *c.shape[:-2]))
    for s in DEEP:
        for b, b2 in (("", "dcb"), ("b", "dcb"), ("d1b", "dcb"), ("1c1", "dcb"), ("dcb", "dcb"), ("1", "edcb")):
            for p in ("nn",) if square_only(s) else ("nn", "mn"):
                yield to_shape(s, p, b, p, b2)
                yield to_shape(s, p, b, p, b2, "broadcast_batch_to", lambda c: B.broadcast_batch_to(c.objs[0], *c.shape[:-2]))
    for s in ["dense", "zero", "const", "lr", "lr:mid", "lr:sym", "diag", "lt", "ut", "wb", "kron", "tiled", "tiled:-1"]:
        for b, b2 in BATCHES:
            for p, p2 in (("1n", "mn"), ("n1", "nm"), ("11", "mn"), ("11", "nn"), ("11", "11"), ("11", "1n")):
                if (square_only(s) or s == "lr:sym") and p != "11" or head(s) in ("kron", "tiled"):
                    continue
                yield to_shape(s, p, b, p2, b2)


# ------------------------------------------------------------------ aligning


def align_post(w, ck, c, r):
    batch = D.bshape(*[D.shp(d)[:-2] for d in c.dens])
    r = r if isinstance(r, (list, tuple)) else [r]
    ck.true(len(r) == len(c.dens), "number of results")
    for x, d in zip(r, c.dens):
        ck.matrix(x, npx.broadcast_to(d, batch + D.shp(d)[-2:]))


def aligns():
    from matrix.ops.util import align_batch, batch_ones

    f = ["ops/util.py", "ops/broadcast_batch_to.py", "ops/shape_batch_broadcast.py"]
    kinds = ["dense", "zero", "const", "diag", "lr:mid", "wb", "lt", "ut", "kron", "tiled", "num"]
    pb = [("", ""), ("b", ""), ("", "b"), ("b", "b"), ("1", "b"), ("1b", "c1"), ("b", "cb")]
    for s in kinds:
        for t in kinds:
            if head(s) in ("kron", "tiled") and head(t) in ("kron", "tiled"):
                continue
            for b1, b2 in pb:
                def build(w, s=s, t=t, b1=b1, b2=b2):
                    ax = axes(w, "npq", (s, t))
                    p2 = "pp" if square_only(t) else "pq"
                    return Args(arg(w, s, "a", "nn", b1, ax), arg(w, t, "b", p2, b2, ax))

                yield Case("C14", f"align_batch({s}[{b1}],{t}[{b2}])", build, lambda c: align_batch(*c.objs), align_post, f, opname="align_batch")
    for s, t, u in (("dense", "zero", "diag"), ("lr", "num", "wb"), ("const", "lt", "dense")):
        for b1, b2, b3 in (("", "", "b"), ("b", "cb", "1"), ("1", "c1", "b"), ("b", "b", "b")):
            def build3(w, s=s, t=t, u=u, b1=b1, b2=b2, b3=b3):
                ax = axes(w, "npq", (s, t, u))
                return Args(arg(w, s, "a", "nn", b1, ax), arg(w, t, "b", "pp", b2, ax), arg(w, u, "c", "qq", b3, ax))

            yield Case("C14", f"align_batch({s}[{b1}],{t}[{b2}],{u}[{b3}])", build3, lambda c: align_batch(*c.objs), align_post, f, opname="align_batch")
            yield Case(
                "C14", f"align_batch[]({s}[{b1}],{t}[{b2}],{u}[{b3}])", build3,
                lambda c: [x for xs in align_batch([c.objs[0], c.objs[1]], [c.objs[2]]) for x in xs], align_post, f, opname="align_batch",
            )
    # More operands.
    for ss, bs in (
        (("dense", "zero", "diag", "lr"), ("", "", "", "b")), (("dense", "zero", "diag", "lr"), ("b", "", "1", "cb")),
        (("num", "const", "wb", "lt", "zero"), ("", "1", "b", "", "c1")), (("dense",) * 5, ("", "", "", "", "b")),
        (("dense",) * 6, ("1", "", "", "1", "b", "c1")),
    ):
        def build4(w, ss=ss, bs=bs):
            ax = axes(w, "npqrst", ss)
            return Args(*[arg(w, s, "abcdef"[i], "npqrst"[i] * 2, bs[i], ax) for i, s in enumerate(ss)])

        name = ",".join(f"{s}[{b}]" for s, b in zip(ss, bs))
        yield Case("C14", f"align_batch({name})", build4, lambda c: align_batch(*c.objs), align_post, f, opname="align_batch")
    for s in kinds:
        for b in ("", "b", "cb"):
            def build1(w, s=s, b=b):
                ax = axes(w, "n", (s,))
                return Args(arg(w, s, "a", "nn", b, ax))

            yield Case("C14", f"align_batch({s}[{b}])", build1, lambda c: align_batch(*c.objs), align_post, f, opname="align_batch")
            yield Case(
                "C14", f"batch_ones({s}[{b}])", build1, lambda c: batch_ones(c.objs[0]),
                lambda w, ck, c, r, b=b: ck.true(tuple(r) == (1,) * len(b), "ones"), f, opname="batch_ones",
            )


# ------------------------------------------------------------------ shapes


def same_shape(ck, got, want, what="shape"):
    got = tuple(got)
    ck.true(len(got) == len(want), what, f"{got} instead of {want}")
    for g, x in zip(got, want):
        ck.true(bool(D.unwrap(g) == D.unwrap(x)), what, f"{got} instead of {want}")


def shapes():
    kinds = ["dense", "zero", "const", "diag", "lr", "wb", "lt", "kron", "tiled", "num"]
    funs = {
        "shape_broadcast": (lambda xs: B.shape_broadcast(*xs), lambda s: s),
        "shape_batch_broadcast": (lambda xs: B.shape_batch_broadcast(*xs), lambda s: s[:-2]),
        "shape_matrix_broadcast": (lambda xs: B.shape_matrix_broadcast(*xs), lambda s: s[-2:]),
    }
    combos = []
    for s in kinds:
        for t in kinds:
            if head(s) in ("kron", "tiled") and head(t) in ("kron", "tiled"):
                continue
            for b1, b2 in (("", ""), ("b", ""), ("1", "b"), ("1b", "c1"), ("b", "cb")):
                for p1, p2 in (("nn", "nn"), ("11", "nn"), ("1n", "n1"), ("mn", "1n"), ("nn", "11")):
                    if any(square_only(x) and p[0] != p[1] or head(x) in ("kron", "tiled") and "1" in p for x, p in ((s, p1), (t, p2))):
                        continue
                    combos.append([(s, p1, b1), (t, p2, b2)])
    combos += [[("dense", "1n", "1"), ("zero", "m1", ""), ("const", "mn", "b")], [("num", "nn", "b1"), ("diag", "11", "c"), ("lt", "nn", "1")]]
    combos += [
        [("dense", "1n", "1"), ("zero", "m1", ""), ("const", "11", "b"), ("num", "11", "c1")],
        [("dense", "11", ""), ("dense", "11", ""), ("dense", "11", "1"), ("dense", "11", ""), ("num", "mn", "b")],
        [("dense", "11", ""), ("diag", "11", "1"), ("lr", "1n", ""), ("num", "m1", ""), ("zero", "11", "b"), ("const", "11", "c1")],
    ]
    combos += [[(s, "nn", b)] for s in kinds for b in ("", "b")]
    for ops in combos:
        name = ",".join(f"{s}[{b},{p}]" for s, p, b in ops)
        for tag, (f, part) in funs.items():
            def build(w, ops=ops):
                ax = axes(w, "".join(p for _, p, _ in ops), [s for s, _, _ in ops])
                return Args(*[arg(w, s, "abcdef"[k], p, b, ax) for k, (s, p, b) in enumerate(ops)])

            yield Case(
                "C14", f"{tag}({name})", build, lambda c, f=f: f(c.objs),
                lambda w, ck, c, r, part=part: same_shape(ck, r, D.bshape(*[part(D.shp(d)) for d in c.dens])), [f"ops/{tag}.py", "shape.py"], opname=tag,
            )
    # The functions on shapes themselves, with arbitrary sizes.
    LENS = ((1, 1), (2, 2), (0, 2), (2, 0), (1, 3), (3, 2), (1, 1, 1), (0, 1, 2), (2, 0, 1), (2,), (0,), (1,) * 4, (1,) * 5, (0, 1, 0, 2))
    for lens, lb in [(x, y) for x in LENS for y in (1, 0) if y or sum(x) < 5]:
        for wrap in ("tuple", "Shape"):
            def build(w, lens=lens, lb=lb):
                return Args(shapes=[tuple(w.dim(f"s{i}{k}", lb) for k in range(n)) for i, n in enumerate(lens)])

            def post(w, ck, c, r, wrap=wrap, lens=lens):
                xs = [Shape(*s) if wrap == "Shape" else s for s in c.shapes]
                try:
                    want = D.bshape(*c.shapes)
                except ValueError:
                    want = None
                if want is None:
                    ck.raises(lambda: S.expand_and_broadcast(*xs), "incompatible shapes must be rejected")
                    if len(lens) == 2:
                        ck.true(not S.compatible(*xs), "incompatible")
                else:
                    same_shape(ck, S.expand_and_broadcast(*xs), want)
                    if len(lens) == 2:
                        ck.true(bool(S.compatible(*xs)), "compatible")
                        S.assert_compatible(*xs)
                    if len(set(lens)) == 1:
                        same_shape(ck, S.broadcast(*xs), want)

            yield Case("C14", f"expand_and_broadcast:{wrap}{lens}{'' if lb else 'empty'}".replace(" ", ""), build, lambda c: None, post, ["shape.py"], opname="expand_and_broadcast")


def c14():
    yield from broadcasts()
    yield from aligns()
    yield from shapes()
