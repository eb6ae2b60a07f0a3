"""Selections and rearrangements of entries: indexing, taking, submatrices, reshaping,
squeezing."""

from .. import den as D
from ..cases import Args, Case, arg, axes, bt, head, matrix_post
from ..hooks import B, npx
from .structure import VARIANTS, deep, square_only, unary, variants

# The forms which the methods for taking and for submatrices distinguish, and the ways in
# which their components can be batched.
KINDS = [
    k
    for k in VARIANTS
    if not any(o in k for o in ("L=", "R=", "same", "one:", "Lone", "Rone")) or k in ("kron:L=diag", "kron:R=zero", "kron:L=lr+mid", "kron:same")
]


def selection(tag, s, p, b, axis, kind, call, spec, functions):
    def build(w):
        ax = axes(w, p, (s,))
        a = arg(w, s, "a", p, b, ax)
        n = D.unwrap(a.shape[axis])
        return Args(a, index=w.index("i", n, kind))

    return Case("C13", f"{tag}:{kind}({s}[{b},{p}])", build, call, matrix_post(spec), functions, opname=tag)


def const_index(tag, s, p, b, call, spec, functions):
    """Index sets given as lists and tuples."""
    return unary("C13", tag, s, p, b, call, matrix_post(spec), functions)


def c13():
    for s, p, b in [*variants(kinds=KINDS), *deep()]:
        n = len(b) + 2
        for kind in ("idx", "mask"):
            for axis in range(-n, n):
                if axis >= 0 and kind == "mask":
                    continue
                yield selection(
                    f"take:axis={axis}", s, p, b, axis, kind, lambda c, x=axis: B.take(c.objs[0], c.index, axis=x),
                    lambda c, x=axis: D.take(c.dens[0], c.index, x), ["ops/take.py"],
                )
            yield selection(
                "take", s, p, b, -2, kind, lambda c: B.take(c.objs[0], c.index),
                lambda c: D.take(c.dens[0], c.index, -2), ["ops/take.py"],
            )
            if p == "nn":
                yield selection(
                    "submatrix", s, p, b, -1, kind, lambda c: B.submatrix(c.objs[0], c.index),
                    lambda c: D.take(D.take(c.dens[0], c.index, -2), c.index, -1), ["ops/submatrix.py"],
                )
        if b in ("", "b"):
            for seq in ([0, 1], (1,)):
                t = str(seq).replace(" ", "")
                if True:
                    yield unary(
                        "C13", f"take:list={t}", s, p, b, lambda c, q=seq: B.take(c.objs[0], q),
                        matrix_post(lambda c, q=seq: pick(c.dens[0], q, -2)), ["ops/take.py"],
                    )
                    yield unary(
                        "C13", f"take:list={t}:axis=-1", s, p, b, lambda c, q=seq: B.take(c.objs[0], q, axis=-1),
                        matrix_post(lambda c, q=seq: pick(c.dens[0], q, -1)), ["ops/take.py"],
                    )
                if p == "nn":
                    yield unary(
                        "C13", f"submatrix:list={t}", s, p, b, lambda c, q=seq: B.submatrix(c.objs[0], q),
                        matrix_post(lambda c, q=seq: pick(pick(c.dens[0], q, -2), q, -1)), ["ops/submatrix.py"],
                    )
    yield from getitems()
    yield from reshapes()
    yield from squeezes()


def pick(d, q, axis):
    return npx.concatenate([slice_at(d, k, axis) for k in q], axis=axis)


def slice_at(d, k, axis):
    return d[(Ellipsis, slice(k, k + 1)) + (slice(None),) * (-1 - axis)]


# ------------------------------------------------------------------ indexing


def getitems():
    items = {
        "[0]": lambda c: 0,
        "[-1]": lambda c: -1,
        "[0,1]": lambda c: (0, 1),
        "[:,0]": lambda c: (slice(None), 0),
        "[...,1]": lambda c: (Ellipsis, 1),
        "[1:]": lambda c: slice(1, None),
        "[:1,...,1:]": lambda c: (slice(None, 1), Ellipsis, slice(1, None)),
        "[...,:-1]": lambda c: (Ellipsis, slice(None, -1)),
        "[None]": lambda c: None,
        "[...]": lambda c: Ellipsis,
        "[::-1]": lambda c: slice(None, None, -1),
        "[:,::-1]": lambda c: (slice(None), slice(None, None, -1)),
        "[...,::-1]": lambda c: (Ellipsis, slice(None, None, -1)),
        # Other steps.
        "[::2]": lambda c: slice(None, None, 2),
        "[-1::-2]": lambda c: slice(-1, None, -2),
        "[...,1::2]": lambda c: (Ellipsis, slice(1, None, 2)),
        "[...,None,:0:-1]": lambda c: (Ellipsis, None, slice(None, 0, -1)),
    }
    kinds = ["dense", "zero", "const", "diag", "lt", "ut", "lr", "lr:mid", "lr:nolb", "lr:norb", "wb", "wb:nodb:mid", "kron", "kron:nolb", "tiled", "tiled:-1"]
    for s, p, b in variants(("", "b"), kinds=kinds):
        for t, f in items.items():
            yield unary(
                "C13", f"getitem{t}", s, p, b, lambda c, f=f: c.objs[0][f(c)],
                matrix_post(lambda c, f=f: c.dens[0][f(c)]), ["matrix.py"],
            )
        for kind in ("idx", "mask"):
            yield selection(
                "getitem[index]", s, p, b, 0, kind, lambda c: c.objs[0][listed(c.index)],
                lambda c: D.take(c.dens[0], c.index, 0), ["matrix.py"],
            )
            yield selection(
                "getitem[...,index]", s, p, b, -1, kind, lambda c: c.objs[0][..., listed(c.index)],
                lambda c: D.take(c.dens[0], c.index, -1), ["matrix.py"],
            )


def listed(x):
    # A tuple has another meaning between brackets.
    return list(x) if isinstance(x, tuple) else x


# ------------------------------------------------------------------ reshaping


def prod(xs):
    out = 1
    for x in xs:
        out = D.unwrap(x) * out
    return out


def shapes_for(c):
    s = tuple(D.unwrap(d) for d in D.shp(c.dens[0]))
    out = {
        "same": s,
        "flat": (prod(s),),
        "-1": (-1,),
        "ones": (1,) + s + (1,),
        "rows,cols=1": s[:-1] + (s[-1], 1),
        "merge-last": s[:-2] + (s[-2] * s[-1],),
    }
    if len(s) > 2:
        out["merge-first"] = (s[0] * s[1],) + s[2:]
        out["merge-first,-1"] = (-1,) + s[2:]
    else:
        out["row,-1"] = (s[0], -1)
    return out


NAMES = {"": ("same", "flat", "-1", "ones", "rows,cols=1", "row,-1"), "b": ("flat", "-1", "ones", "merge-last", "merge-first", "merge-first,-1")}
SOME = ["dense", "zero", "const", "diag", "lt", "ut", "lr", "lr:mid", "lr:nolb", "lr:norb", "wb", "wb:nodb:mid", "kron", "kron:nolb", "kron:norb", "tiled", "tiled:-1", "tiled:nob2"]


def reshapes():
    for s, p, b in variants(("", "b"), kinds=SOME):
        for nm in NAMES[b]:
            def spec(c, nm=nm):
                return npx.reshape(c.dens[0], shapes_for(c)[nm])

            for tag, f in (
                ("B.reshape", lambda a, sh: B.reshape(a, *sh)),
                (".reshape", lambda a, sh: a.reshape(*sh)),
                (".reshape()", lambda a, sh: a.reshape(sh)),
                (".reshape[]", lambda a, sh: a.reshape(list(sh))),
            ):
                if tag != "B.reshape" and nm not in ("flat", "-1", "merge-first"):
                    continue
                yield unary(
                    "C13", f"{tag}:{nm}", s, p, b, lambda c, f=f, nm=nm: f(c.objs[0], shapes_for(c)[nm]),
                    matrix_post(spec), ["ops/reshape.py", "matrix.py"],
                )
        yield unary("C13", "flatten", s, p, b, lambda c: c.objs[0].flatten(), matrix_post(lambda c: npx.reshape(c.dens[0], (-1,))), ["matrix.py"])


def squeezes():
    for s in SOME:
        if head(s) in ("kron", "tiled"):
            pats = ("nn", "mn")
        elif square_only(s):
            pats = ("nn", "11")
        else:
            pats = ("nn", "mn", "1n", "n1", "11")
        for p in pats:
            for b in ("", "b", "1", "1b", "b1"):
                if any(o in s.split(":") for o in ("nolb", "norb", "nodb", "nob2")) and not b:
                    continue
                for tag, f in (("B.squeeze", lambda c: B.squeeze(c.objs[0])), (".squeeze", lambda c: c.objs[0].squeeze())):
                    yield unary("C13", tag, s, p, b, f, matrix_post(lambda c: npx.squeeze(c.dens[0])), ["ops/squeeze.py", "matrix.py"])
