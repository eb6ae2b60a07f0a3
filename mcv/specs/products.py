"""Matrix products."""

import itertools

from .. import den as D
from ..cases import Args, Case, SQUARE_ONLY, arg, axes, head, matrix_post
from ..hooks import B, npx
from .elementwise import SIBLINGS, siblings

KINDS = ["dense", "zero", "diag", "const", "lt", "ut", "lr", "lr:mid", "wb:mid", "kron", "num"]


def tr(x, do):
    return D.T(x) if do else x


def product(prop, k1, k2, rect, b1, b2, ta, tb, thorough=False, tag="", **kw):
    sq1, sq2 = head(k1) in SQUARE_ONLY, head(k2) in SQUARE_ONLY
    p1 = "kk" if sq1 else ("nk" if rect else "kk")
    p2 = "kk" if sq2 else ("km" if rect else "kk")
    if ta:
        p1 = p1[::-1]
    if tb:
        p2 = p2[::-1]

    def build(w):
        ax = axes(w, p1 + p2, (k1, k2))
        return Args(arg(w, k1, "a", p1, b1, ax), arg(w, k2, "b", p2, b2, ax))

    flags = ("T" if ta else "N") + ("T" if tb else "N")
    name = f"matmul({k1}[{b1},{p1}],{k2}[{b2},{p2}],{flags}){tag}"
    return Case(
        prop, name, build,
        lambda c: B.matmul(*c.objs, tr_a=ta, tr_b=tb) if (ta or tb) else B.matmul(*c.objs),
        matrix_post(lambda c: npx.matmul(tr(c.dens[0], ta), tr(c.dens[1], tb))),
        ["ops/matmul.py"], opname="matmul", thorough=thorough, **kw,
    )


BATCH = [("", ""), ("b", "b"), ("b", ""), ("", "b")]
MORE = [("b", "1"), ("1", "b"), ("cb", "b")]


def c03():
    for k1, k2 in itertools.product(KINDS, KINDS):
        if k1 == "num" and k2 == "num":
            continue
        for rect in (True, False):
            if not rect and (head(k1) in SQUARE_ONLY) and (head(k2) in SQUARE_ONLY):
                continue
            for b1, b2 in BATCH + MORE:
                for ta, tb in itertools.product((False, True), repeat=2):
                    if not rect and (b1, b2) != ("", ""):
                        continue
                    th = (b1, b2) in MORE and (ta, tb) != (False, False)
                    yield product("C03", k1, k2, rect, b1, b2, ta, tb, th)
    # More batch dimensions.
    for k in ("dense", "zero", "diag", "const", "lt", "lr:mid", "wb:mid", "kron"):
        for b1, b2 in (("dcb", "dcb"), ("dcb", ""), ("b", "dcb"), ("d1b", "cb")):
            for ta, tb in ((False, False), (True, False), (False, True)):
                yield product("C03", k, "dense", True, b1, b2, ta, tb)
                if k != "dense":
                    yield product("C03", "dense", k, True, b1, b2, ta, tb)
            if k != "dense":
                yield product("C03", k, k, True, b1, b2, False, False)
            yield product_diag(k, "dense", b1, b2, False, False)
    # Three operands.
    three = [
        ("dense", "dense", "dense"), ("num", "dense", "num"), ("lr", "dense", "lr:mid"), ("diag", "dense", "lt"),
        ("dense", "diag", "dense"), ("const", "dense", "zero"), ("dense", "wb:mid", "dense"), ("lt", "ut", "diag"),
        ("kron", "dense", "kron"), ("num", "num", "num"), ("dense", "lr:mid", "dense"), ("ut", "dense", "const"),
        ("kron", "dense", "dense"),
    ]
    for ks in three:
        for b in ("", "b"):
            for flags in itertools.product((False, True), repeat=3):
                yield triple(ks, b, flags, thorough=ks == ("kron", "dense", "kron"))
    # Diagonals of products.
    for k1, k2 in itertools.product(KINDS, KINDS):
        if k1 == "num" and k2 == "num":
            pass
        low = {head(k1), head(k2)} in ({"lr", "wb"}, {"wb"})
        for b1, b2 in BATCH:
            for ta, tb in itertools.product((False, True), repeat=2):
                yield product_diag(k1, k2, b1, b2, ta, tb)
                if low:
                    yield product_diag(f"{k1}:rk=5", f"{k2}:rk=3", b1, b2, ta, tb, bounded="concrete runs only", num_only=True)
    yield from shared_products()
    for ta, tb in ((False, True), (True, False)):
        yield from siblings(
            "C03", "matmul", lambda x, y, ta=ta, tb=tb: npx.matmul(tr(x, ta), tr(y, tb)), SIBLINGS,
            call=lambda a, b, ta=ta, tb=tb: B.matmul(a, b, tr_a=ta, tr_b=tb), tag="TN" if ta else "NT",
        )
    for c in operators():
        yield c


def shared_products():
    """Operands that are the same object, or share components."""
    kinds = ["dense", "diag", "const", "lt", "ut", "lr", "lr:mid", "lr:mid:mat", "wb:mid", "kron", "kron:same", "kron:LRone", "zero"]
    for k in kinds:
        for b in ("", "b"):
            sq = head(k) in SQUARE_ONLY

            def build(w, k=k, b=b, p="nn"):
                return Args(arg(w, k, "a", p, b, axes(w, p, (k,))))

            for ta, tb in itertools.product((False, True), repeat=2):
                p = "nn" if sq or ta == tb else "nk"
                f = ("T" if ta else "N") + ("T" if tb else "N")
                yield Case(
                    "C03", f"matmul({k}[{b},{p}],same-object,{f})", lambda w, k=k, b=b, p=p: build(w, k, b, p),
                    lambda c, ta=ta, tb=tb: B.matmul(c.objs[0], c.objs[0], tr_a=ta, tr_b=tb),
                    matrix_post(lambda c, ta=ta, tb=tb: npx.matmul(tr(c.dens[0], ta), tr(c.dens[0], tb))),
                    ["ops/matmul.py"], opname="matmul",
                )
                if head(k) not in ("wb", "lr"):
                    yield Case(
                        "C03", f"matmul_diag({k}[{b},{p}],same-object,{f})", lambda w, k=k, b=b, p=p: build(w, k, b, p),
                        lambda c, ta=ta, tb=tb: B.matmul_diag(c.objs[0], c.objs[0], tr_a=ta, tr_b=tb),
                        matrix_post(lambda c, ta=ta, tb=tb: npx.diagonal(npx.matmul(tr(c.dens[0], ta), tr(c.dens[0], tb)), 0, -2, -1)),
                        ["ops/matmul_diag.py"], opname="matmul_diag",
                    )
    # The same object as the first and last factor.
    for k1, k2 in [("dense", "dense"), ("num", "num"), ("diag", "dense"), ("dense", "diag"), ("lt", "dense"), ("lr", "dense"), ("dense", "wb:mid")]:
        for b in ("", "b"):
            for flags in itertools.product((False, True), repeat=3):
                sq1, sq2 = head(k1) in SQUARE_ONLY, head(k2) in SQUARE_ONLY
                n, m = ("n", "n") if sq1 else ("n", "m")
                # a: rows n, columns m (after its flag); b: m by (rows of the last factor).
                pa = n + m
                left = pa[::-1] if flags[0] else pa
                last = pa[::-1] if flags[2] else pa
                pb = left[1] + last[0]
                if sq2 and pb[0] != pb[1]:
                    n = m = "n"
                    pa = "nn"
                    pb = "nn"
                if flags[1]:
                    pb = pb[::-1]

                def build3(w, k1=k1, k2=k2, pa=pa, pb=pb, b=b):
                    ax = axes(w, pa + pb, (k1, k2))
                    return Args(arg(w, k1, "a", pa, b, ax), arg(w, k2, "b", pb, b, ax))

                f = "".join("NT"[t] for t in flags)
                yield Case(
                    "C03", f"matmul3({k1},{k2},first)[{b}]{f}", build3,
                    lambda c, fl=flags: B.matmul(c.objs[0], c.objs[1], c.objs[0], tr_a=fl[0], tr_b=fl[1], tr_c=fl[2]),
                    matrix_post(lambda c, fl=flags: npx.matmul(npx.matmul(tr(c.dens[0], fl[0]), tr(c.dens[1], fl[1])), tr(c.dens[0], fl[2]))),
                    ["ops/matmul.py"], opname="matmul",
                )


def triple(ks, b, flags, thorough=False):
    pats = ["kl", "lm", "mn"]
    out = []
    for k, p, t in zip(ks, pats, flags):
        out.append(p)
    # Square-only operands identify dimensions.
    ren = {}
    for k, p in zip(ks, pats):
        if head(k) in SQUARE_ONLY:
            a, c = (ren.get(x, x) for x in p)
            for x in "klmn":
                if ren.get(x, x) == c:
                    ren[x] = a
    pats = ["".join(ren.get(x, x) for x in p) for p in pats]
    pats = [p[::-1] if t else p for p, t in zip(pats, flags)]

    def build(w):
        ax = axes(w, "".join(pats), ks)
        return Args(*(arg(w, k, "abc"[i], pats[i], b, ax) for i, k in enumerate(ks)))

    def call(c):
        return B.matmul(*c.objs, tr_a=flags[0], tr_b=flags[1], tr_c=flags[2])

    def spec(c):
        x, y, z = (tr(d, t) for d, t in zip(c.dens, flags))
        return npx.matmul(npx.matmul(x, y), z)

    f = "".join("NT"[t] for t in flags)
    return Case(
        "C03", f"matmul3({','.join(ks)})[{b}]{f}", build, call, matrix_post(spec), ["ops/matmul.py"], opname="matmul",
        thorough=thorough,
    )


def product_diag(k1, k2, b1, b2, ta, tb, **kw):
    p1, p2 = "nk", "kn"
    if head(k1) in SQUARE_ONLY or head(k2) in SQUARE_ONLY:
        p1 = p2 = "kk"
    if ta:
        p1 = p1[::-1]
    if tb:
        p2 = p2[::-1]

    def build(w):
        ax = axes(w, p1 + p2, (k1, k2))
        return Args(arg(w, k1, "a", p1, b1, ax), arg(w, k2, "b", p2, b2, ax))

    def spec(c):
        x = npx.matmul(tr(c.dens[0], ta), tr(c.dens[1], tb))
        return npx.diagonal(x, 0, -2, -1)

    flags = ("T" if ta else "N") + ("T" if tb else "N")
    return Case(
        "C03", f"matmul_diag({k1}[{b1},{p1}],{k2}[{b2},{p2}],{flags})", build,
        lambda c: B.matmul_diag(*c.objs, tr_a=ta, tr_b=tb), matrix_post(spec), ["ops/matmul_diag.py"],
        opname="matmul_diag", **kw,
    )


def operators():
    """Python operators, with matrices, arrays, and scalars on either side."""
    import operator as o

    from .elementwise import operator_cases

    yield from operator_cases("C03", "@", o.matmul, npx.matmul)
