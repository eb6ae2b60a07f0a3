"""Decide one property: `python -m mcv.check C01 [quick|thorough]`.

Every obligation of the property is generated from the current source in /repo (the real
functions are executed symbolically) and discharged; every obligation is also executed on
a few concrete inputs.  A clause that fails is replayed on concrete inputs.
"""

import gc
import json
import os
import pickle
import resource
import select
import struct
import sys
import time
import traceback
import zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("MCV_PROCS", "8"))


def seed_of(name, base, k):
    return zlib.crc32(f"{name}|{base}|{k}".encode())


CONCRETE_LIMIT = 30.0


def concrete(ob, seed, dims=None, style=None, dtype=None):
    """One concrete run with a time limit; a hang is a failure as well."""
    import numpy as np

    from . import run as R

    try:
        R._alarm(CONCRETE_LIMIT)
        return R.run_concrete(ob, seed, dims, np.dtype(dtype or "float64"), style)
    except R.Timeout:
        return dict(
            clause="termination",
            detail=f"no result within {CONCRETE_LIMIT} s",
            dims=dims or {},
            seed=seed,
            style=style,
        )
    finally:
        R._alarm(0)


def has_composites(reason):
    return any(k in reason for k in ("inv", "chol", "svd", "logdet", "trinv", "S1", "JA", "JB"))


def process(ob, tier, base):
    from . import ctx as C
    from . import hooks
    from . import run as R

    t0 = time.time()
    out = dict(name=ob.name, functions=list(ob.functions), bounded=ob.bounded)
    st0 = dict(C.STATS)
    al0 = hooks.ALIGN_CALLS[0]
    budget = getattr(ob, "budget", None) or 20.0
    if tier == "thorough":
        budget *= 4
    if getattr(ob, "num_only", False):
        r = dict(status="concrete-only")
    else:
        old = hooks.CONTRACTS[0]
        hooks.CONTRACTS[0] = getattr(ob, "contracts", True)
        try:
            r = R.run_symbolic(ob, budget)
        finally:
            hooks.CONTRACTS[0] = old
    out["align_contract_uses"] = hooks.ALIGN_CALLS[0] - al0
    it = r.pop("it", None)
    out.update({k: r.get(k) for k in ("status", "clause", "reason", "path", "paths", "clauses", "t")})
    out["z3"] = {k: C.STATS[k] - st0[k] for k in st0}
    # Concrete runs.
    proved = r["status"] == "proved"
    n = ob.trials if ob.trials is not None else (4 if proved else 40)
    if tier == "thorough":
        n *= 10
    fails = []
    runs = 0

    def recurs(f):
        """A small difference may come from the absolute threshold below which values are
        taken to be zero (columns that nearly coincide), which no contract covers: it
        must show for other data of the same sizes."""
        return any(concrete(ob, seed_of(ob.name, base, 3000 + j), f["dims"], f["style"]) for j in range(12))

    def one(k, dims=None, style=None):
        nonlocal runs
        runs += 1
        f = concrete(ob, seed_of(ob.name, base, k), dims, style)
        if f and f.pop("near", False) and not recurs(f):
            out["near_tie"] = f
            return None
        if f:
            f["given"] = dims
            fails.append(f)
        return f

    if it is not None:
        pd = None
        try:
            pd = R.path_dims(it, ob)
        except Exception:
            pd = None
        if pd:
            out["path_dims"] = pd
            for k in range(20):
                if one(1000 + k, pd, "special" if k % 2 else None):
                    break
    if not fails:
        for k in range(n):
            if one(k, None, "special" if k % 2 else None):
                break
            if time.time() - t0 > 8 * budget:
                break
    if not fails and it is not None:
        for k in range(30):
            if one(2000 + k, None, "special" if k % 3 else None):
                break
    out["runs"] = runs
    if fails:
        f = fails[0]
        # Confirm.
        again = concrete(ob, f["seed"], f["given"], f.get("style"))
        if again is not None:
            out["failure"] = f
        else:
            out["flaky"] = f
    elif r["status"] == "failed" and getattr(it, "values", None) and not has_composites(str(r.get("reason"))) and r.get("clause") != "exception":
        # The path assumes something about the values of the input (such as that a sum of
        # squares vanishes), which concrete runs may not reach; the residual is explicit.
        out["noinput"] = True
    out["wall"] = time.time() - t0
    return out


# ---------------------------------------------------------------------- worker pool


def _read_exact(fd, n):
    buf = b""
    while len(buf) < n:
        x = os.read(fd, n - len(buf))
        if not x:
            return None
        buf += x
    return buf


def worker(rfd, wfd, obs, tier, base, maxtasks):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    for _ in range(maxtasks):
        h = _read_exact(rfd, 4)
        if h is None:
            break
        (i,) = struct.unpack("<i", h)
        if i < 0:
            break
        try:
            r = process(obs[i], tier, base)
        except MemoryError:
            r = dict(name=obs[i].name, status="undecided", reason="memory limit", bounded=obs[i].bounded, functions=list(obs[i].functions))
        except BaseException as e:
            r = dict(
                name=obs[i].name, status="undecided", bounded=obs[i].bounded, functions=list(obs[i].functions),
                reason=f"checker error {type(e).__name__}: {e} {traceback.format_exc()[-600:]}",
            )
        d = pickle.dumps((i, r))
        os.write(wfd, struct.pack("<i", len(d)))
        k = 0
        while k < len(d):
            k += os.write(wfd, d[k:])
    os._exit(0)


def run_pool(obs, tier, base, deadline, nproc=NPROC, maxtasks=60):
    results = [None] * len(obs)
    todo = list(range(len(obs)))[::-1]
    workers = {}

    def spawn():
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            for w in workers.values():
                os.close(w["to"])
                os.close(w["from"])
            try:
                worker(r1, w2, obs, tier, base, maxtasks)
            finally:
                os._exit(1)
        os.close(r1)
        os.close(w2)
        workers[r2] = {"pid": pid, "to": w1, "from": r2, "cur": None, "n": 0, "t0": time.time()}
        return workers[r2]

    def feed(w):
        if not todo or w["n"] >= maxtasks:
            if w["n"] < maxtasks:
                try:
                    os.write(w["to"], struct.pack("<i", -1))
                except OSError:
                    pass
            w["cur"] = None
            return
        i = todo.pop()
        w["cur"], w["t0"] = i, time.time()
        w["n"] += 1
        try:
            os.write(w["to"], struct.pack("<i", i))
        except OSError:
            pass

    def drop(w, why):
        if w["cur"] is not None:
            o = obs[w["cur"]]
            results[w["cur"]] = dict(name=o.name, status="undecided", reason=why, bounded=o.bounded, functions=list(o.functions))
        os.close(w["to"])
        os.close(w["from"])
        try:
            os.kill(w["pid"], 9)
        except OSError:
            pass
        os.waitpid(w["pid"], 0)
        del workers[w["from"]]

    gc.collect()
    gc.freeze()
    while todo or any(w["cur"] is not None for w in workers.values()):
        if time.time() > deadline:
            break
        while len(workers) < nproc and todo:
            feed(spawn())
        rs, _, _ = select.select(list(workers), [], [], 1.0)
        for fd in rs:
            w = workers.get(fd)
            h = _read_exact(fd, 4)
            d = _read_exact(fd, struct.unpack("<i", h)[0]) if h else None
            if d is None:
                drop(w, "the worker process died")
                continue
            i, r = pickle.loads(d)
            results[i] = r
            w["cur"] = None
            if w["n"] >= maxtasks or not todo:
                drop(w, "")
            else:
                feed(w)
        lim = 400 if tier == "quick" else 3000
        for w in list(workers.values()):
            if w["cur"] is not None and time.time() - w["t0"] > lim:
                drop(w, "time limit of the obligation")
    for w in list(workers.values()):
        drop(w, "deadline of the check")
    for i, r in enumerate(results):
        if r is None:
            results[i] = dict(name=obs[i].name, status="undecided", reason="deadline of the check", bounded=obs[i].bounded, functions=list(obs[i].functions))
    return results


# ---------------------------------------------------------------------- main


TRUSTED = [
    "CPython and plum-dispatch: executed as they are",
    "mcv prover: normal forms of indexed sums (nf.py, poly.py), path exploration (run.py)",
    "z3 4.x for linear/non-linear integer side conditions",
    "models of NumPy functions on symbolic arrays (symt.py), cross-checked against NumPy by mcv.conformance",
    "defining relations of inv, cholesky, svd, slogdet, triangular solve (linalg.py)",
    "LAB's control flow and its dispatch onto NumPy: real code, executed",
]
ASSUME = [
    "floating-point arithmetic is treated as real arithmetic; B.epsilon added to a Cholesky diagonal is idealised to zero",
    "tolerances (|x| < 1e-10) are idealised to equality with zero",
    "all dimensions are positive; empty matrices are outside the contracts",
]


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if not k.get("fixed")]


def load(prop, tier):
    from . import specs

    obs = []
    for c in specs.get(prop):
        ob = c.obligation() if hasattr(c, "obligation") else c
        if ob.thorough and tier != "thorough":
            continue
        obs.append(ob)
    names = [o.name for o in obs]
    dup = {n for n in names if names.count(n) > 1} if len(names) != len(set(names)) else set()
    if dup:
        raise SystemExit(f"duplicate obligation names: {sorted(dup)[:5]}")
    return obs


def main(argv=None):
    argv = sys.argv[1:] if argv is None else argv
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = argv[2] if len(argv) > 2 else None
    base = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    limit = float(os.environ.get("MCV_LIMIT", 700 if tier == "quick" else 6 * 3600))
    deadline = t0 + limit
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    try:
        obs = load(prop, tier)
    except SystemExit:
        raise
    except Exception as e:
        # The code under proof cannot even be imported, or constructors fail.
        print(f"could not load the code under proof: {type(e).__name__}: {e}")
        traceback.print_exc()
        rp = write_replay(prop, dict(name=f"{prop}:import", failure=dict(clause="import", detail=str(e), seed=0, dims={})))
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if only:
        obs = [o for o in obs if only in o.name]
    assert obs, "no obligations"
    res = run_pool(obs, tier, base, deadline)
    known = [k for k in known_findings() if k["property"] == prop]
    viol, found = [], {}
    for r in res:
        bad = r.get("failure") or r.get("noinput")
        if not bad:
            continue
        cl = (r.get("failure") or {}).get("clause") or r.get("clause")
        k = next((k for k in known if k["obligation"] == r["name"] and cl in k["clauses"]), None)
        if k:
            found.setdefault(k["what"], []).append(r["name"])
            r["known"] = True
            continue
        viol.append(r)
    un = [r for r in res if not r.get("bounded") and not r.get("known")]
    disch = [r for r in un if r["status"] == "proved" and not r.get("failure")]
    bnd = [r for r in res if r.get("bounded")]
    undecided = [r for r in un if r not in disch and r not in viol]
    lines = []
    for r in viol[:12]:
        rp = write_replay(prop, r)
        f = r.get("failure")
        print(f"failed obligation {r['name']}: clause {(f or r).get('clause')}: {str((f or {}).get('detail') or r.get('reason'))[:300]}")
        lines.append(f"VIOLATION property={prop} replay={rp}" + ("" if f else " no-failing-input-found"))
    # Alarms with a failing input first.
    lines.sort(key=lambda s: s.endswith("found"))
    funs = {}
    for r in un:
        for f in r.get("functions") or ():
            funs.setdefault(f, [0, 0])
            funs[f][1] += 1
            if r in disch:
                funs[f][0] += 1
    z = {}
    for r in res:
        for k, v in (r.get("z3") or {}).items():
            z[k] = round(z.get(k, 0) + v, 3)
    ev = dict(
        property=prop,
        tier=tier,
        seed=base,
        level="proof",
        coverage=dict(
            obligations=len(un),
            discharged=len(disch),
            checker_cmd=f"/opt/venv/bin/python -m mcv.check {prop} {tier}",
            trusted_base=TRUSTED,
            verification_conditions=sum(r.get("clauses") or 0 for r in disch),
            symbolic_paths=sum(r.get("paths") or 0 for r in disch),
            backends={"normal-form prover": len(disch), "z3 side conditions": z.get("z3_queries", 0)},
            solver_time_s=dict(z3=z.get("z3_time", 0), symbolic=round(sum(r.get("t") or 0 for r in res), 2)),
            z3_unknown=z.get("z3_unknown", 0),
            align_contract_uses=sum(r.get("align_contract_uses") or 0 for r in res),
            functions_under_contract={k: f"{v[0]}/{v[1]}" for k, v in sorted(funs.items())},
            bounded_standins=len(bnd),
            bounded_standins_passed=sum(1 for r in bnd if not r.get("failure") and r["status"] in ("proved", "concrete-only")),
            bounds=sorted({str(r["bounded"]) for r in bnd}),
            not_discharged=[dict(name=r["name"], status=r["status"], reason=str(r.get("reason"))[:200]) for r in undecided][:40],
            concrete_runs=sum(r.get("runs") or 0 for r in res),
            known_findings=sorted(found),
            samples=[r["name"] for r in disch[:: max(1, len(disch) // 6)]][:6],
        ),
        assumptions=ASSUME,
        wall_s=round(time.time() - t0, 2),
        violations=len(viol),
    )
    json.dump(ev, open(os.path.join(evdir, f"{prop}.json"), "w"), indent=1)
    print(
        f"{prop} {tier}: {len(disch)}/{len(un)} obligations discharged, "
        f"{len(bnd)} bounded stand-ins, {ev['coverage']['concrete_runs']} concrete runs, {ev['wall_s']} s"
    )
    for r in undecided[:30]:
        print(f"  not discharged: {r['name']}: {r['status']} {r.get('clause') or ''} {str(r.get('reason'))[:300]}")
    for r in res:
        if r.get("flaky"):
            print(f"  flaky: {r['name']}: {r['flaky']}")
        if r.get("bounded") and r["status"] not in ("proved", "concrete-only"):
            print(f"  bounded stand-in without symbolic run: {r['name']}: {r['status']} {str(r.get('reason'))[:160]}")
    for what, names in sorted(found.items()):
        print(f"KNOWN-FINDING: property={prop} {what}")
    for s in lines:
        print(s)
    sys.stdout.flush()
    return 1 if viol else 0


def write_replay(prop, r):
    d = os.path.join(ROOT, "evidence", "replays", prop)
    os.makedirs(d, exist_ok=True)
    name = "".join(c if c.isalnum() or c in "-_." else "_" for c in r["name"])[:80]
    name += f"-{zlib.crc32(r['name'].encode()):08x}.json"
    p = os.path.join(d, name)
    with open(p, "w") as fh:
        json.dump(
            dict(
                property=prop,
                obligation=r["name"],
                how="cd /verif && /opt/venv/bin/python -m mcv.replay " + p,
                failing_input=r.get("failure"),
                verifier=dict(status=r.get("status"), clause=r.get("clause"), residual=str(r.get("reason"))[:4000], path=r.get("path"), dims=r.get("path_dims")),
            ),
            fh,
            indent=1,
            default=str,
        )
    return p


if __name__ == "__main__":
    sys.exit(main())
