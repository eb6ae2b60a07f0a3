"""Try planted bugs: `seed.py ID...` makes a scratch copy of /repo per bug, applies its patch,
runs its demonstration with and without it, and runs the test suite with it."""
import json, os, shutil, subprocess, sys, tempfile

ROOT = "/verif/seeded"


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def demo(i, cwd):
    d = tempfile.mkdtemp(prefix="demo")
    for f in os.listdir(f"{ROOT}/{i}"):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(f"{ROOT}/{i}/{f}", d)
    r = sh(f"bash {d}/demo.sh", cwd, timeout=300)
    shutil.rmtree(d)
    return r


for i in sys.argv[1:]:
    if i == "--notest":
        continue
    t = tempfile.mkdtemp(prefix=f"seed_{i}_")
    try:
        sh(f"cp -a /repo {t}/repo", "/")
        r0 = demo(i, f"{t}/repo")
        a = sh(f"git apply {ROOT}/{i}/patch.diff", f"{t}/repo")
        if a.returncode:
            print(i, "PATCH FAILS", a.stderr)
            continue
        r1 = demo(i, f"{t}/repo")
        print(i, "demo unchanged:", r0.returncode, "patched:", r1.returncode, (r0.stderr[-300:] if r0.returncode else ""), r1.stderr.strip().split("\n")[-1][:200], flush=True)
        if "--notest" in sys.argv:
            continue
        x = sh(
            f". /opt/vp/env.sh; cd {t}/repo; PYTHONPATH={t}/repo:/opt/vp/plugins python -m pytest -q -p no:cacheprovider -p vp_seed -n 8 --timeout=300 -Werror -W ignore::DeprecationWarning -W ignore::pytest.PytestRemovedIn10Warning tests",
            f"{t}/repo",
        )
        print(i, "tests:", x.stdout.strip().split("\n")[-1], flush=True)
        if x.returncode:
            print(json.dumps(sorted({l.split("::")[0] + "::" + l.split("::")[1].split("[")[0] for l in x.stdout.split("\n") if l.startswith("FAILED")}))[:800]); print("\n".join(l for l in x.stdout.split("\n") if l.startswith("FAILED"))[:600])
    finally:
        shutil.rmtree(t)
