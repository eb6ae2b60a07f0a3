"""Planted bugs: definitions, from which /verif/seeded is written."""
import json, os, shutil, subprocess, sys, tempfile

ROOT = "/verif/seeded"
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append((id, prop, edits, needs, breaks, demo))


HEAD = """import warnings

warnings.simplefilter("ignore")
import numpy as np
import lab as B
import matrix
from matrix import *

rng = np.random.default_rng(0)
R = lambda *s: rng.standard_normal(s)


def close(x, y, what="values"):
    x, y = np.asarray(B.dense(x)), np.asarray(y)
    assert x.shape == y.shape, (what, x.shape, y.shape)
    assert np.allclose(x, y, rtol=1e-5, atol=1e-6), (what, np.abs(x - y).max())


"""

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs.py")).read())


def main():
    want = sys.argv[1:]
    t = tempfile.mkdtemp()
    subprocess.run(f"git clone -q /repo {t}/r", shell=True, check=True)
    for id, prop, edits, needs, breaks, demo in BUGS:
        if want and id not in want:
            continue
        for f, old, new in edits:
            p = f"{t}/r/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        d = subprocess.run("git diff", shell=True, cwd=f"{t}/r", capture_output=True, text=True).stdout
        subprocess.run("git checkout -q -- .", shell=True, cwd=f"{t}/r", check=True)
        o = f"{ROOT}/{id}"
        os.makedirs(o, exist_ok=True)
        open(f"{o}/patch.diff", "w").write(d)
        open(f"{o}/demo.py", "w").write(HEAD + demo.strip() + "\n")
        open(f"{o}/demo.sh", "w").write(
            '#!/bin/bash\n# Exit 0 if the property holds for the input below.\nhere=$(cd "$(dirname "$0")" && pwd)\n'
            'PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu JAX_ENABLE_X64=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"\n'
        )
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{o}/meta.json", "w"), indent=1)
    shutil.rmtree(t)


main()
