"""`catch.py ID...`: run the check of a planted bug's property against a scratch copy with it.
`ID:PROP` runs another property's check."""
import json, os, shutil, subprocess, sys, tempfile

for i in sys.argv[1:]:
    i, _, p = i.partition(":")
    t = tempfile.mkdtemp(prefix="catch_")
    try:
        subprocess.run(f"cp -a /repo {t}/repo", shell=True, check=True)
        subprocess.run(f"git apply /verif/seeded/{i}/patch.diff", shell=True, check=True, cwd=f"{t}/repo")
        p = p or json.load(open(f"/verif/seeded/{i}/meta.json"))["property"]
        subprocess.run(f"cp -a /verif {t}/verif", shell=True, check=True)
        r = subprocess.run(["/opt/venv/bin/python", "-m", "mcv.check", p, "quick"], cwd=f"{t}/verif", capture_output=True, text=True, env=dict(os.environ, MCV_REPO=f"{t}/repo"))
        v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        d = [l for l in r.stdout.split("\n") if l.startswith(("failed", "C"))]
        print(i, p, "exit", r.returncode, "violations", len(v), "with input", sum(not l.endswith("found") for l in v), r.stderr[-300:], flush=True)
        for l in d[:2] + d[-1:]:
            print("   ", l[:220])
    finally:
        shutil.rmtree(t)
