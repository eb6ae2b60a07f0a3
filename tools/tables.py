"""Write the tables of DESIGN.md (between markers) from evidence/, properties.jsonl and seeded/."""
import json, glob, os, re

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
props = [json.loads(l) for l in open("properties.jsonl")]
rows = ["| property | what is decided | discharged | bounded | functions (obligations) |", "|---|---|---|---|---|"]
for p in props:
    c = json.load(open(f"evidence/{p['id']}.json"))["coverage"]
    f = ", ".join(f"{k} {v.split('/')[0]}" for k, v in sorted(c["functions_under_contract"].items(), key=lambda kv: -int(kv[1].split("/")[0]))[:5])
    rows.append(f"| {p['id']} | {p['title']} | {c['discharged']} | {c.get('bounded_standins', 0)} | {f} |")
seeds = ["| id | needs | breaks | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob("seeded/*")):
    m = json.load(open(f"{d}/meta.json"))
    seeds.append(f"| {os.path.basename(d)} | {m['needs']} | {m['what_it_breaks']} | {m['property']} |")
s = open("DESIGN.md").read()
for n, t in [("PROPTABLE", rows), ("SEEDTABLE", seeds)]:
    b, e = f"<!-- {n} -->", f"<!-- end {n} -->"
    if b not in s:
        s = re.sub(rf"^{n}$", b + "\n" + e, s, flags=re.M)
    i, j = s.index(b) + len(b), s.index(e)
    s = s[:i] + "\n" + "\n".join(t) + "\n" + s[j:]
open("DESIGN.md", "w").write(s)
