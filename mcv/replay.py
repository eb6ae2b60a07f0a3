"""Replay a failed obligation on the recorded concrete input: exit 1 if it still fails."""

import json
import sys


def main():
    d = json.load(open(sys.argv[1]))
    from .check import concrete, load

    ob = next((o for o in load(d["property"], "thorough") if o.name == d["obligation"]), None)
    if ob is None:
        print("no such obligation")
        return 2
    f = d.get("failing_input")
    if not f:
        print("no failing input was found; the verifier said:", json.dumps(d["verifier"], indent=1))
        return 1
    r = concrete(ob, f["seed"], f.get("given"), f.get("style"))
    print("obligation:", ob.name)
    print("recorded:", f)
    print("now:", r)
    return 1 if r else 0


if __name__ == "__main__":
    sys.exit(main())
