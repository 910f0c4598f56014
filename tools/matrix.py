#!/usr/bin/env python3
"""Applies planted bugs to /repo one after the other and runs checks: matrix.py [--all] [ID...]

Without --all only the check of the bug's own property is run. /repo must be clean.
"""
import json, os, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
every = "--all" in sys.argv
only = [a for a in sys.argv[1:] if not a.startswith("-")]
props = [c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]]
assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]), "/repo is not clean"
for id in sorted(os.listdir(HERE + "/seeded")):
    if only and id not in only:
        continue
    d = "%s/seeded/%s" % (HERE, id)
    own = json.load(open(d + "/meta.json"))["property"]
    caught, odd = [], []
    try:
        subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
        for p in props if every else [own]:
            r = subprocess.run([sys.executable, "check.py", p], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=os.environ.get("VERIF_TIER", "quick")))
            if r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout:
                caught.append(p)
            elif r.returncode != 0:
                odd.append("%s(exit %d)" % (p, r.returncode))
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
    print("%-28s %s %-6s %s %s" % (id, own, "caught" if own in caught else "MISSED", " ".join(caught), " ".join(odd)), flush=True)
