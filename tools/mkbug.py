"""Makes a planted bug: mkbug.make(id, property, needs, breaks, edits, demo).

edits is a list of (file, old, new); demo is the text of a Go program that exits with
an error if the bug shows. Everything is tried in a scratch copy of /repo first: the
bug must build, pass the existing tests, and the demo must tell it from the original.
"""
import json, os, shutil, subprocess, sys

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
BASE = "c5e840d"
DEMO = """#!/bin/bash
. /opt/vp/env.sh
exec go run "$(cd "$(dirname "$0")" && pwd)/demo.go"
"""


def sh(cmd, cwd):
    p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    return p.returncode, p.stdout


def make(id, prop, needs, breaks, edits, demo, scratch="/tmp/bugwork"):
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    subprocess.check_call(["cp", "-a", "/repo", scratch + "/repo"])
    repo = scratch + "/repo"
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.go", "w") as f:
        f.write(demo.lstrip())
    with open(d + "/demo.sh", "w") as f:
        f.write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    with open(d + "/meta.json", "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
        f.write("\n")

    def bad(why, out=""):
        print("%-28s REJECTED %s\n%s" % (id, why, out[-1500:]))
        shutil.rmtree(d)
        return False

    sh("gofmt -w " + d + "/demo.go", repo)
    rc, out = sh(d + "/demo.sh", repo)
    if rc != 0:
        return bad("demo fails on the original", out)
    for name, old, new in edits:
        p = os.path.join(repo, name)
        s = open(p).read()
        if s.count(old) != 1:
            return bad("%d matches of %r" % (s.count(old), old))
        open(p, "w").write(s.replace(old, new))
    rc, out = sh("gofmt -l miniquery gormq entmq; go vet ./... && go build ./... && go test ./... 2>&1", repo)
    if rc != 0:
        return bad("build or tests", out)
    if out.split("\n")[0].endswith(".go"):
        print("  not formatted: " + out.split("\n")[0])
    rc, out = sh(d + "/demo.sh", repo)
    if rc == 0:
        return bad("demo does not show it", out)
    rc, diff = sh("git checkout -q go.mod go.sum 2>/dev/null; git diff", repo)
    orig = set()
    for l in diff.split("\n"):
        if l.startswith("--- a/"):
            orig = set(subprocess.run(["git", "-C", "/repo", "show", BASE + ":" + l[6:]], stdout=subprocess.PIPE, text=True).stdout.split("\n"))
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in orig:
            return bad("changes a line the original has not: " + l)
    with open(d + "/patch.diff", "w") as f:
        f.write(diff)
    print("%-28s ok   %s" % (id, out.strip().split("\n")[0][:150]))
    shutil.rmtree(scratch)
    return True
