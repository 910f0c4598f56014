#!/usr/bin/env python3
"""Runs the generated check of one property.

    check.py ID                  decide the property (VERIF_SEED, VERIF_TIER)
    check.py ID --replay FILE    run one recorded case, without any generation
    check.py --setup             build everything once

Exit 0: held. Exit 1 and a VIOLATION line: broken. Anything else: the check itself failed.
"""
import argparse
import array
import hashlib
import json
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, ".build")
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
FINDINGS = os.path.join(HERE, "known_findings.txt")
ENV_SH = "/opt/vp/env.sh"
REPO = "/repo"
SHARDS = 8
DEADLINE_S = 780
EXIT_HARNESS, EXIT_RACE, EXIT_HANG, EXIT_MEMORY = 3, 66, 96, 97
LEVEL = "exploration"


class CheckError(Exception):
    pass


def go_build(out, race):
    args = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
    script = '[ -f %s ] && . %s; exec "$@"' % (ENV_SH, ENV_SH)
    p = subprocess.run(["bash", "-c", script, "build"] + args, cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("build failed:\n" + p.stdout)


def worker_env():
    env = dict(os.environ)
    env["GORACE"] = "halt_on_error=1 exitcode=%d atexit_sleep_ms=0" % EXIT_RACE
    env["GOTRACEBACK"] = "single"
    env["TZ"] = "UTC"
    return env


def seed_of(seed, prop, tier, shard):
    h = hashlib.sha256(("%s:%s:%s:%d" % (seed, prop, tier, shard)).encode()).digest()
    return struct.unpack("<Q", h[:8])[0] % (2**62) + 1


def props_of(binary):
    out = subprocess.run([binary, "-list"], stdout=subprocess.PIPE, text=True, check=True).stdout
    return {p["id"]: p for p in map(json.loads, out.splitlines())}


def read_tail(path, n=6000):
    try:
        with open(path, "rb") as f:
            b = f.read()
    except OSError:
        return ""
    if len(b) > 2 * n:
        b = b[:n] + b"\n...\n" + b[-n:]
    return b.decode("utf-8", "replace")


def run_replay(binary, prop, path, times, timeout):
    try:
        p = subprocess.run([binary, "-prop", prop, "-replay", path, "-times", str(times), "-repo", REPO],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=worker_env())
    except subprocess.TimeoutExpired:
        return None, "no end after %d s" % timeout
    return p.returncode, p.stdout.decode("utf-8", "replace")


def write_replay(prop, seed, tier, case, message):
    os.makedirs(REPLAYS, exist_ok=True)
    digest = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(REPLAYS, "%s-%s.json" % (prop, digest))
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "tier": tier, "message": message[:8000], "case": case}, f, indent=1)
    return path


def reduce_history(binary, prop, seed, tier, cases, message, tmp, budget_s):
    """A failure that needs earlier cases in the same process: the smallest list of
    cases found that fails in a fresh process, or None."""
    end = time.time() + budget_s
    probe = os.path.join(tmp, "history.json")

    def fails(s):
        with open(probe, "w") as f:
            json.dump({"cases": s}, f)
        rc, out = run_replay(binary, prop, probe, 1, 300)
        return rc not in (0, None, EXIT_HARNESS, EXIT_HANG, EXIT_MEMORY, -signal.SIGKILL)

    n = 2
    while n < len(cases) and not fails(cases[-n:]):
        n *= 4
    cases = cases[-n:]
    if not fails(cases):
        return None
    step = max(1, len(cases) // 2)
    while time.time() < end:
        i, any_gone = 0, False
        while i < len(cases) - 1 and time.time() < end:
            less = cases[:i] + cases[min(i + step, len(cases) - 1):]
            if len(less) < len(cases) and fails(less):
                cases, any_gone = less, True
            else:
                i += step
        if step == 1 and not any_gone:
            break
        step = max(1, step // 2)
    os.makedirs(REPLAYS, exist_ok=True)
    digest = hashlib.sha256(json.dumps(cases, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(REPLAYS, "%s-%s.json" % (prop, digest))
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "tier": tier, "message": message[:8000], "cases": cases}, f, indent=1)
    return path


def known_findings(prop):
    """key -> text, from lines 'known: property=ID key=KEY text'"""
    found = {}
    try:
        with open(FINDINGS) as f:
            for line in f:
                w = line.split(None, 3)
                if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + prop and w[2].startswith("key="):
                    found[w[2][4:]] = w[3].strip()
    except OSError:
        pass
    return found


class Worker:
    def __init__(self, binary, info, prop, tier, seed, shard, tmp, cases):
        self.shard = shard
        self.prefix = os.path.join(tmp, "s%d" % shard)
        self.log = self.prefix + ".log"
        cmd = [binary, "-prop", prop, "-tier", tier, "-shard", str(shard), "-shards", str(SHARDS), "-out", self.prefix,
               "-repo", REPO, "-rapid.seed", str(seed_of(seed, prop, tier, shard))]
        if cases is not None:
            cmd += ["-cases", str(cases)]
        self.f = open(self.log, "wb")
        self.p = subprocess.Popen(cmd, stdout=self.f, stderr=subprocess.STDOUT, env=worker_env(), cwd=tmp)

    def current_case(self):
        try:
            with open(self.prefix + ".cur", "rb") as f:
                n = struct.unpack("<Q", f.read(8))[0]
                return json.loads(f.read(n))
        except (OSError, ValueError, struct.error):
            return None


def decide(prop, tier, seed, cases):
    started = time.time()
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
    try:
        return decide_in(prop, tier, seed, cases, started, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide_in(prop, tier, seed, cases, started, tmp):
    binary = os.path.join(tmp, "harness")
    go_build(binary, False)
    info = props_of(binary).get(prop)
    if info is None:
        raise CheckError("no such property: " + prop)
    if info["race"]:
        go_build(binary, True)
    built = time.time()
    parallel = max(1, min(SHARDS, (os.cpu_count() or 1)))
    todo, running, done = list(range(SHARDS)), [], []
    try:
        while todo or running:
            while todo and len(running) < parallel:
                running.append(Worker(binary, info, prop, tier, seed, todo.pop(0), tmp, cases))
            time.sleep(0.05)
            for w in list(running):
                if w.p.poll() is not None:
                    running.remove(w)
                    w.f.close()
                    done.append(w)
            if time.time() - started > DEADLINE_S:
                raise CheckError("not finished after %d s" % DEADLINE_S)
    finally:
        for w in running:
            w.p.kill()
            w.p.wait()
    done.sort(key=lambda w: w.shard)

    results, failures, crashes, errors = [], [], [], []
    for w in done:
        rc = w.p.returncode
        if rc == 0:
            with open(w.prefix + ".json") as f:
                r = json.load(f)
            results.append(r)
            if r["failed"]:
                failures.append((r["case"], r["message"], r))
        elif rc == EXIT_HARNESS:
            errors.append("shard %d: %s" % (w.shard, read_tail(w.log)))
        else:
            crashes.append((w.current_case(), rc, read_tail(w.log)))

    violation = None
    failures.sort(key=lambda f: len(json.dumps(f[0])))
    for case, message, r in failures[:4]:
        path = write_replay(prop, seed, tier, case, message)
        rc, out = run_replay(binary, prop, path, 200 if info["race"] else 2, 300)
        if rc == EXIT_HARNESS:
            errors.append(out)
        elif rc or info["race"]:
            # the oracle compares values; if only some schedules fail the failure is still real
            violation = (path, message)
            break
        else:
            history = reduce_history(binary, prop, seed, tier, r["cases"], r["first"], tmp, 60)
            if history:
                violation = (history, r["first"])
                break
            errors.append("a failure did not happen again when replayed from %s: rc=%s %s\n%s" % (path, rc, out[-2000:], message))
    if violation is None:
        crashes.sort(key=lambda c: len(json.dumps(c[0])))
        for case, rc, log in crashes[:4]:
            what = {EXIT_HANG: "does not end", EXIT_MEMORY: "uses too much memory", EXIT_RACE: "data race"}.get(rc, "process died with %s" % rc)
            if case is None:
                errors.append("a worker died before its first case: %s\n%s" % (what, log))
                continue
            path = write_replay(prop, seed, tier, case, what + "\n" + log)
            if rc == EXIT_RACE and REPO + "/" in log:
                violation = (path, what + "\n" + log)
                break
            again, out = run_replay(binary, prop, path, 200 if info["race"] else 1, 300)
            if again == rc or (rc not in (EXIT_HANG, EXIT_MEMORY) and again not in (0, None, EXIT_HARNESS, -signal.SIGKILL)):
                violation = (path, what + "\n" + log)
                break
            errors.append("%s, but not when replayed from %s (%s)\n%s" % (what, path, again, log))

    known = known_findings(prop)
    seen = sorted({k for r in results for k in (r["known"] or [])})
    unlisted = [k for k in seen if k not in known]
    if violation is None and unlisted:
        path = write_replay(prop, seed, tier, "probe", "not a recorded finding: " + ", ".join(unlisted))
        violation = (path, "not a recorded finding: " + ", ".join(unlisted))

    hashes = set()
    labels = {}
    samples = []
    for w in done:
        try:
            a = array.array("Q")
            with open(w.prefix + ".hash", "rb") as f:
                a.frombytes(f.read())
            hashes.update(a)
        except (OSError, ValueError):
            pass
    for r in results:
        for k, n in r["labels"].items():
            labels[k] = labels.get(k, 0) + n
        samples += r["samples"] or []
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(hashes),
            "rule": info["rule"],
            "samples": samples[:12],
            "enumerated": sum(r["enumerated"] for r in results),
            "classes": dict(sorted(labels.items())),
            "workers": len(done),
            "race_detector": bool(info["race"]),
        },
        "assumptions": ["inputs outside the generated domain (DESIGN.md, Domain limits) are not covered"],
        "build_s": round(built - started, 2),
        "wall_s": round(time.time() - started, 2),
        "violations": 1 if violation else 0,
        "known_findings": [k for k in seen if k in known],
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for k in seen:
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    if violation:
        print(violation[1][:4000])
        print("VIOLATION property=%s replay=%s" % (prop, violation[0]))
        return 1
    if errors:
        raise CheckError("\n".join(errors))
    print("held: property=%s tier=%s seed=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
        prop, tier, seed, evidence["coverage"]["evaluations"], len(hashes), time.time() - started))
    return 0


def replay(prop, path):
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="replay-%s-" % prop, dir=BUILD)
    try:
        binary = os.path.join(tmp, "harness")
        go_build(binary, False)
        info = props_of(binary)[prop]
        if info["race"]:
            go_build(binary, True)
        rc, out = run_replay(binary, prop, path, 200 if info["race"] else 1, 300)
        sys.stdout.write(out)
        if rc == 0:
            return 0
        if rc in (None, EXIT_HARNESS):
            return 2
        print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(path)))
        return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--cases", type=int, help="override the number of cases")
    a = ap.parse_args()
    if a.setup:
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="setup-", dir=BUILD)
        try:
            go_build(os.path.join(tmp, "harness"), False)
            go_build(os.path.join(tmp, "harness-race"), True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return 0
    if not a.prop:
        ap.error("which property?")
    if a.replay:
        return replay(a.prop, os.path.abspath(a.replay))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        raise CheckError("unknown VERIF_TIER " + tier)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        raise CheckError("VERIF_SEED is not a number")
    return decide(a.prop, tier, seed, a.cases)


if __name__ == "__main__":
    try:
        code = main()
    except CheckError as e:
        print("check error: %s" % e, file=sys.stderr)
        code = 2
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
