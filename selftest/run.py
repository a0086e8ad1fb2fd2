#!/usr/bin/env python3
"""Self-test of the checks: apply each edit of edits.py to a scratch copy of /repo and list the checks that fire.

  run.py [-j N] [-t] [name-prefix ...]      -t: also run the repository's unit tests on each edited copy
An edit is (name, kind, expected, file, old, new[, file, old, new ...]); kind "bug" must make one of `expected` fire (when given),
kind "same" must leave every check quiet.
"""
import os
import shutil
import subprocess
import sys
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
SCR = "/tmp/gcst" + VERIF.replace("/", "_")


def work(job):
    ed, tests = job
    import multiprocessing
    wid = multiprocessing.current_process()._identity[0]
    base = os.path.join(SCR, "w%d" % wid)
    repo = os.path.join(base, "repo")
    os.makedirs(base, exist_ok=True)
    shutil.rmtree(repo, ignore_errors=True)
    os.makedirs(repo)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s" % repo, shell=True, check=True)
    name, kind, exp = ed[:3]
    for i in range(3, len(ed), 3):
        p = os.path.join(repo, ed[i])
        s = open(p).read()
        if s.count(ed[i + 1]) < 1:
            return name, kind, exp, None, "edit does not apply: %s" % ed[i]
        open(p, "w").write(s.replace(ed[i + 1], ed[i + 2], 1))
    note = ""
    if tests:
        r = subprocess.run(["cargo", "test", "-q", "--offline", "--workspace"], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(base, "tt")))
        if r.returncode:
            note = "TESTS FAIL " + " ".join(l for l in r.stdout.splitlines() if "FAILED" in l or l.startswith("error") or "panicked" in l)[:300]
    env = dict(os.environ, GC_REPO=repo, GC_BUILD=os.path.join(base, "build"), GC_EVID=os.path.join(base, "evidence"))
    r = subprocess.run([sys.executable, os.path.join(VERIF, "sa", "main.py"), "all"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    fired = [l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    det = [l for l in r.stdout.splitlines() if l.startswith("  ")]
    und = [l.split(":")[0] + "(" + l.split(",")[1].split()[0] + ")" for l in r.stdout.splitlines() if " undecided, " in l and ", 0 undecided" not in l]
    if "does not compile" in r.stdout:
        note += " DOES NOT COMPILE"
    if r.returncode not in (0, 1):
        note += " ERROR " + r.stdout[-400:]
    return name, kind, exp, fired, note, det, und


def main():
    import edits
    a = sys.argv[1:]
    j = 7
    tests = False
    verbose = False
    pre = []
    while a:
        x = a.pop(0)
        if x == "-j":
            j = int(a.pop(0))
        elif x == "-t":
            tests = True
        elif x == "-v":
            verbose = True
        else:
            pre.append(x)
    jobs = [(e, tests) for e in edits.EDITS if not pre or any(e[0].startswith(p) for p in pre)]
    bad = 0
    with ProcessPoolExecutor(j) as ex:
        for res in ex.map(work, jobs):
            name, kind, exp, fired = res[:4]
            if fired is None:
                print("??", name, res[4])
                bad += 1
                continue
            note, det, und = res[4:]
            if kind == "bug":
                ok = bool(set(fired) & set(exp)) if exp else bool(fired)
            else:
                ok = not fired
            if note:
                ok = False
            bad += not ok
            print("%s %-4s %-34s fired=%s%s%s %s" % ("ok" if ok else "XX", kind, name, ",".join(fired), "" if ok or kind != "bug" else " wanted=" + ",".join(exp),
                                                  (" und=" + ",".join(und)) if und else "", note), flush=True)
            if verbose or (kind == "same" and fired):
                for d in det[:12]:
                    print("      " + d[:260])
    print("%d edits, %d not as wanted" % (len(jobs), bad))
    shutil.rmtree(SCR + "/none", ignore_errors=True)


if __name__ == "__main__":
    main()
