#!/usr/bin/env python3
"""Checks of the semantic properties of graph-commands by static analysis.

  main.py setup            build the fact extractor and the dependencies
  main.py check C01        analyse /repo's current source and decide one property
  main.py all              decide every property (development)
"""
import fcntl
import glob
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("GC_REPO", "/repo")
BUILD = os.environ.get("GC_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, HERE)


def sh(cmd, cwd, env=None, timeout=800):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"], HERE).stdout.strip()


def build_driver():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "drv"))
    env.pop("RUSTFLAGS", None)
    r = sh(["cargo", "+nightly", "build", "-q", "--offline"], os.path.join(VERIF, "driver"), env)
    exe = os.path.join(BUILD, "drv", "debug", "gcfacts")
    if r.returncode or not os.path.exists(exe):
        sys.stderr.write(r.stdout)
        raise SystemExit("cannot build the fact extractor")
    return exe


def extract(exe):
    """facts of the current working tree of the repository"""
    tgt = os.path.join(BUILD, "target")
    out = os.path.join(BUILD, "facts.%d" % os.getpid())
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    # the members of the workspace are always analysed again
    for root, ds, fs in os.walk(tgt):
        for d in [d for d in ds if "gc-" in d or "gc_" in d]:
            shutil.rmtree(os.path.join(root, d), ignore_errors=True)
            ds.remove(d)
        for f in fs:
            if "gc-" in f or "gc_" in f:
                os.unlink(os.path.join(root, f))
    env = dict(os.environ, GCFACTS_DIR=out, LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"), RUSTC_WORKSPACE_WRAPPER=exe,
               CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL="0")
    env.pop("RUSTFLAGS", None)
    r = sh(["cargo", "+nightly", "check", "-q", "--workspace", "--bins", "--lib", "--locked", "--offline"], REPO, env)
    if r.returncode:
        sys.stderr.write(r.stdout[-4000:])
        raise SystemExit("the repository does not compile")
    if not glob.glob(os.path.join(out, "gc_core*.json")):
        raise SystemExit("no facts were extracted")
    return out


def facts():
    from facts import Facts
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = extract(build_driver())
    try:
        return Facts(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def source_digest():
    h = hashlib.sha256()
    n = 0
    for root, ds, fs in os.walk(REPO):
        ds[:] = sorted(d for d in ds if d not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith(".rs") or f == "Cargo.toml":
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read())
                n += 1
    return h.hexdigest()[:16], n


def known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l.startswith("known:"):
            # known: property=<id> rule=<rule> where=<where> :: <what fails>
            head, _, what = l[6:].partition("::")
            kv = {}
            for part in head.strip().split(" | "):
                k, _, v = part.strip().partition("=")
                kv[k] = v
            out.append((kv.get("property"), kv.get("rule"), kv.get("where"), what.strip()))
    return out


def decide(F, pid, tier):
    import registry
    from base import Ctx
    spec = registry.CHECKS[pid]
    c = Ctx(F, tier)
    t0 = time.time()
    for f in spec["fns"]:
        try:
            f(c)
        except RecursionError as ex:
            c.unk("engine", f.__name__, "analysis did not converge")
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            c.unk("engine", f.__name__, "analysis failed: %s at %s:%d" % (repr(ex)[:200], os.path.basename(tb.filename), tb.lineno))
            if os.environ.get("GC_TRACE"):
                traceback.print_exc()
    return c, time.time() - t0


def report(c, pid, tier, t_all, quiet=False):
    import registry
    spec = registry.CHECKS[pid]
    kn = [k for k in known() if k[0] == pid]
    viol, hits = [], set()
    for st, rule, wh, text in c.obls:
        if st != "violation":
            continue
        k = [x for x in kn if x[1] == rule and x[2] == wh]
        if k:
            hits.add(k[0])
        else:
            viol.append((rule, wh, text))
    cnt = {}
    rules = {}
    for st, rule, wh, text in c.obls:
        cnt[st] = cnt.get(st, 0) + 1
        r = rules.setdefault(rule, {"ok": 0, "violation": 0, "unknown": 0})
        r[st] += 1
    dg, nfiles = source_digest()
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": spec["explain"],
            "rule": spec["rule"],
            "analysed": {"source_files": nfiles, "source_digest": dg, "functions": len(c.visited), "events": c.events,
                         "library_call_sites": c.sites, "obligations": len(c.obls)},
            "obligations_by_rule": rules,
            "discharged": cnt.get("ok", 0), "refuted": cnt.get("violation", 0), "undecided": cnt.get("unknown", 0),
            "undecided_list": [list(o[1:]) for o in c.obls if o[0] == "unknown"][:40],
            "unmodelled_library_functions": sorted(c.unmodelled)[:40],
            "samples": [{"rule": o[1], "at": o[2], "obligation": o[3][:400]} for o in c.obls if o[0] == "ok"][:8],
            "functions": sorted(c.visited)[:120],
            "violations": [{"rule": r, "at": w, "what": t[:1500]} for r, w, t in viol],
        },
        "wall_s": round(t_all, 3),
    }
    evd = os.environ.get("GC_EVID", os.path.join(VERIF, "evidence"))
    os.makedirs(evd, exist_ok=True)
    p = os.path.join(evd, pid + ".json")
    with open(p, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for k in sorted(hits, key=str):
        print("KNOWN-FINDING: property=%s %s" % (pid, k[3]))
    for r, w, t in viol[:20]:
        print("  %s: %s: %s" % (r, w, t[:600]))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if not quiet:
        print("%s: %d obligations discharged, %d undecided, %d functions, %.1f s" % (
            pid, cnt.get("ok", 0), cnt.get("unknown", 0), len(c.visited), t_all))
    return 0


def main():
    cmd = sys.argv[1] if len(sys.argv) > 1 else ""
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if cmd == "setup":
        facts()
        print("ready")
        return 0
    if cmd == "check":
        pid = sys.argv[2]
        t0 = time.time()
        F = facts()
        c, _ = decide(F, pid, tier)
        return report(c, pid, tier, time.time() - t0)
    if cmd == "all":
        import registry
        from facts import Facts
        F = Facts(os.environ["GC_FACTS"]) if "GC_FACTS" in os.environ else facts()
        rc = 0
        for pid in sys.argv[2:] or sorted(registry.CHECKS):
            c, dt = decide(F, pid, tier)
            rc |= report(c, pid, tier, dt)
        return rc
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
