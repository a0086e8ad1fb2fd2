#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the table in seeds.py, after confirming each bug in a scratch copy of /repo:
it compiles, passes the tests, its demonstration passes without it and fails with it.   mkseed.py [id ...]"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
S = "/tmp/gcseed"
sys.path.insert(0, HERE)
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")

RS_DEMO = """#!/bin/bash
# compiles demo.rs against the built library and runs it: exit status 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
rustc --edition 2018 -A warnings -o "$tmp/demo" "$here/demo.rs" --extern gc_core=target/debug/libgc_core.rlib -L dependency=target/debug/deps || exit 2
cd "$tmp" && timeout 60 ./demo
"""
SH_HEAD = """#!/bin/bash
# runs the built commands in a scratch directory: exit status 0 when the property holds
bin=$(pwd)/target/debug
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cd "$tmp" || exit 2
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(repo):
    env = dict(ENV, CARGO_TARGET_DIR=repo + "/target")
    sh("find core command -name '*.rs' -exec touch {} +", cwd=repo)
    r = sh(["cargo", "build", "-q", "--workspace", "--locked", "--offline"], cwd=repo, env=env)
    return r


def demo(repo, d):
    return sh(["bash", d + "/demo.sh"], cwd=repo, env=ENV)


def main():
    import seeds
    want = sys.argv[1:]
    repo = S + "/repo"
    shutil.rmtree(S + "/repo", ignore_errors=True)
    os.makedirs(S, exist_ok=True)
    sh("git clone -q /repo %s" % repo)
    for s in seeds.SEEDS:
        if want and s["id"] not in want:
            continue
        out = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        sh("git checkout -q -- . && git clean -qfd -e target", cwd=repo)
        if "rs" in s:
            open(out + "/demo.rs", "w").write(s["rs"])
            open(out + "/demo.sh", "w").write(RS_DEMO)
        else:
            open(out + "/demo.sh", "w").write(SH_HEAD + s["sh"])
        ok = True
        r = build(repo)
        r = demo(repo, out)
        if r.returncode != 0:
            print("XX", s["id"], "demo fails on the unchanged tree:", r.stdout[-1500:])
            ok = False
        e = s["edit"]
        for i in range(0, len(e), 3):
            p = os.path.join(repo, e[i])
            t = open(p).read()
            if e[i + 1] not in t:
                print("XX", s["id"], "does not apply", e[i])
                ok = False
            open(p, "w").write(t.replace(e[i + 1], e[i + 2], 1))
        open(out + "/patch.diff", "w").write(sh(["git", "diff"], cwd=repo).stdout)
        r = build(repo)
        if r.returncode:
            print("XX", s["id"], "does not compile", r.stdout[-1500:])
            ok = False
        r = demo(repo, out)
        if r.returncode == 0:
            print("XX", s["id"], "demo passes with the change")
            ok = False
        r2 = sh(["cargo", "test", "-q", "--workspace", "--locked", "--offline"], cwd=repo, env=dict(ENV, CARGO_TARGET_DIR=repo + "/target"))
        if r2.returncode:
            print("XX", s["id"], "tests fail", [l for l in r2.stdout.splitlines() if "FAILED" in l][:5])
            ok = False
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        # does a check report it?
        env = dict(os.environ, GC_REPO=repo, GC_BUILD=S + "/build", GC_EVID=S + "/evidence")
        r3 = sh([sys.executable, os.path.join(V, "sa", "main.py"), "all"], env=env)
        fired = [l.split("property=")[1].split()[0] for l in r3.stdout.splitlines() if l.startswith("VIOLATION")]
        print("ok" if ok else "BAD", s["id"], s["prop"], "caught" if s["prop"] in fired else "MISSED", "fired=" + ",".join(fired), flush=True)
        if not ok:
            shutil.rmtree(out)
    shutil.rmtree(S + "/repo", ignore_errors=True)


main()
