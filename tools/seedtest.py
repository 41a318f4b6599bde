#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo and runs the checks against them.

usage: seedtest.py [--nocheck] ID...      (all of /verif/seeded without IDs)
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("DV_SEED_DIR", "/tmp/dvseed")
REPO = S + "/repo"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=REPO + "/target")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def prepare():
    if not os.path.isdir(REPO):
        os.makedirs(S, exist_ok=True)
        sh("cp -a /repo " + REPO)
    sh("git -C %s checkout -q -- . ; git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (REPO, REPO, REPO))


def build():
    return sh("rm -rf target/debug/.fingerprint/dune-* target/debug/.fingerprint/dunesh-*; cargo build --offline && cargo test --offline --no-run", cwd=REPO, env=ENV)


def demo(d):
    tmp = S + "/demo"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(d, tmp, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    return sh("timeout 300 bash %s/demo.sh" % tmp, cwd=REPO)


def main():
    args = sys.argv[1:]
    check = "--nocheck" not in args
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
    prepare()
    b = build()
    assert b.returncode == 0, b.stdout[-2000:]
    base = {}
    for i in ids:
        base[i] = demo(V + "/seeded/" + i)
    for i in ids:
        d = V + "/seeded/" + i
        meta = json.load(open(d + "/meta.json"))
        msg = []
        if base[i].returncode != 0:
            msg.append("DEMO FAILS ON CLEAN TREE: " + base[i].stdout[-600:])
        a = sh("git -C %s apply %s/patch.diff" % (REPO, d))
        if a.returncode != 0:
            print(i, "PATCH DOES NOT APPLY", a.stdout)
            continue
        try:
            b = build()
            if b.returncode != 0:
                msg.append("BUILD FAILS " + b.stdout[-1500:])
            else:
                t = sh("timeout 120 cargo test --offline 2>&1 | tail -40", cwd=REPO, env=ENV)
                if "test result: ok" not in t.stdout or "FAILED" in t.stdout:
                    msg.append("TESTS FAIL " + t.stdout[-1500:])
                m = demo(d)
                if m.returncode == 0:
                    msg.append("DEMO PASSES WITH THE BUG " + m.stdout[-600:])
                if check:
                    e = dict(os.environ, DUNE_REPO=REPO, DV_TARGET=S + "/vtarget", VERIF_SEED="1", VERIF_TIER="quick",
                             DV_OUT=S + "/out")
                    c = sh("python3 check.py --property %s --tier quick" % meta["property"], cwd=V, env=e)
                    viol = "VIOLATION property=%s" % meta["property"] in c.stdout
                    msg.append("caught" if c.returncode == 1 and viol else
                               "MISSED rc=%d %s" % (c.returncode, c.stdout[-1200:]))
        finally:
            sh("git -C %s checkout -q -- ." % REPO)
        print(i, meta["property"], "; ".join(msg) or "ok", flush=True)


main()
