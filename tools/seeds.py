#!/usr/bin/env python3
"""Planted bugs: make them from a list of edits, confirm them, run the checks on them.

  seeds.py make SPEC.py            writes seeded/<id>/ for every entry of SEEDS in SPEC.py
  seeds.py confirm [ID...]         builds, tests and demonstrates each one in a scratch copy
  seeds.py check [ID...]           runs the check of its property on a scratch copy
  seeds.py checkdir DIR [PROP...]  runs checks (all by default) on a tree
"""
import concurrent.futures
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
REPO = "/repo"
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", CGO_ENABLED="1")

DEMO = """#!/bin/bash
# exit 0: the behaviour is right; anything else: it is not
D="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1
T="$(mktemp -d)" || exit 3
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/demo.go"}}' "$PWD" "$D" > "$T/overlay.json"
go build -overlay "$T/overlay.json" -o "$T/demo" RACE./zz_demo || exit 3
RUN"$T/demo"
"""


def copy():
    d = tempfile.mkdtemp(prefix="seed-")
    t = os.path.join(d, "repo")
    shutil.copytree(REPO, t, symlinks=True)
    return d, t


def sh(cmd, cwd, env=ENV, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def make(spec):
    g = runpy.run_path(spec)
    for s in g["SEEDS"]:
        d, t = copy()
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(t, f)
                src = open(p).read()
                if src.count(old) != 1:
                    print(s["id"], "edit matches", src.count(old), "times in", f, repr(old[:60]))
                    raise SystemExit(1)
                open(p, "w").write(src.replace(old, new))
            fs = sorted({e[0] for e in s["edits"]})
            if not s.get("nofmt"):
                sh(["gofmt", "-w"] + fs, t)
            rc, diff = sh(["git", "diff"], t)
            o = os.path.join(SEEDED, s["id"])
            os.makedirs(o, exist_ok=True)
            open(os.path.join(o, "patch.diff"), "w").write(diff)
            demo = DEMO.replace("RACE", "-race " if s.get("race") else "").replace("RUN", "GORACE=halt_on_error=1 " if s.get("race") else "")
            open(os.path.join(o, "demo.sh"), "w").write(demo)
            os.chmod(os.path.join(o, "demo.sh"), 0o755)
            open(os.path.join(o, "demo.go"), "w").write(s["demo"].strip() + "\n")
            sh(["gofmt", "-w", os.path.join(o, "demo.go")], t)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
            print("made", s["id"])
        finally:
            shutil.rmtree(d)


def stable(t):
    rc, out = sh(["go", "test", "-json", "-vet=off", "-count=1", "./..."], t)
    ok = set()
    for l in out.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Action") == "pass" and e.get("Test"):
            ok.add(e["Package"] + "/" + e["Test"])
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [w for w in want if w not in ok]


def confirm(i):
    s = os.path.join(SEEDED, i)
    d, t = copy()
    try:
        rc, out = sh(["bash", os.path.join(s, "demo.sh")], t)
        if rc:
            return i, False, "demo fails on the unchanged tree: " + out[-600:]
        rc, out = sh(["git", "apply", os.path.join(s, "patch.diff")], t)
        if rc:
            return i, False, "patch does not apply: " + out
        rc, out = sh(["go", "build", "./..."], t)
        if rc:
            return i, False, "does not build: " + out[-600:]
        miss = stable(t)
        if miss:
            return i, False, "existing tests catch it: " + " ".join(miss[:3])
        rc, out = sh(["bash", os.path.join(s, "demo.sh")], t)
        if rc == 0 or rc == 3:
            return i, False, "demo exits %d with the change: %s" % (rc, out[-400:])
        return i, True, out.strip().splitlines()[0][:160] if out.strip() else ""
    finally:
        shutil.rmtree(d)


def runcheck(prop, tree, timeout=900):
    e = dict(os.environ, VERIF_REPO=tree, VERIF_SEED="1", VERIF_TIER="quick")
    t = time.time()
    try:
        p = subprocess.run(["python3-vt", os.path.join(HERE, "check.py"), prop], cwd=HERE, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        rc, out = -1, "timeout"
    return rc, out, time.time() - t


def check(i, props=None):
    s = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(s, "meta.json")))
    d, t = copy()
    try:
        sh(["git", "apply", os.path.join(s, "patch.diff")], t)
        res = []
        for p in props or [meta["property"]]:
            rc, out, w = runcheck(p, t)
            res.append((p, rc, out, w))
        return i, res
    finally:
        shutil.rmtree(d)


def show(i, res, verbose=True):
    for p, rc, out, w in res:
        lines = out.strip().splitlines()
        vio = [l for l in lines if l.startswith("VIOLATION")]
        nd = [l for l in lines if l.startswith("NOT DISCHARGED")]
        fi = [l for l in lines if l.startswith("failing input")]
        v = "CAUGHT" if rc == 1 and vio and "no-failing" not in vio[0] else "caught-no-input" if rc == 1 and vio else "quiet" if rc == 0 else "NOANSWER"
        print("%-26s %s %-16s %5.0fs" % (i, p, v, w))
        if verbose:
            for l in nd[:2]:
                print("      ", l[:220])
            for l in fi[:1]:
                print("      ", l[:260])
            if v == "NOANSWER":
                print(out[-800:])
        sys.stdout.flush()


def main():
    cmd = sys.argv[1]
    if cmd == "make":
        return make(sys.argv[2])
    if cmd == "checkdir":
        props = sys.argv[3:] or [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
        for p in props:
            rc, out, w = runcheck(p, os.path.abspath(sys.argv[2]))
            show(os.path.basename(sys.argv[2]), [(p, rc, out, w)])
        return
    ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    if cmd == "confirm":
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            for i, ok, msg in ex.map(confirm, ids):
                print("%-26s %s %s" % (i, "ok " if ok else "BAD", msg))
                sys.stdout.flush()
    elif cmd == "check":
        j = int(os.environ.get("J", "1"))
        with concurrent.futures.ThreadPoolExecutor(j) as ex:
            for i, res in ex.map(check, ids):
                show(i, res)


main()
