"""Does the verifier agree with the Go compiler?  Runs the functions of
/verif/selftest both ways: compiled, on generated arguments, and under the
verifier with the arguments (c) given outright, (s) as symbolic bytes and words
pinned to their values by assumptions, (t) texts as arbitrary texts assumed to be
equal to theirs.  The result the compiled code gives has to be among those the
verifier allows (unsound otherwise), and should be the only one (imprecise
otherwise).

  python3-vt tools/selftest.py [-n CASES] [-s SEED] [-m cst] [FUNCTION...]"""
import argparse
import collections
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
import z3                                                        # noqa: E402
from engine import program                                       # noqa: E402
from engine.terms import *                                       # noqa: E402
from engine.execu import *                                       # noqa: E402
from engine.session import Session, MOD                          # noqa: E402
from engine.program import Program, build_frontend, goenv, GO, INLINE, REPO     # noqa: E402
from engine.verify import reset                                  # noqa: E402
from engine.interp import NeedCut                                # noqa: E402

PKG = MOD + "selftest"


def compiled(d, n, seed):
    src = open(os.path.join(V, "selftest", "funcs.go")).read()
    names = re.findall(r"(?m)^func ([A-Z]\w*)\(", src)
    os.makedirs(os.path.join(d, "selftest", "run"))
    shutil.copy(os.path.join(V, "selftest", "funcs.go"), os.path.join(d, "selftest"))
    shutil.copy(os.path.join(V, "selftest", "run", "main.go"), os.path.join(d, "selftest", "run"))
    with open(os.path.join(d, "selftest", "run", "list.go"), "w") as f:
        f.write('package main\n\nimport . "%s"\n\nvar funcs = map[string]any{%s}\n' % (PKG, ", ".join('"%s": %s' % (x, x) for x in names)))
    r = subprocess.run(["go", "run", "./selftest/run", str(n), str(seed)], cwd=d, env=goenv(GO), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise SystemExit(r.stderr)
    return [json.loads(x) for x in r.stdout.splitlines()]


def load(d):
    r = subprocess.run([build_frontend(), "-dir", d, "-inline", INLINE, "./bip32", "./bip39/...", "./bip44", "./util", "./selftest"],
                       env=goenv(GO), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise SystemExit(r.stderr)
    return Program(json.loads(r.stdout))


def arg(m, mode, v, tid, k):
    if isinstance(v, list):
        t = m.prog.types[tid]
        cells = tuple(arg(m, mode, x, t["elem"], "%s.%d" % (k, i)) for i, x in enumerate(v))
        return SliceV(m.alloc(cells, ("arr", t["elem"])), (), 0, len(cells), len(cells))
    if v[0] in "sb":
        c = tuple(bytes.fromhex(v[1:]))
        if mode == "s" and c:
            w = z3.BitVec("arg%s" % k, 8 * len(c))
            m.assume(w == int.from_bytes(bytes(c), "big"))
            c = split(w, len(c))
        if v[0] == "b":
            return SliceV(m.alloc(c, ("arr", m.prog.bystr.get("uint8", m.prog.bystr.get("byte")))), (), 0, len(c), len(c))
        if mode == "t":
            a = op("atom", "arg%s" % k)
            e = m.seq_eq(m.norm(a), m.norm(BSeq((c,)) if c else EMPTYB))
            m.assume(simp(zb(e)))
            return a
        return BSeq((c,)) if c else EMPTYB
    w, _ = m.prog.int_info(tid)
    n = int(v[1:]) % (1 << w)
    if mode == "s":
        x = z3.BitVec("arg%s" % k, w)
        m.assume(x == n)
        return x
    return n


def matches(m, got, want, tid):
    """condition for the verifier's result to be the compiled one"""
    if isinstance(want, bool):
        return zb(got) if want else z3.Not(zb(got))
    if isinstance(want, list):
        t = m.prog.types[tid]
        if got.oid is None:
            return want == []
        c = bv(got.len, 64) == len(want)
        if not want:
            return simp(c)
        if m.sat([c]) == "unsat":
            return False
        if isz(got.len):
            m.assume(simp(c))
        sl = SliceV(got.oid, got.path, got.off, len(want), got.cap)
        vals = m.slice_vals(sl)
        return simp(z3.And(c, *[zb(matches(m, x, y, t["elem"])) for x, y in zip(vals, want)]))
    if want[0] == "s":
        return m.seq_eq(m.norm(got), m.norm(BSeq((tuple(bytes.fromhex(want[1:])),)) if len(want) > 1 else EMPTYB))
    if want[0] == "b":
        c = tuple(bytes.fromhex(want[1:]))
        return m.seq_eq(m.norm(m.slice_seq(got)) if got.oid is not None else EMPTYB, m.norm(BSeq((c,)) if c else EMPTYB))
    w, _ = m.prog.int_info(tid)
    return simp(bv(got, w) == int(want[1:]) % (1 << w))


def case(s, c, mode, budget):
    """ok / imprecise / unsound / unsupported"""
    m = s.m
    f = m.prog.funcs[PKG + "." + c["f"]]
    m.deadline = time.time() + budget
    m.tag = "selftest"
    m.contracts = {}
    seen = {"possible": 0, "only": 1}

    def body():
        args = [arg(m, mode, v, p["type"], str(i)) for i, (v, p) in enumerate(zip(c["args"], f.params))]
        before = len([o for o in m.obligs if not o.ok])
        try:
            r = m.call(PKG + "." + c["f"], args)
        except Panic:
            if m.sat() != "unsat":
                seen["only"] &= c["res"] == ["panic"]
                seen["possible"] |= c["res"] == ["panic"]
            return
        if c["res"] == ["panic"]:
            if m.sat() != "unsat":
                seen["only"] = 0
            return
        rs = list(r) if isinstance(r, Tup) else [r]
        ts = f.results if isinstance(f.results, list) else [f.results]
        tt = m.prog.types[f.results] if not isinstance(f.results, list) else None
        if tt is not None and tt["kind"] == "tuple":
            ts = tt["elems"]
        if m.sat() == "unsat":
            return
        ok = band(*[matches(m, x, y, t) for x, y, t in zip(rs, c["res"], ts)]) if len(rs) > 1 else matches(m, rs[0], c["res"][0], ts[0])
        if isz(ok):
            ok = simp(ok)
        if not isz(ok):
            seen["possible"] |= bool(ok)
            seen["only"] &= bool(ok)
        else:
            seen["only"] &= m.entails(ok)
            seen["possible"] |= m.sat([ok]) != "unsat"
    try:
        for attempt in range(12):
            m.restore(s.base)
            m.protected = s.base[1]
            reset(m)
            seen.update(possible=0, only=1)
            try:
                m.explore(body)
                break
            except NeedCut as e:
                m.cutset[e.key] = 1
    except (Unsupported, NoMerge, Budget) as e:
        return "unsupported", "%s: %s" % (type(e).__name__, e)
    except Exception as e:
        return "unsupported", "%s: %s" % (type(e).__name__, e)
    failed = [o for o in m.obligs if not o.ok]
    if c["res"] == ["panic"]:
        if failed or seen["possible"]:
            return "ok", ""
        return "unsound", "the panic is not seen"
    if not seen["possible"]:
        return "unsound", "the compiled result is impossible"
    if failed:
        return "imprecise", "obligation fails: " + failed[0].name
    return ("ok", "") if seen["only"] else ("imprecise", "")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-n", type=int, default=40)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-m", default="cst")
    ap.add_argument("-b", type=float, default=20)
    ap.add_argument("-j", type=int, default=6)
    ap.add_argument("names", nargs="*")
    a = ap.parse_args()
    d = tempfile.mkdtemp(prefix="verif-selftest-")
    try:
        subprocess.run(["cp", "-a", REPO + "/.", d], check=True)
        cases = compiled(d, a.n, a.s)
        s = Session(load(d))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if a.names:
        cases = [c for c in cases if c["f"] in a.names]
    byf = collections.OrderedDict()
    for c in cases:
        byf.setdefault(c["f"], []).append(c)
    todo, running, tot = list(byf), {}, collections.Counter()
    while todo or running:
        while todo and len(running) < a.j:
            f = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                out, notes, done = collections.Counter(), collections.OrderedDict(), set()
                for c in byf[f]:
                    k = json.dumps(c)
                    if k in done:
                        continue
                    done.add(k)
                    for mode in a.m:
                        s.m.cutset = type(s.m.cutset)()
                        res, why = case(s, c, mode, a.b)
                        out[mode + " " + res] += 1
                        if res != "ok":
                            notes.setdefault((mode, res, why), c)
                with os.fdopen(w, "w") as fh:
                    json.dump([out, [[list(k), v] for k, v in sorted(notes.items(), key=lambda x: x[0][1] != "unsound")[:20]]], fh)
                os._exit(0)
            os.close(w)
            running[pid] = (f, r)
        pid, _ = os.wait()
        f, r = running.pop(pid)
        with os.fdopen(r) as fh:
            t = fh.read()
        if not t:
            print("DIED", f)
            continue
        out, notes = json.loads(t)
        tot.update(out)
        if notes:
            print(f, out)
            for (mode, res, why), c in notes[:6]:
                dec = lambda v: repr(bytes.fromhex(v[1:])) if isinstance(v, str) and v[:1] in "sb" else v
                print("   ", mode, res.upper() if res == "unsound" else res, why[:150], [dec(x) for x in c["args"]], "->", [dec(x) for x in c["res"]])
        sys.stdout.flush()
    print(dict(tot))


if __name__ == "__main__":
    main()
