"""Looks for inputs of the real code that show a failed obligation to be a
violation (and, in the thorough tier, tries the assumptions of the proofs).  It
decides nothing: without a failed obligation it is not even run in the quick tier."""
import glob
import json
import os
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(VERIF, "replay")
ALL_READ = ["master", "child", "neuter", "ser", "deser", "b58deser", "getters", "path", "pathval", "pathrep", "versionbytes", "hashes", "addrhex", "p2sh",
            "rootseed", "derive", "range", "coinvalid", "mnemonic", "tobytes"]
MANY = ("registry",)       # needs several processes: the order of map iteration differs


def build(race=False, where=None):
    """the harness, built from the current source tree; None and the reason if it does not build"""
    from engine.program import REPO, GO, goenv
    out = os.path.join(where or tempfile.mkdtemp(prefix="verif-replay-"), "replay-race" if race else "replay")
    ov = out + ".overlay.json"
    with open(ov, "w") as f:
        json.dump({"Replace": {os.path.join(REPO, "verifreplay", os.path.basename(s)): s for s in glob.glob(os.path.join(SRC, "*.go"))}}, f)
    cmd = ["go", "build", "-overlay", ov, "-o", out] + (["-race"] if race else []) + ["./verifreplay"]
    r = subprocess.run(cmd, cwd=REPO, env=goenv(GO), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    if r.returncode:
        return None, r.stdout[-2000:]
    return out, ""


def tables(where):
    from contracts.tables import SLIP132, COIN_ROWS, LANGS, words
    from . import main
    skip = [d["obligation"] for d in main.findings("K11")]
    d = {"Pvt": {str(r["pvt"]): r["pub"] for r in SLIP132}, "Rows": [{"Pvt": r["pvt"], "Pub": r["pub"], "Path": r["path"]} for r in SLIP132],
         "words": {l: words(l) for l in LANGS}, "Coins": [{"Path": r["path"], "Symbol": r["symbol"], "Name": r["name"]} for r in COIN_ROWS],
         "skip": skip, "odd": json.load(open(os.path.join(SRC, "odd.json")))}
    d["pvt"] = d.pop("Pvt")
    d["coins"] = d.pop("Coins")
    p = os.path.join(where, "ref.json")
    with open(p, "w") as f:
        json.dump(d, f)
    return p


def constants(session):
    """integers and strings that occur in the functions of the current source"""
    ints, strs = set(), set()
    if session is None:
        return [], []

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "const":
                if "int" in x:
                    ints.add(str(x["int"]))
                elif "bytes" in x:
                    import base64
                    b = x["bytes"]
                    b = base64.b64decode(b) if isinstance(b, str) else bytes(b or [])
                    if 0 < len(b) <= 64:
                        strs.add(b.hex())
            for v in x.values():
                walk(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                walk(v)
    for n, f in session.prog.funcs.items():
        if "mearaj/bips/" in n and not n.endswith(".init") and "/wordlists" not in n:
            walk(f.blocks)
    return sorted(ints), sorted(strs)


def parse(out):
    found, stats = None, {}
    for l in out.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if isinstance(d, dict) and "kind" in d and found is None:
            found = d
        elif isinstance(d, dict) and "steps" in d:
            stats = d
    return found, stats


def crash(text, rc):
    """what an abnormal end of the harness shows, or None"""
    if "DATA RACE" in text:
        i = text.index("DATA RACE")
        return "data race between two calls: " + " ".join(text[i:i + 1500].split())
    for s in ("fatal error: ", "panic: ", "runtime: out of memory", "signal: "):
        if s in text:
            i = text.index(s)
            return "the process is killed: " + " ".join(text[i:i + 600].split())
    return None


class Search:
    def __init__(self, session, fails, seed):
        self.dir = tempfile.mkdtemp(prefix="verif-replay-")
        self.seed = seed
        self.ref = tables(self.dir)
        ints, strs = constants(session)
        models = []
        for f in fails:
            if isinstance(f.inputs, dict):
                models.append({k: v for k, v in f.inputs.items()})
        self.hints = os.path.join(self.dir, "hints.json")
        with open(self.hints, "w") as fh:
            json.dump({"ints": ints, "strs": strs, "models": models[:60]}, fh, default=str)
        self.evals = 0
        self.counts = {}
        self.log = []

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, binary, kinds, tags, secs, procs=8, extra=(), seed0=0):
        """several processes with their own seeds; the first finding wins"""
        ps = []
        env = dict(os.environ, GORACE="halt_on_error=1 exitcode=66", GOMEMLIMIT="3GiB", GOTRACEBACK="single")
        for i in range(procs):
            seed = self.seed * 1000 + seed0 + i
            o = open(os.path.join(self.dir, "out.%d" % i), "w+")
            e = open(os.path.join(self.dir, "err.%d" % i), "w+")
            p = subprocess.Popen([binary, "-ref", self.ref, "-hints", self.hints, "-kinds", ",".join(kinds), "-tags", ",".join(sorted(tags)),
                                  "-seed", str(seed), "-seconds", str(secs), *extra], stdout=o, stderr=e, env=env, cwd=self.dir)
            ps.append((p, o, e, seed))
        end = time.time() + secs + 45
        best = None
        done = set()
        while len(done) < len(ps) and time.time() < end and best is None:
            time.sleep(0.02)
            for j, (p, o, e, seed) in enumerate(ps):
                if j in done or p.poll() is None:
                    continue
                done.add(j)
                o.seek(0)
                e.seek(0)
                f, st = parse(o.read())
                self.evals += int(st.get("steps", 0)) or (f or {}).get("step", 0)
                for k, v in (st.get("counts") or {}).items():
                    self.counts[k] = self.counts.get(k, 0) + v
                err = e.read()
                if f is None and p.returncode not in (0, 1):
                    c = crash(err, p.returncode)
                    if c:
                        f = {"kind": kinds[0], "input": {}, "what": [c], "tags": ["X01" if "RACE" in c or "concurrent" in c else "X02"], "seed": seed, "mode": "concurrent" if "-conc" in extra else "crash"}
                    else:
                        self.log.append(err[-300:])
                if f is not None and best is None:
                    best = f
        for p, o, e, _ in ps:
            if p.poll() is None:
                p.kill()
            p.wait()
            o.close()
            e.close()
        return best

    def confirm(self, binary, f, tags):
        """reduce a finding to the input alone, or to the shortest history that shows it"""
        if f.get("mode") or not f.get("input") and f.get("kind") in MANY:
            f.pop("history", None)
            return f
        hist = f.pop("history", None) or []
        tried = [[]] + [hist[-n:] for n in (1, 2, 4, 16, 64, 256, 1024, 6000) if hist] if hist else [[]]
        for h in tried:
            c = dict(f, history=h)
            p = os.path.join(self.dir, "case.json")
            with open(p, "w") as fh:
                json.dump(c, fh)
            for _ in range(2):
                r = subprocess.run([binary, "-ref", self.ref, "-tags", ",".join(sorted(tags)), "-case", p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
                g, _ = parse(r.stdout)
                if g is not None or r.returncode not in (0, 1):
                    if h:
                        f["history"] = h
                    f["confirmed"] = True
                    return f
        f["confirmed"] = "only by running the whole search again (seed %s, step %s)" % (f.get("seed"), f.get("step"))
        return f


def kinds_of(prop, fails):
    """(kinds stating the property, kinds of the failed units)"""
    from contracts.all import UNITS
    own, bad = [], []
    for u in UNITS.values():
        if prop in u.props and u.replay and u.replay not in own:
            own.append(u.replay)
    for f in fails:
        u = UNITS.get(f.unit)
        if u is not None and u.replay and u.replay not in bad:
            bad.append(u.replay)
    return own, bad


def search(prop, fails, tier, seed, session):
    t0 = time.time()
    own, bad = kinds_of(prop, fails)
    s = Search(session, fails, seed)
    out = {"evaluations": 0}
    try:
        binary, why = build(where=s.dir)
        if binary is None:
            return {"evaluations": 0, "error": "the code does not build: " + why}
        scale = 1 if tier == "quick" else 4
        wide = prop in ("X01", "X02")
        f = None
        # the kinds of the failed units first, for violations of the property itself
        first = [k for k in bad if k in own] or own
        if any(k in MANY for k in first):
            for r in range(4):
                f = f or s.run(binary, [k for k in first if k in MANY], {prop}, 5, seed0=8 * r)
        if f is None:
            f = s.run(binary, first, {prop}, scale * (min(40, 14 + 3 * len(first)) if wide else 20))
        if f is None and not wide and set(first) != set(own):
            f = s.run(binary, own, {prop}, scale * 12, seed0=100)
        if f is None and prop == "X01":
            f = s.run(binary, first, {prop}, scale * 10, procs=2, extra=("-conc",), seed0=200)
            if f is None:
                race, why = build(True, s.dir)
                if race:
                    f = s.run(race, first, {prop}, scale * 15, procs=2, extra=("-conc",), seed0=300)
        if f is None:
            # a contract the property rests on is broken: an input that breaks it
            rest = [k for k in bad if k not in own]
            if rest:
                f = s.run(binary, rest, set(), scale * 15, seed0=400)
                if f is not None:
                    f["note"] = "breaks a contract the proof of the property rests on"
                    out["found"] = s.confirm(binary, f, set())
        elif f is not None:
            out["found"] = s.confirm(binary, f, {prop})
        out.update(evaluations=s.evals, kinds=first, counts=s.counts, seconds=round(time.time() - t0, 1), log=s.log[:4])
        return out
    finally:
        s.close()


def conformance(prop, seed, session):
    """the real code against the independent statement of the property, sampled"""
    t0 = time.time()
    own, _ = kinds_of(prop, [])
    s = Search(session, [], seed)
    try:
        binary, why = build(where=s.dir)
        if binary is None:
            return {"evaluations": 0, "error": why}
        f = s.run(binary, own, {prop}, 60)
        if f is None and prop == "X01":
            race, why = build(True, s.dir)
            if race:
                f = s.run(race, own, {prop}, 60, procs=3, extra=("-conc",), seed0=300)
        out = {"label": "bounded (sampled) conformance run of the real code; counts for nothing in the proofs", "evaluations": s.evals, "kinds": own, "counts": s.counts,
               "seconds": round(time.time() - t0, 1)}
        if f is not None:
            out["found"] = s.confirm(binary, f, {prop})
        return out
    finally:
        s.close()


def again(path):
    """run the failing input of a replay file once more; exit code 1 if it still fails"""
    d = json.load(open(path))
    f = d.get("failing_input")
    for o in d.get("failed_obligations", [])[:12]:
        print("failed obligation: %s: %s [%s]" % (o["unit"], o["obligation"], o["pos"]))
    if not f:
        print("no failing input is recorded; the verifier's output is above")
        return 1 if d.get("failed_obligations") else 0
    s = Search(None, [], 1)
    try:
        binary, why = build(where=s.dir)
        if binary is None:
            print("the code does not build:", why)
            return 2
        if f.get("mode") == "concurrent":
            race, _ = build(True, s.dir)
            g = s.run(race or binary, [f["kind"]], {d["property"]}, 20, procs=2, extra=("-conc",))
            print(json.dumps(g, indent=1) if g else "not reproduced")
            return 1 if g else 0
        case = os.path.join(s.dir, "case.json")
        with open(case, "w") as fh:
            json.dump(f, fh)
        for _ in range(8 if f["kind"] in MANY else 1):
            r = subprocess.run([binary, "-ref", s.ref, "-case", case], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode:
                print(r.stdout or r.stderr[-1500:])
                return 1
        print("the recorded input no longer fails")
        return 0
    finally:
        s.close()
