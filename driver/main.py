"""The check of one property."""
import collections
import hashlib
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known-findings.jsonl")
QUICK_UNIT, QUICK_ALL = 420, 560
THOROUGH_UNIT, THOROUGH_ALL = 1500, 3000


def findings(prop):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line and line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("kind") == "finding":
                    out.append(d)
    return out


def run_units(session, units, contracts_for, budget, limit, jobs=8):
    """verify every unit in a process of its own"""
    from engine.verify import verify
    tmp = tempfile.mkdtemp(prefix="verif-")
    todo = sorted(units, key=lambda u: -u.cost)
    running, res = {}, {}
    end = time.time() + limit
    try:
        while todo or running:
            while todo and len(running) < jobs:
                u = todo.pop(0)
                path = os.path.join(tmp, u.id.replace("/", "_"))
                left = max(5.0, min(budget, end - time.time()))
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.setpgid(0, 0)
                        r = verify(session, u, contracts_for(u), left)
                        with open(path, "wb") as f:
                            pickle.dump(r, f)
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        sys.stdout.flush()
                        os._exit(code)
                running[pid] = (u, path, time.time() + left + 45)
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                now = time.time()
                for p, (u, path, t) in list(running.items()):
                    if now > t:
                        os.kill(p, signal.SIGKILL)
                time.sleep(0.01)
                continue
            if pid not in running:
                continue
            u, path, _ = running.pop(pid)
            try:
                with open(path, "rb") as f:
                    res[u.id] = pickle.load(f)
            except Exception:
                from engine.verify import Result
                r = Result(u.id)
                r.status, r.detail, r.wall = "budget", "the verifier did not finish (out of time or memory)", 0.0
                res[u.id] = r
    finally:
        for p in running:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def relevant(o, u, prop):
    """does this obligation count for the property?"""
    t = o["tags"]
    if "frame" in t or "panic" in t or "loop" in t or "pre" in t or not t:
        return True
    return prop in t


class Failure:
    def __init__(self, unit, name, pos, why, inputs):
        self.unit, self.name, self.pos, self.why, self.inputs = unit, name, pos, why, inputs

    def text(self):
        s = "%s: %s" % (self.unit, self.name)
        if self.pos:
            s += " [%s]" % self.pos
        return s + " - " + self.why


def run(argv):
    t0 = time.time()
    if argv and argv[0] == "--replay":
        from . import replay
        sys.exit(replay.again(argv[1]))
    if argv and argv[0] == "--setup":
        from engine.session import Session
        from . import replay
        Session()
        with tempfile.TemporaryDirectory(prefix="verif-setup-") as d:
            replay.build(where=d)
        print("ready")
        sys.exit(0)
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(EVID, exist_ok=True)
    try:
        code = decide(prop, tier, seed, t0)
    except SystemExit:
        raise
    except BaseException:
        # the machinery itself failed on this tree: the property is not established
        traceback.print_exc()
        code = undecided(prop, tier, seed, t0, traceback.format_exc())
    sys.stdout.flush()
    sys.exit(code)


def undecided(prop, tier, seed, t0, detail):
    fail = [Failure("(whole program)", "the current source can be brought under the verifier", "", detail.strip().splitlines()[-1], None)]
    return report(prop, tier, seed, t0, fail, {}, [], detail, None)


def decide(prop, tier, seed, t0):
    from engine.session import Session
    import contracts.all as ca
    units = ca.units_of(prop)
    if not units:
        print("no unit states property", prop)
        return 2
    session = Session()
    q = tier == "quick"
    res = run_units(session, units, ca.contracts_for, QUICK_UNIT if q else THOROUGH_UNIT, QUICK_ALL if q else THOROUGH_ALL)
    fails = []
    for u in units:
        r = res[u.id]
        own = prop in u.props
        if r.status not in ("ok", "failed"):
            fails.append(Failure(u.id, "every obligation of %s is generated and discharged" % ", ".join(short(f) for f in u.funcs), "", "%s: %s" % (r.status, r.detail), None))
            continue
        n = 0
        for o in r.obligs:
            if own and not relevant(o, u, prop):
                continue
            n += 1
            if not o["ok"]:
                fails.append(Failure(u.id, o["name"], o["pos"], o["why"], o["inputs"]))
        if n == 0 or r.vacuous:
            fails.append(Failure(u.id, "the statement is not vacuous", "", "no path satisfies the precondition" if r.vacuous else "no obligation was generated", None))
    return report(prop, tier, seed, t0, fails, res, units, "", session)


def short(f):
    return f.replace("github.com/mearaj/bips/", "")


def report(prop, tier, seed, t0, fails, res, units, detail, session):
    known = findings(prop)
    listed = []
    rest = []
    for f in fails:
        k = next((d for d in known if d["unit"] == f.unit and d["obligation"] == f.name), None)
        if k is not None:
            listed.append(k)
        else:
            rest.append(f)
    seen = set()
    for d in listed:
        if id(d) not in seen:
            seen.add(id(d))
            print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
    uniq = collections.OrderedDict()
    for f in rest:
        k = (f.unit, f.name, f.pos)
        if k not in uniq or (uniq[k].inputs is None and f.inputs is not None):
            uniq[k] = f
    rest = list(uniq.values())
    for f in rest[:12]:
        print("NOT DISCHARGED:", f.text()[:600])
    code = 0
    replayed = None
    from . import replay
    if rest:
        try:
            replayed = replay.search(prop, rest, tier, seed, session)
        except Exception:
            traceback.print_exc()
            replayed = {"error": traceback.format_exc()}
        path = os.path.join(EVID, "replay-%s.json" % prop)
        rec = {"property": prop, "failed_obligations": [dict(unit=f.unit, obligation=f.name, pos=f.pos, why=f.why, model_inputs=f.inputs) for f in rest[:40]],
               "verifier_detail": detail, "search": {k: v for k, v in (replayed or {}).items() if k != "found"},
               "failing_input": (replayed or {}).get("found")}
        with open(path, "w") as fh:
            json.dump(rec, fh, indent=1, default=str)
        code = 1
    elif tier == "thorough":
        replayed = replay.conformance(prop, seed, session)
        if replayed and replayed.get("found"):
            path = os.path.join(EVID, "replay-%s.json" % prop)
            with open(path, "w") as fh:
                json.dump({"property": prop, "failed_obligations": [], "note": "found by the conformance run of the trusted contracts",
                           "failing_input": replayed["found"]}, fh, indent=1, default=str)
            code = 1
    write_evidence(prop, tier, seed, t0, fails, listed, rest, res, units, replayed)
    if code:
        line = "VIOLATION property=%s replay=%s" % (prop, path)
        found = (replayed or {}).get("found")
        if found:
            print("failing input:", json.dumps(found)[:1500])
        else:
            line += " no-failing-input-found"
        print(line)
    else:
        n = sum(len(r.obligs) for r in res.values())
        print("property %s holds: %d obligations over %d units discharged in %.1f s" % (prop, n - len(fails), len(units), time.time() - t0))
    return code


def write_evidence(prop, tier, seed, t0, fails, listed, rest, res, units, replayed):
    from contracts import assumptions as asm
    obl = dis = triv = smt = 0
    names = collections.Counter()
    fun = {}
    st = 0.0
    models, inlined, contr, cuts, unrolled, notes = set(), set(), set(), {}, {}, []
    per = []
    for u in units:
        r = res.get(u.id)
        if r is None:
            continue
        mine = [o for o in r.obligs if prop not in u.props or relevant(o, u, prop)]
        obl += len(mine)
        dis += sum(1 for o in mine if o["ok"])
        triv += sum(1 for o in mine if o["ok"] and o["trivial"])
        smt += sum(1 for o in mine if o["ok"] and not o["trivial"])
        for o in mine:
            names["%s: %s" % (u.id, o["name"])] += 1
        st += r.stats.get("time", 0.0) if r.stats else 0.0
        if r.stats:
            models |= set(r.stats["models"])
            inlined |= set(r.stats["inlined"])
            contr |= set(r.stats["contracts"])
            cuts.update(r.stats["cuts"])
            unrolled.update(r.stats["unrolled"])
            notes += r.stats["notes"]
        per.append(dict(unit=u.id, functions=[short(f) for f in u.funcs], kind=u.kind, precondition=u.pre, postcondition=u.post,
                        status=r.status, detail=r.detail, paths=r.stats.get("paths") if r.stats else None,
                        ends_satisfiable=r.ends, obligations=len(mine), discharged=sum(1 for o in mine if o["ok"]), wall_s=round(r.wall, 2),
                        solver_s=r.stats.get("time") if r.stats else None, bounded=u.bounded))
    lvl = "proof"
    nlisted = len(fails) - len(rest) if listed else 0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": lvl,
          "coverage": {
              "obligations": obl - nlisted, "discharged": dis, "checker_cmd": "python3-vt check.py %s" % prop,
              "trusted_base": asm.trusted(models, units),
              "discharged_by": {"syntactic/automata (the verifier's own normalisation)": triv, "z3 %s (SMT, bit vectors and uninterpreted functions)" % asm.z3version(): smt},
              "functions_under_contract": sorted({short(f) for u in units for f in u.funcs}),
              "functions_executed_inside_them": sorted(short(x) for x in inlined),
              "callee_contracts_used": sorted(short(x) for x in contr),
              "loops_cut_by_invariant": {short(k): v for k, v in cuts.items()},
              "loops_fully_unrolled": {short(k): v for k, v in unrolled.items()},
              "solver_time_s": round(st, 2),
              "units": per,
              "obligation_names": [dict(obligation=k, instances=v) for k, v in sorted(names.items())][:400],
              "known_findings": [d["what"] for d in listed],
              "undischarged": [f.text() for f in rest][:60]},
          "assumptions": asm.assumptions(models, units) + sorted(set(notes)),
          "wall_s": round(time.time() - t0, 2), "violations": len(rest)}
    if replayed is not None:
        ev["coverage"]["replay"] = {k: v for k, v in replayed.items()}
    tmp = os.path.join(EVID, ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))
