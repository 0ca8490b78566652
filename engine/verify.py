"""Runs the verification of one unit (a function against its contract)."""
import time
import traceback
from .terms import *
from .execu import *


class Result:
    """what verifying one unit gave (plain data, crosses process boundaries)"""

    def __init__(self, uid):
        self.uid = uid
        self.status = "error"     # ok / failed / unsupported / budget / error
        self.detail = ""
        self.obligs = []          # dicts
        self.vacuous = False
        self.stats = {}
        self.trace = ""
        self.ends = {}


def reset(m):
    m.memo.clear()
    m.msmemo.clear()
    m.keyids.clear()
    m.obligs = []
    m.ctxkey = 0
    m.callno = 0
    m.lang, m.subst, m.hw = {}, {}, {}
    m.pc = []
    m.fnstack = []
    m.depth = 0
    m.silent = 0
    m.nofork = 0
    m.trail = []
    m.prefix, m.pos, m.work = [], 0, []
    m.inputs = {}
    m.loop_hints = m.loop_preds = m.unroll = None
    m.may_write = None
    m.done = set()


def verify(session, unit, contracts, budget=300):
    m = session.m
    res = Result(unit.id)
    t0 = time.time()
    m.deadline = t0 + budget
    m.tag = unit.id
    m.contracts = contracts
    st = m.stats
    ends_sat = {}

    def body():
        unit.body(m)
        # canary: an unsatisfiable end would make its obligations empty
        r = m.sat()
        ends_sat[r] = ends_sat.get(r, 0) + 1
    try:
        for attempt in range(12):
            m.restore(session.base)
            m.protected = session.base[1]
            reset(m)
            ends_sat.clear()
            try:
                ends = m.explore(body)
                break
            except NeedCut as e:
                m.cutset[e.key] = 1
        else:
            raise Unsupported("too many loops to cut")
        res.paths = len(ends)
        for tag, what in (("frame", "no path writes memory that existed before the call"), ("panic", "no path panics")):
            if ends and not any(tag in o.tags and not o.ok for o in m.obligs):
                m.record("frame: " + what if tag == "frame" else what, (tag,), True, None, None, None, True)
        bad = [o for o in m.obligs if not o.ok]
        res.status = "failed" if bad else "ok"
        if not ends or not (ends_sat.get("sat") or ends_sat.get("unknown")):
            res.vacuous = True
        res.ends = dict(ends_sat)
    except Unsupported as e:
        res.status, res.detail = "unsupported", str(e)
        res.trace = traceback.format_exc()
        res.detail += where(m)
    except Panic as e:
        res.status, res.detail = "unsupported", "unhandled panic: " + str(e) + where(m)
        res.trace = traceback.format_exc()
    except NoMerge as e:
        res.status, res.detail = "unsupported", "values that cannot be merged: " + str(e) + where(m)
        res.trace = traceback.format_exc()
    except Budget as e:
        res.status, res.detail = "budget", str(e)
    except RecursionError:
        res.status, res.detail = "unsupported", "recursion too deep" + where(m)
    except Exception as e:
        res.status, res.detail = "unsupported", "%s: %s" % (type(e).__name__, e) + where(m)
        res.trace = traceback.format_exc()
    for o in m.obligs:
        res.obligs.append(dict(name=o.name, tags=list(o.tags), ok=bool(o.ok), why=o.why or "", pos=o.pos or "",
                               inputs=o.inputs, trivial=bool(o.trivial)))
    res.wall = time.time() - t0
    res.stats = dict(paths=st.paths, feas=st.feas, proved=st.proved, trivial=st.trivial, time=round(st.time, 3),
                     models=sorted(st.models_used), contracts=sorted(st.contracts_used), inlined=sorted(st.inlined),
                     unrolled={"%s#%d" % k: v for k, v in st.unrolled.items()},
                     cuts={"%s#%d" % k: v for k, v in st.cuts.items()}, notes=list(m.notes))
    return res


def where(m):
    if not m.fnstack:
        return ""
    return " (in %s at %s)" % (m.fnstack[-1][0], m.fnstack[-1][1])
