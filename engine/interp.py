"""Interpreter of the SSA form: inlining, branch merging, loop invariants."""
import sys
import z3
from .terms import *
from . import terms
from .program import const_bytes, INLINE
from .execu import *
from .execu import BEREG

sys.setrecursionlimit(100000)
INLINED = set(INLINE.split(","))


class Frame:
    __slots__ = ("fn", "regs", "free", "defers", "visits", "cuts", "only")

    def __init__(self, fn, free=()):
        self.fn = fn
        self.regs = {}
        self.free = free
        self.defers = []
        self.visits = {}
        self.cuts = {}
        self.only = None

    def copy(self):
        f = Frame(self.fn, self.free)
        f.regs = dict(self.regs)
        f.defers = list(self.defers)
        f.visits = dict(self.visits)
        f.cuts = dict(self.cuts)
        f.only = self.only
        return f


def regtypes(fn):
    rt = getattr(fn, "_rt", None)
    if rt is None:
        rt, db, uses = {}, {}, {}

        def walkv(v, b):
            if isinstance(v, dict):
                if v.get("k") == "reg":
                    uses.setdefault(v["name"], set()).add(b)
                else:
                    for x in v.values():
                        walkv(x, b)
            elif isinstance(v, list):
                for x in v:
                    walkv(x, b)
        for b in fn.blocks:
            for i in b["instrs"]:
                if "reg" in i and "type" in i:
                    rt[i["reg"]] = i["type"]
                    db[i["reg"]] = b["i"]
                for k, v in i.items():
                    if k not in ("reg", "type"):
                        walkv(v, b["i"])
        for p in fn.params:
            rt[p["name"]] = p["type"]
        fn._rt, fn._db, fn._uses = rt, db, uses
        n = len(fn.blocks)
        reach = [None] * n
        for s in range(n):
            seen = {s}
            st = [s]
            while st:
                x = st.pop()
                for y in fn.blocks[x]["succs"]:
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
            reach[s] = seen
        fn._reach = reach
    return rt


PURE = {"UnOp", "BinOp", "Extract", "MakeInterface", "ChangeType", "ChangeInterface", "Convert", "Field", "FieldAddr", "Index", "IndexAddr", "Slice",
        "Lookup", "Phi", "MultiConvert", "TypeAssert"}


class Machine(Ctx):
    def __init__(self, prog, models):
        Ctx.__init__(self, prog, models)
        self.ctxkey = 0
        self.keyids = {}
        self.cmplog = None
        self.depth = 0
        self.unroll = None
        self.loop_hints = None     # contract supplied
        self.loop_preds = None
        self.contract_off = set()
        self.msmemo = {}
        self.max_instrs = 20_000_000

    # ------------------------------------------------------------ keys, exploration
    def mkkey(self):
        self.callno += 1
        k = (self.ctxkey, tuple(self.trail), self.callno)
        i = self.keyids.get(k)
        if i is None:
            i = self.keyids[k] = len(self.keyids) + 1
        return i

    def sub(self, thunk, key):
        """memoised exploration of thunk from the current state"""
        r = self.memo.get(key)
        if r is not None:
            return r
        sv = (self.ctxkey, self.callno, list(self.fnstack), self.depth)
        self.ctxkey = key

        def t():
            self.callno = 0
            self.fnstack = list(sv[2])
            self.depth = sv[3]
            return thunk()
        try:
            outs = self.explore(t)
        finally:
            self.ctxkey, self.callno, self.fnstack, self.depth = sv
        ended = self.last_cut > 0
        r = (outs, ended)
        self.memo[key] = r
        return r

    def explore(self, thunk, maxpaths=20000):
        base = self.snap()
        sv = (self.prefix, self.pos, self.trail, self.work)
        outcomes = []
        work = [[]]
        n = ncut = 0
        try:
            while work:
                self.restore(base)
                self.prefix = work.pop()
                self.pos, self.trail, self.work = 0, [], work
                n += 1
                self.stats.paths += 1
                if n > maxpaths:
                    raise Unsupported("too many paths")
                if self.deadline and time.time() > self.deadline:
                    raise Budget("time budget exhausted")
                try:
                    r = thunk()
                except CutEnd:
                    ncut += 1
                    continue
                except PathEnd:
                    continue
                outcomes.append((self.snap(), r))
        finally:
            self.prefix, self.pos, self.trail, self.work = sv
            self.restore(base)
        self.last_cut = ncut
        return outcomes

    # ------------------------------------------------------------ merging outcomes
    def merge_outcomes(self, base, outs, ended):
        """outs: [(state, Pay)]; returns a shorter list"""
        if len(outs) <= 1:
            return outs
        nb = len(base[3])
        groups = []
        for st, pay in outs:
            hard = [(k, v) for k, v in st[6].items() if not soft(k)]
            sig = (frozenset(st[5]), frozenset(hard) if all(not isz(x) for _, x in hard) else id(st))
            cond = band(*[c for c in st[3][nb:]])
            placed = False
            for g in groups:
                if g["sig"] == sig:
                    m = self.merge_pair(base, g, st, pay, cond)
                    if m:
                        placed = True
                        break
            if not placed:
                groups.append({"sig": sig, "st": st, "pay": pay, "cond": cond, "n": 1})
        res = []
        for g in groups:
            st = g["st"]
            if g["n"] > 1:
                pc = list(base[3])
                if len(groups) > 1 or ended:
                    c = g["cond"]
                    if c is not True:
                        c = simp(c)
                    if c is not True:
                        pc.append(zb(c))
                st = (st[0], st[1], st[2], pc) + tuple(st[4:])
            res.append((st, g["pay"]))
        return res

    def merge_pair(self, base, g, stB, payB, condB):
        stA, payA, condA = g["st"], g["pay"], g["cond"]
        if payA.kind != payB.kind:
            return False
        nb = base[1]
        baseheap = base[0]
        delta = stA[1] - nb
        hA, hB = stA[0], stB[0]
        sv = self.snap()
        self.nofork += 1
        try:
            newB = {}
            shift = delta if (delta and stB[1] > nb) else 0
            sh = (lambda v: shift_val(v, nb, shift)) if shift else (lambda v: v)
            for o, c in hB.items():
                if o >= nb:
                    newB[o + shift] = (sh(c), stB[7].get(o))
            refs = {}
            chA = {o: c for o, c in hA.items() if o < nb and baseheap.get(o) is not c}
            chB = {o: sh(c) for o, c in hB.items() if o < nb and baseheap.get(o) is not c}
            vB = [sh(v) for v in payB.vals]
            self.count_refs(payA.vals, refs)
            self.count_refs(vB, refs)
            for c in list(chA.values()) + list(chB.values()):
                self.count_refs(c, refs)
            for o, c in hA.items():
                if o >= nb:
                    self.count_refs(c, refs)
            for c, _ in newB.values():
                self.count_refs(c, refs)
            heap = hA.copy()
            self.otype = stA[7].copy()
            for o, (c, t) in newB.items():
                heap[o] = c
                self.otype[o] = t
            self.heap = heap
            self.nextoid = stA[1] + (stB[1] - nb if shift else max(0, stB[1] - stA[1]))
            mg = Merger(self, nb, condB, refs, list(base[3]) + ([zb(condA)] if condA is not True else []), stB[3], shift, stA[8], stB[8])
            for o in set(chA) | set(chB):
                a = chA.get(o, baseheap.get(o))
                b = chB.get(o, baseheap.get(o))
                if a is None or b is None:
                    raise NoMerge("gone")
                if a is not b:
                    heap[o] = mg.content(a, b, self.otype.get(o))
            vals = [mg.val(a, b, t) for a, b, t in zip(payA.vals, vB, payA.tids)]
            if not payA.compatible(payB):
                raise NoMerge("payload")
            lang = {k: v if v.key == stB[4][k].key else v.union(stB[4][k]) for k, v in stA[4].items() if k in stB[4]}
            nst = (heap, self.nextoid, max(stA[2], stB[2]), stA[3], lang, stA[5], merge_soft(stA[6], stB[6]), self.otype.copy(), {k: v for k, v in stA[8].items() if stB[8].get(k) == v})
            g["st"], g["pay"], g["cond"] = nst, payA.with_vals(vals), bor(condA, condB)
            g["n"] += 1
            return True
        except NoMerge:
            return False
        finally:
            self.nofork -= 1
            self.restore(sv)

    def count_refs(self, v, refs):
        if isinstance(v, (SliceV, Ptr, MapRef)):
            if v.oid is not None:
                refs[v.oid] = refs.get(v.oid, 0) + 1
        elif isinstance(v, tuple) and not isinstance(v, ABytes):
            for x in v:
                if isinstance(x, (tuple, SliceV, Ptr, MapRef, IfaceV, IteV, FuncV)):
                    self.count_refs(x, refs)
        elif isinstance(v, list):
            for x in v:
                self.count_refs(x, refs)
        elif isinstance(v, IfaceV):
            self.count_refs(v.val, refs)
        elif isinstance(v, IteV):
            self.count_refs(v.a, refs)
            self.count_refs(v.b, refs)
        elif isinstance(v, FuncV):
            for x in v.free:
                self.count_refs(x, refs)
        elif isinstance(v, SymSeq):
            for x in v.ext:
                self.count_refs(x, refs)
        elif isinstance(v, MergedSeq):
            for c, s in v.cases:
                self.count_refs(s, refs)
        elif isinstance(v, MapVal):
            for x in v.d.values():
                self.count_refs(x, refs)

    def adopt(self, base, outs, ended):
        if not outs:
            raise PathEnd()
        c = self.msmemo.get(id(outs))
        if c is None:
            c = self.msmemo[id(outs)] = (outs, self.merge_outcomes(base, outs, ended))
        ms = c[1]
        k = self.choose(len(ms)) if len(ms) > 1 else 0
        st, pay = ms[k]
        cn = self.callno
        self.restore(st)
        self.callno = cn
        return pay

    # ------------------------------------------------------------ calls
    def call(self, name, args, free=(), site=None):
        m = self.models.get(name)
        if m is not None:
            self.stats.models_used.add(name)
            return m(self, args, site)
        c = self.contracts.get(name)
        if c is not None and not self.init_mode and name not in self.contract_off:
            if self.tag != name:
                self.stats.contracts_used.add(name)
            return c.apply(self, args)
        f = self.prog.funcs.get(name)
        if f is None or not f.blocks:
            if name.endswith(".init"):
                return None
            raise Unsupported("call of %s, which has no contract" % name)
        self.stats.inlined.add(name)
        return self.inline(f, args, free)

    def inline(self, f, args, free=()):
        if self.depth > 200:
            raise Unsupported("call depth")
        if self.init_mode or len(f.blocks) == 1 and not any(i["op"] == "Call" for i in f.blocks[0]["instrs"]):
            return self.run(f, args, free)
        key = self.mkkey()
        base = self.snap()
        outs, ended = self.sub(lambda: Pay("ret", [self.settle(self.run(f, args, free))], [f.results]), key)
        pay = self.adopt(base, outs, ended)
        return pay.vals[0]

    def settle(self, v):
        """make the length of a big-endian encoding explicit where the path fixes it"""
        if isinstance(v, Tup):
            return Tup(self.settle(x) for x in v)
        if isinstance(v, SliceV) and isz(v.len) and v.oid is not None:
            c = self.heap[v.oid]
            if isinstance(c, tuple) and not v.path and not isz(v.off):
                n = self.unique(v.len)
                if n is not None:
                    return SliceV(v.oid, v.path, v.off, n, v.cap)
            if isinstance(c, ABytes) and not v.path and not isz(v.off) and v.off == 0 and any(isinstance(p, Op) and p.kind == "be" for p in c.seq.parts):
                n = self.unique(v.len)
                if n is not None:
                    cells = self.cells_of(c.seq)
                    return SliceV(self.alloc(tuple(cells), self.otype[v.oid]), (), 0, n, v.cap)
        return v

    def unique(self, e):
        """the only value a term can have here, or None"""
        kk = zkey(e)
        if kk in self.known:
            return self.known[kk]
        r = self.sat()
        if r != "sat":
            return None
        n = self.model.eval(e, model_completion=True).as_long()
        if self.sat([e != n]) == "unsat":
            self.known[kk] = n
            return n
        return None

    def run(self, f, args, free=()):
        fr = Frame(f, free)
        for p, a in zip(f.params, args):
            fr.regs[p["name"]] = a
        for p, a in zip(f.freevars, free):
            fr.regs["free " + p["name"]] = a
        self.fnstack.append([f.name, ""])
        self.depth += 1
        r = self.blocks(fr, 0, None, None)
        self.depth -= 1
        self.fnstack.pop()
        return r[1]

    # ------------------------------------------------------------ blocks
    def blocks(self, fr, blk, prev, stop, phis_done=False, inloop=False):
        f = fr.fn
        while True:
            if blk == stop and prev is not None:
                if not phis_done:
                    self.do_phis(fr, blk, prev)
                return ("stop", prev)
            if fr.only is not None and blk not in fr.only:
                raise PathEnd()
            b = f.blocks[blk]
            if not phis_done:
                if prev is not None:
                    self.do_phis(fr, blk, prev)
            phis_done = False
            if blk in f.heads and not inloop:
                self.at_head(fr, blk, prev)
                if not self.init_mode and not (prev in f.heads[blk]) and (f.name, blk) not in self.cutset and not fr.defers:
                    # a loop is one region: its exits fork plainly and meet behind it
                    ip = f.loop_exit(blk)
                    if ip != -1 and prev is not None:
                        key = self.mkkey()
                        base = self.snap()
                        regtypes(f)
                        b0, p0 = blk, prev

                        def thunk():
                            fr2 = fr.copy()
                            r = self.blocks(fr2, b0, p0, ip, True, True)
                            if r[0] == "ret":
                                raise Unsupported("irregular control flow")
                            return FramePay(self, fr, fr2, ip, r[1])
                        outs, ended = self.sub(thunk, key)
                        pay = self.adopt(base, outs, ended)
                        pay.install(fr)
                        prev, blk, phis_done = pay.prev, ip, True
                        continue
            inloop = False
            term = None
            for ins in b["instrs"]:
                op_ = ins["op"]
                if op_ == "Phi":
                    continue
                self.instrs += 1
                if self.instrs > self.max_instrs:
                    raise Budget("instruction budget exhausted")
                if ins["pos"]:
                    self.fnstack[-1][1] = ins["pos"]
                if op_ in ("If", "Jump", "Return", "Panic"):
                    term = ins
                    break
                self.step(fr, ins)
            op_ = term["op"]
            if op_ == "Jump":
                prev, blk = blk, b["succs"][0]
            elif op_ == "Return":
                rs = [self.val(fr, v) for v in term["results"]]
                if len(rs) == 0:
                    return ("ret", None)
                return ("ret", rs[0] if len(rs) == 1 else Tup(rs))
            elif op_ == "Panic":
                self.require(False, "%s: no explicit panic" % short(f.name), ("panic",), term["pos"])
                raise PathEnd()
            else:
                c = self.val(fr, term["cond"])
                if isz(c):
                    c = simp(c)
                if not isz(c):
                    prev, blk = blk, b["succs"][0 if c else 1]
                    continue
                ip = f.ipdom[blk]
                if self.init_mode:
                    raise Unsupported("symbolic branch during initialisation")
                lp = f.inner_loop(blk)
                if ip == -1 or fr.defers or (lp is not None and ip not in lp):
                    d = self.branch(c)
                    prev, blk = blk, b["succs"][0 if d else 1]
                    continue
                # cheap decision first
                d = self.decided(c)
                if d is not None:
                    prev, blk = blk, b["succs"][0 if d else 1]
                    continue
                key = self.mkkey()
                base = self.snap()
                regtypes(f)
                b0 = blk

                def thunk():
                    fr2 = fr.copy()
                    dd = self.branch(c)
                    r = self.blocks(fr2, b["succs"][0 if dd else 1], b0, ip)
                    if r[0] == "ret":
                        raise Unsupported("irregular control flow")
                    return FramePay(self, fr, fr2, ip, r[1])
                outs, ended = self.sub(thunk, key)
                pay = self.adopt(base, outs, ended)
                pay.install(fr)
                prev, blk, phis_done = pay.prev, ip, True

    def decided(self, c):
        for x in self.pc:
            if x.eq(c):
                return True
            if z3.is_not(x) and x.arg(0).eq(c):
                return False
            if z3.is_not(c) and c.arg(0).eq(x):
                return False
        return None

    def do_phis(self, fr, blk, prev):
        f = fr.fn
        b = f.blocks[blk]
        idx = None
        new = {}
        for ins in b["instrs"]:
            if ins["op"] != "Phi":
                break
            if idx is None:
                idx = b["preds"].index(prev)
            new[ins["reg"]] = self.val(fr, ins["edges"][idx])
        fr.regs.update(new)

    # ------------------------------------------------------------ loops
    def at_head(self, fr, blk, prev):
        f = fr.fn
        loop = f.heads[blk]
        back = prev is not None and prev in loop
        key = (f.name, blk)
        if key in self.cutset and not self.init_mode:
            if back and blk in fr.cuts:
                self.cut_back(fr, blk)
            elif prev is None and blk in fr.cuts:
                pass
            else:
                self.cut_enter(fr, blk)
            return
        if not back:
            fr.visits[blk] = (0, 0, len(self.pc))
            return
        n, s, l = fr.visits.get(blk, (0, 0, 0))
        n += 1
        if len(self.pc) > l:
            s += 1
        fr.visits[blk] = (n, s, len(self.pc))
        if s > (self.unroll or UNROLL):
            raise NeedCut(key)
        if n > 300000:
            raise Unsupported("loop does not end")
        if n > 20000 and not self.init_mode:
            raise NeedCut(key)
        m = self.stats.unrolled.get(key, 0)
        if n > m:
            self.stats.unrolled[key] = n

    def phis_of(self, f, blk):
        r = []
        for ins in f.blocks[blk]["instrs"]:
            if ins["op"] != "Phi":
                break
            r.append((ins["reg"], ins["type"]))
        return r

    def cut_enter(self, fr, blk):
        key = self.mkkey()
        plan = self.memo.get(key)
        if plan is None:
            plan = LoopPlanner(self, fr, blk).find()
            self.memo[key] = plan
            if not self.silent:
                self.stats.cuts[(fr.fn.name, blk)] = plan.describe()
        plan.require_entry(self, fr)
        plan.install(self, fr)

    def cut_back(self, fr, blk):
        plan, n, st = fr.cuts[blk]
        plan.check_back(self, fr, n, st)
        raise CutEnd()

    # ------------------------------------------------------------ values
    def val(self, fr, v):
        k = v["k"]
        if k == "reg":
            r = fr.regs[v["name"]]
            if r.__class__ is Unknown:
                raise UnknownUse(r.why)
            return r
        if k == "const":
            c = v.get("_c", self)
            if c is not self:
                return c
            c = self.const(v)
            v["_c"] = c
            return c
        if k == "global":
            return Ptr(self.globals_oid(v["name"]))
        if k == "free":
            return fr.regs["free " + v["name"]]
        if k == "func":
            return FuncV(v["name"])
        if k == "builtin":
            return FuncV("builtin " + v["name"])
        raise Unsupported("value " + k)

    def globals_oid(self, name):
        o = self.globals.get(name)
        if o is None:
            g = self.prog.globals.get(name)
            if g is None:
                raise Unsupported("global " + name)
            v = self.ext_global(name, g)
            o = self.globals[name] = self.alloc(v, g["type"])
        return o

    def ext_global(self, name, g):
        if not g["pkg"].startswith("github.com/mearaj/bips") and g["pkg"] not in INLINED:
            ext = self.models.get("global " + name)
            if ext is None:
                raise Unsupported("global variable %s of a dependency" % name)
            return ext(self)
        return self.zero(g["type"])

    def const(self, v):
        if v.get("zero"):
            return self.zero(v["type"])
        if "bool" in v:
            return v["bool"]
        if "bytes" in v:
            return lit(const_bytes(v["bytes"])) if v["bytes"] else EMPTYB
        if "int" in v:
            ii = self.prog.int_info(v["type"])
            if ii is None:
                t = self.prog.types[v["type"]]
                if t["kind"] == "basic" and t["basic"].startswith(("float", "untyped float")):
                    return Opaque("float", float(int(v["int"])))
                raise Unsupported("constant of type " + t["str"])
            return int(v["int"]) & ((1 << ii[0]) - 1)
        return Opaque("const", v.get("other"))

    # ------------------------------------------------------------ instructions
    def step(self, fr, i):
        m = getattr(self, "op_" + i["op"], None)
        if m is None:
            raise Unsupported("instruction " + i["op"])
        if self.init_mode:
            r = self.init_step(m, fr, i)
        else:
            r = m(fr, i)
        if "reg" in i:
            fr.regs[i["reg"]] = r

    def init_step(self, m, fr, i):
        """an initialiser that cannot be followed makes its value unknown, not
        the whole program; a library call may have changed what it was given"""
        try:
            return m(fr, i)
        except UnknownUse as e:
            if i["op"] in PURE:
                return Unknown(str(e))
            if i["op"] == "Store":
                self.store(self.val(fr, i["addr"]), Unknown(str(e)))
                return None
            if i["op"] == "Call" and self.external(fr, i):
                return self.unknown_call(fr, i, str(e))
            raise
        except Unsupported as e:
            if i["op"] == "Call" and self.external(fr, i):
                return self.unknown_call(fr, i, str(e))
            raise

    def external(self, fr, i):
        """a statically known function outside the program"""
        c = i["call"]
        if "invoke" in c or c["fn"]["k"] != "func":
            return False
        n = c["fn"]["name"]
        f = self.prog.funcs.get(n)
        return n in self.models or f is None or not f.blocks

    def unknown_call(self, fr, i, why):
        for a in i["call"]["args"]:
            try:
                self.forget(self.val(fr, a), why, set())
            except UnknownUse:
                pass
        return Unknown(why)

    def forget(self, v, why, seen):
        """everything reachable from v becomes unknown"""
        if isinstance(v, FuncV):
            raise Unsupported(why)
        if isinstance(v, IfaceV):
            return self.forget(v.val, why, seen)
        if isinstance(v, (tuple, list)):
            for x in v:
                self.forget(x, why, seen)
        elif isinstance(v, MapVal):
            for x in list(v.d.items()):
                self.forget(x, why, seen)
        o = getattr(v, "oid", None)
        if o is not None and o not in seen:
            seen.add(o)
            self.forget(self.heap[o], why, seen)
            self.heap[o] = Unknown(why)

    def op_Alloc(self, fr, i):
        return Ptr(self.alloc(self.zero(i["elem"]), i["elem"]))

    def panics(self, fr, cond, what, pos=""):
        self.require(cond, "%s: %s" % (short(fr.fn.name), what), ("panic",), pos or self.curpos())

    def op_BinOp(self, fr, i):
        x, y = self.val(fr, i["x"]), self.val(fr, i["y"])
        tok = i["tok"]
        if tok in ("==", "!="):
            if self.cmplog is not None and tok == "!=" and self.prog.int_info(i["xt"]):
                self.cmplog.append((fr.fn.name, tok, x, y, self.prog.int_info(i["xt"])))
            r = self.val_eq(x, y, i["xt"])
            return bnot(r) if tok == "!=" and not isz(r) else (simp(z3.Not(r)) if tok == "!=" else r)
        ii = self.prog.int_info(i["xt"])
        if ii is not None:
            if self.cmplog is not None and tok in ("<", "<=", ">", ">="):
                self.cmplog.append((fr.fn.name, tok, x, y, ii))
            return self.arith(fr, tok, x, y, ii, self.prog.int_info(i["yt"]), i["pos"])
        if isinstance(x, BSeq):
            if tok == "+":
                return self.norm(x) + self.norm(y)
            lt = self.str_less(x, y)
            if tok == "<":
                return lt
            if tok == ">=":
                return bnot(lt) if not isz(lt) else simp(z3.Not(lt))
            gt = self.str_less(y, x)
            if tok == ">":
                return gt
            return bnot(gt) if not isz(gt) else simp(z3.Not(gt))
        if self.prog.is_bool(i["xt"]):
            if tok in ("&&", "&"):
                return band(x, y)
            if tok in ("||", "|"):
                return bor(x, y)
        raise Unsupported("operator %s on %s" % (tok, self.prog.types[i["xt"]]["str"]))

    def str_less(self, x, y):
        x, y = self.norm(x), self.norm(y)
        cx, cy = x.concrete, y.concrete
        if cx is not None and cy is not None:
            return cx < cy
        a, b = x.cells, y.cells
        if a is not None and b is not None:
            return self.cells_less(a, b)
        return uf("strless", BS, BS, z3.BoolSort())(x.bs(), y.bs())

    def cells_less(self, a, b):
        """lexicographic order of byte runs of known lengths"""
        n = min(len(a), len(b))
        if n == 0:
            return len(a) < len(b)
        x, y = cat(a[:n]), cat(b[:n])
        if not isz(x) and not isz(y):
            if x != y:
                return x < y
            return len(a) < len(b)
        w = 8 * n
        x, y = bv(x, w), bv(y, w)
        if len(a) < len(b):
            return simp(z3.ULE(x, y))
        return simp(z3.ULT(x, y))

    def arith(self, fr, tok, x, y, ii, yi, pos):
        w, signed = ii
        M = (1 << w) - 1
        if tok in ("<<", ">>"):
            return self.shift(fr, tok, x, y, ii, yi, pos)
        if not isz(x) and not isz(y):
            sx = x - (1 << w) if signed and x >> (w - 1) else x
            sy = y - (1 << w) if signed and y >> (w - 1) else y
            if tok == "+":
                return (x + y) & M
            if tok == "-":
                return (x - y) & M
            if tok == "*":
                return (x * y) & M
            if tok in ("/", "%"):
                if y == 0:
                    self.panics(fr, False, "no division by zero", pos)
                    raise PathEnd()
                q = abs(sx) // abs(sy)
                if (sx < 0) != (sy < 0):
                    q = -q
                return (q if tok == "/" else sx - q * sy) & M
            if tok == "&":
                return x & y
            if tok == "|":
                return x | y
            if tok == "^":
                return x ^ y
            if tok == "&^":
                return x & ~y & M
            if tok == "<":
                return sx < sy
            if tok == "<=":
                return sx <= sy
            if tok == ">":
                return sx > sy
            if tok == ">=":
                return sx >= sy
            raise Unsupported("operator " + tok)
        X, Y = bv(x, w), bv(y, w)
        if tok == "+":
            r = X + Y
        elif tok == "-":
            r = X - Y
        elif tok == "*":
            r = X * Y
        elif tok in ("/", "%"):
            if isz(y):
                self.panics(fr, simp(Y != 0), "no division by zero", pos)
            elif y == 0:
                self.panics(fr, False, "no division by zero", pos)
                raise PathEnd()
            if signed and not isz(y) and y < (1 << (w - 1)) and self.entails(simp(X >= 0)):
                signed = False
            if not isz(y) and not signed and y & (y - 1) == 0:
                sh = y.bit_length() - 1
                r = z3.LShR(X, sh) if tok == "/" else X & (y - 1)
            elif signed:
                r = X / Y if tok == "/" else z3.SRem(X, Y)
            else:
                r = z3.UDiv(X, Y) if tok == "/" else z3.URem(X, Y)
        elif tok == "&":
            r = X & Y
        elif tok == "|":
            r = X | Y
        elif tok == "^":
            r = X ^ Y
        elif tok == "&^":
            r = X & ~Y
        elif tok == "<":
            r = X < Y if signed else z3.ULT(X, Y)
        elif tok == "<=":
            r = X <= Y if signed else z3.ULE(X, Y)
        elif tok == ">":
            r = X > Y if signed else z3.UGT(X, Y)
        elif tok == ">=":
            r = X >= Y if signed else z3.UGE(X, Y)
        else:
            raise Unsupported("operator " + tok)
        return simp(r)

    def shift(self, fr, tok, x, y, ii, yi, pos):
        w, signed = ii
        M = (1 << w) - 1
        yw, ys = yi
        if ys:
            ok = simp(bv(y, yw) >= 0) if isz(y) else not (y >> (yw - 1))
            self.panics(fr, ok, "no negative shift count", pos)
        if not isz(y):
            if y >= w:
                if tok == "<<" or not signed:
                    return 0
                y = w - 1
            if not isz(x):
                if tok == "<<":
                    return (x << y) & M
                if signed and x >> (w - 1):
                    return ((x - (1 << w)) >> y) & M
                return x >> y
            X = bv(x, w)
            r = X << y if tok == "<<" else (X >> y if signed else z3.LShR(X, y))
            return simp(r)
        X = bv(x, w)
        if yw > w:
            big = simp(z3.UGE(y, w))
            Y = z3.Extract(w - 1, 0, y)
        else:
            Y = bv(y, w)
            big = False
        r = X << Y if tok == "<<" else (X >> Y if signed else z3.LShR(X, Y))
        if big is not False:
            if tok == ">>" and signed:
                r = z3.If(big, X >> (w - 1), r)
            else:
                r = z3.If(big, z3.BitVecVal(0, w), r)
        return simp(r)

    def op_UnOp(self, fr, i):
        x = self.val(fr, i["x"])
        tok = i["tok"]
        if tok == "*":
            if x is None:
                self.panics(fr, False, "no nil dereference", i["pos"])
                raise PathEnd()
            if not isinstance(x, Ptr):
                raise Unsupported("load through %r" % (x,))
            return self.load(x)
        if tok == "!":
            return simp(z3.Not(x)) if isz(x) else not x
        ii = self.prog.int_info(i["xt"])
        if ii is None:
            raise Unsupported("unary " + tok)
        M = (1 << ii[0]) - 1
        if tok == "-":
            return simp(-x) if isz(x) else (-x) & M
        if tok == "^":
            return simp(~x) if isz(x) else (~x) & M
        raise Unsupported("unary " + tok)

    def op_Store(self, fr, i):
        p = self.val(fr, i["addr"])
        if p is None:
            self.panics(fr, False, "no nil dereference", i["pos"])
            raise PathEnd()
        if not isinstance(p, Ptr):
            raise Unsupported("store through %r" % (p,))
        self.store(p, self.val(fr, i["val"]))

    def op_ChangeType(self, fr, i):
        return self.val(fr, i["x"])

    def op_ChangeInterface(self, fr, i):
        return self.val(fr, i["x"])

    def op_MakeInterface(self, fr, i):
        return IfaceV(i["xt"], self.val(fr, i["x"]))

    def op_MakeClosure(self, fr, i):
        return FuncV(i["fn"]["name"], tuple(self.val(fr, b) for b in i["bindings"]))

    def op_MakeMap(self, fr, i):
        o = self.alloc(MapVal({}), i["type"])
        return MapRef(o)

    def op_MakeSlice(self, fr, i):
        t = self.prog.types[i["type"]]
        n, c = self.val(fr, i["len"]), self.val(fr, i["cap"])
        N, C = bv(n, 64), bv(c, 64)
        ok = simp(z3.And(N >= 0, z3.ULE(N, C), z3.ULE(C, MAXLEN * 4)))
        self.panics(fr, ok, "make: length in range", i["pos"])
        z = self.zero(t["elem"])
        if isz(n):
            if not self.prog.is_byte_slice(i["type"]):
                vs = self.values(n, 40)
                if vs is None:
                    o = self.alloc(SymSeq(None, 0, (), n, z), ("arr", t["elem"]))
                    return SliceV(o, (), 0, n, c)
            n = self.concretize(n, 600)
        if isz(c):
            c = self.concretize(c, 600) if self.values(c, 12) is not None else None
        if n > 5_000_000:
            raise Unsupported("huge slice")
        tot = n if c is None else max(n, c)
        if tot > 5_000_000:
            tot, c = n, None
        o = self.alloc((z,) * tot, ("arr", t["elem"]))
        return SliceV(o, (), 0, n, c)

    def op_Convert(self, fr, i):
        x = self.val(fr, i["x"])
        ft, tt = i["xt"], i["type"]
        fi, ti = self.prog.int_info(ft), self.prog.int_info(tt)
        if fi and ti:
            return self.intconv(x, fi, ti)
        if self.prog.is_string(ft):
            if self.prog.is_string(tt):
                return x
            if self.prog.is_byte_slice(tt):
                return self.bytes_slice(x)
            t = self.prog.types[tt]
            if t["kind"] == "slice" and self.prog.int_info(t["elem"]) == (32, True):
                c = self.norm(x).concrete
                if c is not None:
                    return self.new_slice([ord(ch) for ch in c.decode("utf8", "replace")], t["elem"], None)
        if self.prog.is_string(tt):
            if self.prog.is_byte_slice(ft):
                return self.slice_seq(x)
            if fi is not None:
                if not isz(x):
                    try:
                        return lit(chr(x).encode("utf8"))
                    except (ValueError, OverflowError, UnicodeEncodeError):
                        return lit("\ufffd".encode("utf8"))
                X = bv(x, 64)
                if self.branch(simp(z3.ULT(X, 128))):
                    return BSeq(((simp(z3.Extract(7, 0, X)),),))
            t = self.prog.types[ft]
            if t["kind"] == "slice" and self.prog.int_info(t["elem"]) == (32, True):
                vs = self.slice_vals(x)
                if all(not isz(v) for v in vs):
                    return lit("".join(chr(v) for v in vs).encode("utf8"))
        raise Unsupported("conversion %s to %s" % (self.prog.types[ft]["str"], self.prog.types[tt]["str"]))

    def intconv(self, x, fi, ti):
        fw, fs = fi
        tw, ts = ti
        if not isz(x):
            if fs and x >> (fw - 1):
                x -= 1 << fw
            return x & ((1 << tw) - 1)
        x = bv(x, fw)
        if tw <= fw:
            return simp(z3.Extract(tw - 1, 0, x))
        return simp(z3.SignExt(tw - fw, x) if fs else z3.ZeroExt(tw - fw, x))

    def op_SliceToArrayPointer(self, fr, i):
        x = self.val(fr, i["x"])
        at = self.prog.types[self.prog.types[i["type"]]["elem"]]
        n = at["len"]
        ok = simp(z3.UGE(x.len, n)) if isz(x.len) else x.len >= n
        self.panics(fr, ok, "slice to array conversion: length at least %d" % n, i["pos"])
        if x.oid is None:
            return None
        c = self.heap[x.oid]
        sub = self.walk(c, x.path)
        if not isz(x.off) and x.off == 0 and isinstance(sub, tuple) and len(sub) == n:
            return Ptr(x.oid, x.path)
        # pointer into the middle of an array: a view
        return Ptr(x.oid, x.path + (("view", x.off, n),))

    # ------------------------------------------------------------ views
    def walk(self, v, path, oid=None):
        for j, k in enumerate(path):
            if isinstance(k, tuple) and k and k[0] == "view":
                off = self.concretize(k[1], 4096, "offset")
                if isinstance(v, ABytes):
                    w = self.window(v.seq, off, k[2])
                    if w is not None:
                        v = w
                        continue
                    v = self.cells_of(v.seq)
                if not isinstance(v, tuple):
                    raise Unsupported("view of a symbolic sequence")
                v = v[off:off + k[2]]
            else:
                v = Ctx.walk(self, v, (k,), oid)
        return v

    def window(self, s, off, n):
        """bytes off..off+n-1 of a text that begins with an opaque part at least that long"""
        s = self.norm(s)
        if s.cells is not None or not s.parts:
            return None
        p = s.parts[0]
        if isinstance(p, tuple) or p.kind in ("be", "hex", "iteb", "dec") or not isz(p.length) or n > 400:
            return None
        if zkey(p.length) in self.known or not self.entails(simp(z3.UGE(p.length, off + n))):
            return None
        f = uf("byte_of", BS, z3.BitVecSort(32), z3.BitVecSort(8))
        return tuple(f(p.bs(), z3.BitVecVal(i, 32)) for i in range(off, off + n))

    def update(self, v, path, x):
        if path and isinstance(path[0], tuple) and path[0][0] == "view":
            k = path[0]
            off = self.concretize(k[1], 4096, "offset")
            if isinstance(v, ABytes):
                v = self.cells_of(v.seq)
            sub = self.update(v[off:off + k[2]], path[1:], x)
            return v[:off] + tuple(sub) + v[off + k[2]:]
        return Ctx.update(self, v, path, x)

    def op_Slice(self, fr, i):
        x = self.val(fr, i["x"])
        lo = self.val(fr, i["low"]) if i.get("low") else 0
        hi = self.val(fr, i["high"]) if i.get("high") else None
        mx = self.val(fr, i["max"]) if i.get("max") else None
        t = self.prog.types[i["xt"]]
        if isinstance(x, SliceOrNil):
            raise Unsupported("slicing a slice that may be nil")
        # index values are ints (or any integer type); widen
        if isinstance(x, BSeq):
            n = self.norm(x).length
            h = n if hi is None else hi
            self.slice_bounds(fr, lo, h, n, i["pos"])
            return self.substr(x, lo, h)
        if t["kind"] == "pointer":
            if x is None:
                self.panics(fr, False, "no nil dereference", i["pos"])
                raise PathEnd()
            at = self.prog.types[t["elem"]]
            n = at["len"]
            path = x.path
            base = 0
            if path and isinstance(path[-1], tuple):
                base = path[-1][1]
                path = path[:-1]
            h = n if hi is None else hi
            m = n if mx is None else mx
            self.slice_bounds(fr, lo, h, m, i["pos"], n)
            return SliceV(x.oid, path, self.addk(base, lo), self.subk(h, lo), self.subk(m, lo))
        if isinstance(x, SliceV):
            h = x.len if hi is None else hi
            if x.cap is None:
                limit = x.len
                if x.oid is not None and not self.ends_with_array(x):
                    limit = self.addk(x.len, self.rest_of_array(x))
            else:
                limit = x.cap
            m = limit if mx is None else mx
            self.slice_bounds(fr, lo, h, m, i["pos"], limit)
            if x.oid is None:
                return NILS
            cap = self.subk(m, lo)
            if mx is None and x.cap is None:
                cap = None
            return SliceV(x.oid, x.path, self.addk(x.off, lo), self.subk(h, lo), cap)
        raise Unsupported("slice of %r" % (type(x),))

    def slice_bounds(self, fr, lo, hi, mx, pos, limit=None):
        if not any(isz(v) for v in (lo, hi, mx, limit if limit is not None else 0)):
            ok = 0 <= lo <= hi <= mx and (limit is None or mx <= limit)
            if ok:
                return
        L, H, M_ = bv(lo, 64), bv(hi, 64), bv(mx, 64)
        c = z3.And(z3.ULE(L, H), z3.ULE(H, M_))
        if limit is not None:
            c = z3.And(c, z3.ULE(M_, bv(limit, 64)))
        self.panics(fr, simp(c), "slice bounds in range", pos)

    def subk(self, a, b):
        if isz(a) or isz(b):
            return simp(bv(a, 64) - bv(b, 64))
        return a - b

    def substr(self, x, lo, hi):
        x = self.norm(x)
        c = x.cells
        if c is not None and not isz(lo) and not isz(hi):
            return BSeq((c[lo:hi],))
        if not isz(lo) and lo == 0:
            if self.same(hi, x.length):
                return x
            # drop a suffix of whole parts
        parts = list(x.parts)
        # align with part boundaries where syntactically possible
        l = lo
        while parts and not (not isz(l) and l == 0):
            p = parts[0]
            n = len(p) if isinstance(p, tuple) else p.length
            if isinstance(p, tuple) and not isz(l) and l < n:
                parts[0] = p[l:]
                l = 0
                break
            if self.same(n, l) or (not isz(n) and not isz(l) and n <= l):
                l = self.subk(l, n)
                parts.pop(0)
                continue
            break
        if not isz(l) and l == 0:
            want = self.subk(hi, lo)
            out = []
            for p in parts:
                if not isz(want) and want == 0:
                    break
                n = len(p) if isinstance(p, tuple) else p.length
                if isinstance(p, tuple) and not isz(want) and want < n:
                    out.append(p[:want])
                    want = 0
                    break
                if self.same(n, want):
                    out.append(p)
                    want = 0
                    break
                if isz(n) or isz(want):
                    d = self.subk(want, n)
                    if isz(d) and not self.entails(simp(z3.UGE(bv(want, 64), bv(n, 64)))):
                        want = None
                        break
                    out.append(p)
                    want = d
                elif n <= want:
                    out.append(p)
                    want -= n
            if want is not None and not isz(want) and want == 0:
                return BSeq(out)
        # last resort: explicit bytes
        h = self.models.get("text substr")
        if h is not None:
            r = h(self, x, lo, hi)
            if r is not None:
                return r
        cells = self.cells_of(x, 100)
        lo = self.concretize(lo, 100)
        hi = self.concretize(hi, 100)
        return BSeq((cells[lo:hi],))

    def op_FieldAddr(self, fr, i):
        x = self.val(fr, i["x"])
        if x is None:
            self.panics(fr, False, "no nil dereference", i["pos"])
            raise PathEnd()
        if not isinstance(x, Ptr):
            raise Unsupported("field of %r" % (x,))
        return Ptr(x.oid, x.path + (i["field"],))

    def op_Field(self, fr, i):
        x = self.val(fr, i["x"])
        if not isinstance(x, tuple):
            raise Unsupported("field of %r" % (x,))
        return x[i["field"]]

    def idx(self, fr, i, n):
        k = self.val(fr, i["index"])
        ii = self.prog.int_info(i["it"])
        if ii is None:
            ii = (64, True)
        if isz(k) or ii[0] != 64:
            k = self.intconv(k, ii, (64, True))
        if isz(k) or isz(n):
            self.panics(fr, simp(z3.ULT(bv(k, 64), bv(n, 64))), "index in range", i["pos"])
        elif k >= n:
            self.panics(fr, False, "index in range", i["pos"])
            raise PathEnd()
        return k

    def op_IndexAddr(self, fr, i):
        x = self.val(fr, i["x"])
        t = self.prog.types[i["xt"]]
        if t["kind"] == "pointer":
            if x is None:
                self.panics(fr, False, "no nil dereference", i["pos"])
                raise PathEnd()
            k = self.idx(fr, i, self.prog.types[t["elem"]]["len"])
            return Ptr(x.oid, x.path + (k,))
        if isinstance(x, SliceV):
            k = self.idx(fr, i, x.len)
            return Ptr(x.oid, x.path + (self.addk(x.off, k),))
        raise Unsupported("index of %r" % (x,))

    def op_Index(self, fr, i):
        x = self.val(fr, i["x"])
        if isinstance(x, BSeq):
            return self.str_index(fr, i, x)
        k = self.idx(fr, i, len(x))
        if isz(k):
            r = x[-1]
            et = self.prog.types[i["xt"]]["elem"]
            for j in range(len(x) - 2, -1, -1):
                r = self.merge(simp(k == j), x[j], r, et, True)
            return r
        return x[k]

    def str_index(self, fr, i, x):
        x = self.norm(x)
        k = self.idx(fr, i, x.length)
        h = self.models.get("text index")
        if x.cells is None and h is not None:
            r = h(self, x, k)
            if r is not None:
                return r
        cells = self.cells_of(x, 100)
        if isz(k):
            r = cells[-1]
            for j in range(len(cells) - 2, -1, -1):
                r = ite(simp(k == j), cells[j], r, 8)
            return r
        return cells[k]

    def op_Extract(self, fr, i):
        x = self.val(fr, i["x"])
        return x[i["index"]]

    def op_TypeAssert(self, fr, i):
        x = self.val(fr, i["x"])
        at = self.prog.types[i["at"]]
        ok = None
        if isinstance(x, IteV):
            raise Unsupported("type assertion on a merged value")
        if x is None:
            ok = False
        elif x.tid == "anyerr":
            raise Unsupported("the type of an assumed error")
        elif at["kind"] == "interface":
            if at["methods"] and not (x.tid == "error" and at["methods"] == ["Error"]):
                raise Unsupported("type assertion to an interface")
            ok = True
            v = x
        else:
            ok = x.tid == i["at"]
            v = x.val if ok else None
        if i["commaok"]:
            if not ok:
                return Tup((self.zero(i["at"]), False))
            return Tup((v, True))
        if not ok:
            self.panics(fr, False, "type assertion", i["pos"])
            raise PathEnd()
        return v

    # maps -------------------------------------------------------------------
    def mapkey(self, k):
        """hashable form of a concrete key, None when symbolic"""
        if isinstance(k, BSeq):
            c = self.norm(k).concrete
            return None if c is None else c
        if isinstance(k, (int, bool)):
            return k
        if isinstance(k, tuple):
            r = tuple(self.mapkey(x) for x in k)
            return None if any(x is None for x in r) else r
        if isinstance(k, IfaceV):
            kk = self.mapkey(k.val)
            return None if kk is None else (k.tid, kk)
        return None

    def op_Lookup(self, fr, i):
        x, k = self.val(fr, i["x"]), self.val(fr, i["index"])
        t = self.prog.types[i["xt"]]
        if t["kind"] != "map":
            return self.str_index(fr, i, x)
        v, ok = self.map_lookup(x, k, t)
        return Tup((v, ok)) if i["commaok"] else v

    def map_lookup(self, x, k, t):
        if x is None:
            return self.zero(t["elem"]), False
        m = self.heap[x.oid]
        if isinstance(m, SymMap):
            for kk, v in reversed(m.writes):
                c = self.val_eq(kk, k, t["key"])
                if self.branch(c) if isz(c) else c:
                    return v, True
            return m.lookup(self, k)
        mk = self.mapkey(k)
        if mk is not None:
            if mk in m.d:
                return m.d[mk][1], True
            return self.zero(t["elem"]), False
        h = self.models.get("map lookup symbolic")
        return h(self, m, k, t)

    def op_MapUpdate(self, fr, i):
        x = self.val(fr, i["map"])
        if x is None:
            self.panics(fr, False, "no assignment to a nil map", i["pos"])
            raise PathEnd()
        k, v = self.val(fr, i["key"]), self.val(fr, i["value"])
        self.map_store(x, k, v)

    def map_store(self, x, k, v):
        self.check_write(x.oid, ())
        m = self.heap[x.oid]
        if isinstance(m, SymMap):
            self.heap[x.oid] = SymMap(m.name, m.lookup, m.writes + ((k, v),), m.meta)
            return
        mk = self.mapkey(k)
        if mk is None:
            if not m.d:
                t = self.prog.types[self.otype[x.oid]]
                z = self.zero(t["elem"])
                self.heap[x.oid] = SymMap("empty", lambda ctx, q: (z, False), ((k, v),))
                return
            raise Unsupported("symbolic map key")
        d = dict(m.d) if not self.init_mode else m.d
        d[mk] = (k, v)
        self.heap[x.oid] = MapVal(d)

    def op_Range(self, fr, i):
        x = self.val(fr, i["x"])
        if isinstance(x, BSeq):
            x = self.norm(x)
            c = x.concrete
            if c is not None:
                out = []
                p = 0
                s = c.decode("utf8", "surrogateescape")
                for ch in s:
                    o = ord(ch)
                    n = 1 if 0xdc80 <= o <= 0xdcff else len(ch.encode("utf8"))
                    out.append((p, 0xfffd if 0xdc80 <= o <= 0xdcff else o))
                    p += n
                return Opaque("iter", [tuple(out), 0])
            h = self.models.get("text range")
            if h is not None:
                r = h(self, x)
                if r is not None:
                    return r
            cells = self.cells_of(x, 100)
            for cc in cells:
                if isz(cc) and not self.entails(simp(z3.ULT(cc, 128))):
                    raise Unsupported("range over text that may not be ASCII")
            return Opaque("iter", [tuple((j, bv(cc, 32) if isz(cc) else cc) for j, cc in enumerate(cells)), 0])
        if x is None:
            return Opaque("iter", [(), 0])
        m = self.heap[x.oid]
        if not isinstance(m, MapVal):
            raise Unsupported("range over a symbolic map")
        items = list(m.d.values())
        if self.range_log is not None:
            self.range_log.append((fr.fn.name, x.oid, len(items)))
        if callable(self.map_order):
            items = list(self.map_order(items))
        elif self.map_order == "rev":
            items.reverse()
        o = self.alloc((tuple(items), 0), None)
        return Opaque("iterobj", o)

    def op_Next(self, fr, i):
        it = self.val(fr, i["iter"])
        tt = self.prog.types[i["type"]]["elems"]

        def z(t):
            try:
                return self.zero(t)
            except Exception:
                return None
        if it.what == "iterobj":
            items, p = self.heap[it.data]
            if p >= len(items):
                return Tup((False, z(tt[1]), z(tt[2])))
            self.heap[it.data] = (items, p + 1)
            k, v = items[p]
            return Tup((True, k, v))
        # strings: functional iterator kept on the frame
        key = ("iter", id(it))
        items, _ = it.data
        p = fr.regs.get(key, 0)
        if p >= len(items):
            return Tup((False, 0, 0))
        fr.regs[key] = p + 1
        return Tup((True, items[p][0], items[p][1]))

    # calls ------------------------------------------------------------------
    def op_Defer(self, fr, i):
        c = i["call"]
        fr.defers.append((c, [self.val(fr, a) for a in c["args"]],
                          self.val(fr, c["recv"]) if "invoke" in c else self.val(fr, c["fn"]), i))

    def op_RunDefers(self, fr, i):
        while fr.defers:
            c, args, f, ii = fr.defers.pop()
            self.docall(fr, c, f, args, ii)

    def op_Call(self, fr, i):
        c = i["call"]
        args = [self.val(fr, a) for a in c["args"]]
        f = self.val(fr, c["recv"]) if "invoke" in c else self.val(fr, c["fn"])
        return self.docall(fr, c, f, args, i)

    def docall(self, fr, c, f, args, i):
        if "invoke" in c:
            return self.invoke(fr, f, c["invoke"], args, i)
        if f is None:
            self.panics(fr, False, "no call of a nil function", i["pos"])
            raise PathEnd()
        if not isinstance(f, FuncV):
            raise Unsupported("call of %r" % (f,))
        if f.name.startswith("builtin "):
            return getattr(self, "bi_" + f.name[8:].replace(":", "_"), self.bi_unknown)(fr, args, i)
        return self.call(f.name, args, f.free, i)

    def bi_unknown(self, fr, args, i):
        raise Unsupported("builtin " + i["call"]["fn"]["name"])

    def invoke(self, fr, recv, meth, args, i):
        if isinstance(recv, IteV):
            nn = bnot(self.isnil(recv))
            self.panics(fr, nn if not isz(nn) else simp(nn), "no method call on a nil interface", i["pos"])
            if self.branch(recv.c):
                return self.invoke(fr, recv.a, meth, args, i)
            return self.invoke(fr, recv.b, meth, args, i)
        if recv is None:
            self.panics(fr, False, "no method call on a nil interface", i["pos"])
            raise PathEnd()
        m = self.models.get("invoke " + meth)
        if m is not None:
            r = m(self, recv, args, i)
            if r is not NotImplemented:
                return r
        if isinstance(recv.tid, int):
            t = self.prog.types[recv.tid]
            nm = None
            if t["kind"] == "pointer":
                nm = "(*%s).%s" % (self.prog.types[t["elem"]]["str"], meth)
            if nm is None or nm not in self.prog.funcs:
                nm2 = "(%s).%s" % (t["str"], meth)
                nm = nm2 if nm2 in self.prog.funcs else nm
            if nm:
                return self.call(nm, [recv.val] + args, (), i)
        raise Unsupported("method %s of %r" % (meth, recv))

    # builtins ---------------------------------------------------------------
    def bi_len(self, fr, args, i):
        x = args[0]
        if isinstance(x, BSeq):
            return self.norm(x).length
        if isinstance(x, SliceV):
            return x.len
        if isinstance(x, MapRef):
            m = self.heap[x.oid]
            if isinstance(m, MapVal):
                return len(m.d)
            ln = getattr(m, "meta", None) and m.meta.get("len")
            if ln is not None and not m.writes:
                return ln
            raise Unsupported("len of a symbolic map")
        if x is None:
            return 0
        raise Unsupported("len of %r" % (x,))

    def bi_cap(self, fr, args, i):
        x = args[0]
        if isinstance(x, SliceV):
            if x.cap is None:
                c = self.fresh("cap", 64)
                self.assume(z3.And(z3.ULE(bv(x.len, 64), c), z3.ULE(c, MAXLEN * 4)))
                return c
            return x.cap
        raise Unsupported("cap")

    def bi_ssa_wrapnilchk(self, fr, args, i):
        if args[0] is None:
            self.panics(fr, False, "no nil dereference", i["pos"])
            raise PathEnd()
        return args[0]

    def bi_min(self, fr, args, i):
        return self.minmax(args, i, True)

    def bi_max(self, fr, args, i):
        return self.minmax(args, i, False)

    def minmax(self, args, i, mn):
        ii = self.prog.int_info(i["type"])
        if ii is None:
            raise Unsupported("min/max")
        r = args[0]
        for a in args[1:]:
            c = self.arith(None, "<", a, r, ii, ii, "")
            if not mn:
                c = self.arith(None, ">", a, r, ii, ii, "")
            r = ite(c, a, r, ii[0])
        return r

    def bi_copy(self, fr, args, i):
        dst, src = args
        if isinstance(src, BSeq):
            sseq, sl = self.norm(src), self.norm(src).length
            svals = None
        else:
            sl = src.len
        if dst.oid is None or (not isz(sl) and sl == 0) or (not isz(dst.len) and dst.len == 0):
            return 0
        if isz(sl) or isz(dst.len):
            n = simp(z3.If(z3.ULT(bv(sl, 64), bv(dst.len, 64)), bv(sl, 64), bv(dst.len, 64)))
        else:
            n = min(sl, dst.len)
        if isz(n):
            # whole content of a fresh array of the same symbolic length
            if isinstance(src, BSeq) or self.is_bytes(src):
                seq = sseq if isinstance(src, BSeq) else self.slice_seq(src)
                if self.same(seq.length, dst.len) and not isz(dst.off) and dst.off == 0:
                    c = self.arr(dst)
                    if isinstance(c, ABytes) and self.same(c.seq.length, dst.len):
                        self.check_write(dst.oid, dst.path)
                        self.heap[dst.oid] = self.update(self.heap[dst.oid], dst.path, ABytes(seq)) if dst.path else ABytes(seq)
                        return n
            elif not isinstance(src, BSeq) and isinstance(self.arr(src), SymSeq) and isinstance(self.arr(dst), SymSeq):
                a, b = self.arr(src), self.arr(dst)
                if all(not isz(x) and x == 0 for x in (src.off, dst.off)) and self.same(sl, dst.len) and \
                        self.same(a.len(), sl) and self.same(b.len(), dst.len):
                    self.check_write(dst.oid, dst.path)
                    self.heap[dst.oid] = self.update(self.heap[dst.oid], dst.path, a) if dst.path else a
                    return n
            n = self.concretize(n, 600)
        if n == 0:
            return 0
        if isinstance(src, BSeq):
            vals = self.cells_of(sseq)[:n]
        else:
            vals = self.slice_vals(SliceV(src.oid, src.path, src.off, n, None))
        off = self.concretize(dst.off, 600)
        self.check_write(dst.oid, dst.path)
        c = self.arr(dst)
        if isinstance(c, ABytes):
            c = self.cells_of(c.seq)
        if isinstance(c, tuple):
            c = c[:off] + tuple(vals) + c[off + n:]
            self.heap[dst.oid] = self.update(self.heap[dst.oid], dst.path, c)
        else:
            for j, v in enumerate(vals):
                self.heap[dst.oid] = self.update(self.heap[dst.oid], dst.path + (off + j,), v)
        return n

    def is_bytes(self, sl):
        return sl.oid is not None and isinstance(self.arr(sl), (ABytes, tuple)) and isinstance(self.otype.get(sl.oid), tuple) and \
            self.prog.int_info(self.otype[sl.oid][1]) == (8, False)

    def bi_append(self, fr, args, i):
        dst, src = args
        t = self.prog.types[i["type"]]
        return self.append(dst, src, t["elem"])

    def append(self, dst, src, elem):
        isb = self.prog.int_info(elem) == (8, False)
        if isinstance(src, BSeq):
            sl = self.norm(src).length
        else:
            sl = src.len
        if isz(sl):
            sl = self.known.get(zkey(sl), sl)
        if not isz(sl) and sl == 0:
            return dst
        # in place?
        newlen = self.addk(dst.len, sl)
        if dst.oid is not None and dst.cap is not None:
            fits = simp(z3.ULE(bv(newlen, 64), bv(dst.cap, 64))) if isz(newlen) or isz(dst.cap) else newlen <= dst.cap
            if self.branch(fits) if isz(fits) else fits:
                return self.append_inplace(dst, src, sl, newlen, elem)
        elif dst.oid is not None and not self.ends_with_array(dst):
            # a part of an array: at least the rest of it is free to be written to
            rest = self.rest_of_array(dst)
            fits = simp(z3.ULE(bv(sl, 64), bv(rest, 64))) if isz(sl) or isz(rest) else sl <= rest
            if self.branch(fits) if isz(fits) else fits:
                return self.append_inplace(dst, src, sl, newlen, elem)
            if self.branch(self.fresh("fits", "bool")):
                return self.append_inplace(dst, src, sl, newlen, elem)
        elif dst.oid is not None and dst.oid < self.protected and \
                self.branch(simp(z3.And(self.fresh("fits", "bool"), bv(sl, 64) != 0))):
            # the caller's slice may have spare capacity: its memory would be written to
            self.check_write(dst.oid, dst.path)
        elif dst.oid is not None:
            # unknown capacity: a second append after the same prefix may share memory
            k = ("app", dst.oid, zkey((dst.path, dst.off)), zkey(dst.len))
            if k in self.hw:
                if self.branch(self.fresh("alias", "bool")):
                    o2 = self.hw[k]
                    return self.append_alias(dst, o2, src, newlen, elem)
            else:
                r = self.append_copy(dst, src, sl, newlen, elem, isb)
                self.hw[k] = r.oid
                return r
        return self.append_copy(dst, src, sl, newlen, elem, isb)

    def array_len(self, sl):
        c = self.arr(sl)
        if isinstance(c, tuple):
            return len(c)
        if isinstance(c, ABytes):
            return self.norm(c.seq).length
        if isinstance(c, SymSeq):
            return c.len()
        return None

    def rest_of_array(self, sl):
        """number of elements the array has after the end of the slice"""
        n = self.array_len(sl)
        end = self.addk(sl.off, sl.len)
        return self.subk(n, end)

    def ends_with_array(self, sl):
        n = self.array_len(sl)
        return n is None or self.same(self.addk(sl.off, sl.len), n)

    def append_alias(self, dst, o2, src, newlen, elem):
        """the earlier append wrote in place, and this one overwrites it"""
        vals = self.cells_of(src) if isinstance(src, BSeq) else self.slice_vals(src)
        c = self.heap[o2]
        st = dst.len
        for j, v in enumerate(vals):
            c = self.update(c, (self.addk(st, j),), v)
        self.heap[o2] = c
        return SliceV(o2, (), 0, newlen, None)

    def append_inplace(self, dst, src, sl, newlen, elem):
        isb = self.prog.int_info(elem) == (8, False)
        self.check_write(dst.oid, dst.path)
        at = self.addk(dst.off, dst.len)
        c = self.arr(dst)
        if isb and (isinstance(c, ABytes) or isinstance(c, tuple) and (isz(sl) or isz(at))):
            if dst.oid < self.protected:
                return SliceV(dst.oid, dst.path, dst.off, newlen, dst.cap)      # the frame violation has been recorded
            q = self.norm(c.seq) if isinstance(c, ABytes) else BSeq((c,))
            end = self.addk(at, sl)
            new = self.substr(q, 0, at) + (self.norm(src) if isinstance(src, BSeq) else self.slice_seq(src))
            n = q.length
            longer = simp(z3.ULT(bv(end, 64), bv(n, 64))) if isz(end) or isz(n) else end < n
            if self.branch(longer) if isz(longer) else longer:
                new = new + self.behind(q, end, n)
            self.heap[dst.oid] = self.update(self.heap[dst.oid], dst.path, ABytes(self.norm(new)))
            return SliceV(dst.oid, dst.path, dst.off, newlen, dst.cap)
        vals = self.cells_of(src) if isinstance(src, BSeq) else self.slice_vals(src)
        if isinstance(c, tuple) and not isz(at):
            c = c[:at] + tuple(vals) + c[at + len(vals):]
            self.heap[dst.oid] = self.update(self.heap[dst.oid], dst.path, c)
        elif isinstance(c, SymSeq):
            for j, v in enumerate(vals):
                c = self.seq_store(c, self.addk(at, j), (), v)
            self.heap[dst.oid] = self.update(self.heap[dst.oid], dst.path, c)
        else:
            raise Unsupported("append in place to %r" % (type(c),))
        return SliceV(dst.oid, dst.path, dst.off, newlen, dst.cap)

    def behind(self, q, end, n):
        """the bytes of the array from end on"""
        cells = q.cells
        if cells is not None and not isz(end):
            return BSeq((cells[end:],))
        if cells is not None and all(not isz(x) and x == 0 for x in cells[self.lower(end):]):
            from .models import repeat
            return repeat(self, lit(b"\0"), self.subk(n, end))
        r = op("behind", q, end)
        self.assume(simp(bv(r.length, 64) == bv(self.subk(n, end), 64)))
        return r

    @staticmethod
    def lower(end):
        """a concrete lower bound of an offset k+x, x counted from zero"""
        return 0

    def append_copy(self, dst, src, sl, newlen, elem, isb):
        if dst.oid is not None:
            c = self.arr(dst)
        else:
            c = ()
        if isb and (isz(newlen) or isinstance(c, ABytes) or isinstance(src, BSeq)):
            a = self.slice_seq(dst)
            b = self.norm(src) if isinstance(src, BSeq) else self.slice_seq(src)
            return self.bytes_slice(a + b)
        if isinstance(c, SymSeq) and not isz(dst.off) and dst.off == 0 and (c.total is None or c.spec is None or c.zero is not None):
            vals = self.slice_vals(src)
            if self.same(c.used(), dst.len):
                o = self.alloc(SymSeq(c.spec, c.m, c.ext + tuple(vals), None, None, c.over), ("arr", elem))
                return SliceV(o, (), 0, newlen, None)
        if not isz(dst.len):
            if isz(sl) or (src.oid is not None and isinstance(self.arr(src), (SymSeq,))):
                s = self.arr(src)
                if isinstance(s, SymSeq) and not isz(dst.len) and dst.len == 0 and not isz(src.off) and src.off == 0:
                    o = self.alloc(s, ("arr", elem))
                    return SliceV(o, (), 0, newlen, None)
            vals = self.slice_vals(SliceV(dst.oid, dst.path, dst.off, dst.len, None)) if dst.oid is not None else ()
            v2 = self.cells_of(src) if isinstance(src, BSeq) else self.slice_vals(src)
            o = self.alloc(tuple(vals) + tuple(v2), ("arr", elem))
            return SliceV(o, (), 0, len(vals) + len(v2), None)
        if isb:
            a = self.slice_seq(dst)
            b = self.slice_seq(src)
            return self.bytes_slice(a + b)
        if isz(dst.len):
            n = self.concretize(dst.len, 100)
            return self.append_copy(SliceV(dst.oid, dst.path, dst.off, n, None), src, sl, newlen, elem, isb)
        raise Unsupported("append")

    def bi_delete(self, fr, args, i):
        m, k = args
        if m is None:
            return None
        self.check_write(m.oid, ())
        v = self.heap[m.oid]
        mk = self.mapkey(k)
        if not isinstance(v, MapVal) or mk is None:
            raise Unsupported("delete")
        d = dict(v.d)
        d.pop(mk, None)
        self.heap[m.oid] = MapVal(d)

    def bi_clear(self, fr, args, i):
        m = args[0]
        if isinstance(m, MapRef):
            self.check_write(m.oid, ())
            self.heap[m.oid] = MapVal({})
            return None
        if isinstance(m, SliceV):
            n = self.concretize(m.len, 600)
            t = self.prog.types[i["call"]["args"][0].get("type")] if False else None
            for j in range(n):
                self.store(Ptr(m.oid, m.path + (self.addk(m.off, j),)), 0)
            return None
        if m is None:
            return None
        raise Unsupported("clear")

    def bi_print(self, fr, args, i):
        return None

    bi_println = bi_print


def short(n):
    return n.replace("github.com/mearaj/bips/", "")


def shift_val(v, nb, d):
    if isinstance(v, SliceV):
        return SliceV(v.oid + d, v.path, v.off, v.len, v.cap) if v.oid is not None and v.oid >= nb else v
    if isinstance(v, Ptr):
        return Ptr(v.oid + d, v.path) if v.oid >= nb else v
    if isinstance(v, MapRef):
        return MapRef(v.oid + d) if v.oid >= nb else v
    if isinstance(v, Tup):
        return Tup(shift_val(x, nb, d) for x in v)
    if isinstance(v, tuple):
        if v and (isinstance(v[0], int) or isz(v[0])):
            return v
        return tuple(shift_val(x, nb, d) for x in v)
    if isinstance(v, IfaceV):
        return IfaceV(v.tid, shift_val(v.val, nb, d))
    if isinstance(v, IteV):
        return IteV(v.c, shift_val(v.a, nb, d), shift_val(v.b, nb, d))
    if isinstance(v, FuncV):
        return FuncV(v.name, tuple(shift_val(x, nb, d) for x in v.free))
    if isinstance(v, SymSeq):
        return SymSeq(v.spec, v.m, tuple(shift_val(x, nb, d) for x in v.ext), v.total, v.zero, tuple((k, shift_val(x, nb, d)) for k, x in v.over))
    if isinstance(v, MergedSeq):
        return MergedSeq([(c, shift_val(s, nb, d)) for c, s in v.cases], v.tid)
    if isinstance(v, MapVal):
        return MapVal({k: (a, shift_val(b, nb, d)) for k, (a, b) in v.d.items()})
    if isinstance(v, Opaque) and v.what == "iterobj":
        return Opaque("iterobj", v.data + d) if v.data >= nb else v
    return v


class Pay:
    def __init__(self, kind, vals, tids):
        self.kind, self.vals, self.tids = kind, vals, tids

    def compatible(self, o):
        return True

    def with_vals(self, vals):
        return Pay(self.kind, vals, self.tids)


def soft(k):
    """bookkeeping that does not affect the meaning of the state"""
    return isinstance(k, tuple) and k and k[0] in ("soft&", "soft|")


def merge_soft(a, b):
    r = {k: v for k, v in a.items() if not soft(k)}
    for k, v in a.items():
        if soft(k) and k[0] == "soft&" and k in b:
            r[k] = v
        if soft(k) and k[0] == "soft|":
            r[k] = v + tuple(x for x in b.get(k, ()) if not any(x is y for y in v))
    for k, v in b.items():
        if soft(k) and k[0] == "soft|" and k not in a:
            r[k] = v
    return r


class FramePay:
    kind = "frame"

    def __init__(self, ctx, fr0, fr2, ip, prev):
        f = fr2.fn
        regtypes(f)
        reach = f._reach[ip]
        self.names, self.vals, self.tids = [], [], []
        phis = {r for r, _ in ctx.phis_of(f, ip)}
        for n, v in fr2.regs.items():
            if n in phis or fr0.regs.get(n, self) is not v:
                if not isinstance(n, str):
                    continue
                if n not in phis:
                    u = f._uses.get(n)
                    d = f._db.get(n)
                    if d is None or not u or not f.dominates(d, ip) or not any(b in reach for b in u):
                        continue
                self.names.append(n)
                self.vals.append(ctx.settle(v))
                self.tids.append(f._rt.get(n))
        self.prev = prev
        self.visits, self.defers, self.cuts = fr2.visits, fr2.defers, fr2.cuts
        self.iters = {n: v for n, v in fr2.regs.items() if not isinstance(n, str)}

    def compatible(self, o):
        return self.names == o.names and len(self.defers) == len(o.defers) == 0 and self.iters == o.iters and \
            {k: id(v[0]) for k, v in self.cuts.items()} == {k: id(v[0]) for k, v in o.cuts.items()}

    def with_vals(self, vals):
        import copy
        p = copy.copy(self)
        p.vals = vals
        return p

    def install(self, fr):
        for n, v in zip(self.names, self.vals):
            fr.regs[n] = v
        fr.regs.update(self.iters)
        fr.visits = dict(self.visits)
        fr.defers = list(self.defers)
        fr.cuts = dict(self.cuts)


class Merger:
    """merge two states: value b under condition cb, else value a"""

    def __init__(self, ctx, nb, cb, refs, pcA, pcB, shift, knA, knB):
        self.knA, self.knB = knA, knB
        self.ctx, self.nb, self.cb, self.refs = ctx, nb, cb, refs
        self.pcA, self.pcB, self.shift = pcA, pcB, shift

    def equal_under(self, pc, a, b):
        ctx = self.ctx
        e = ctx.cells_eq(a, b)
        if e is True:
            return True
        if e is False:
            return False
        ctx.stats.merge_checks = getattr(ctx.stats, "merge_checks", 0) + 1
        r, _ = ctx.solver.check(pc, [z3.Not(e)], 500)
        return r == "unsat"

    def cells(self, a, b):
        if len(a) != len(b):
            raise NoMerge("length")
        nd = [i for i in range(len(a)) if not same_cell(a[i], b[i])]
        if not nd:
            return a
        a, b = unpad(a, self.knA), unpad(b, self.knB)
        nd = [i for i in range(len(a)) if not same_cell(a[i], b[i])]
        if not nd:
            return a
        if len(nd) > 1:
            if self.equal_under(self.pcB, a, b):
                return a
            if self.equal_under(self.pcA, a, b):
                return b
        return tuple(ite(self.cb, y, x, 8) for x, y in zip(a, b))

    def content(self, a, b, tid):
        ctx = self.ctx
        if a is b:
            return a
        if isinstance(a, BigVal) or isinstance(b, BigVal):
            return self.val(a, b, tid)
        if isinstance(a, Buf) and isinstance(b, Buf):
            return Buf(self.seq(a.seq, b.seq))
        if isinstance(tid, tuple):
            et = tid[1]
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                if ctx.prog.int_info(et) == (8, False):
                    return self.cells(a, b)
                return tuple(self.val(x, y, et) for x, y in zip(a, b))
            if isinstance(a, ABytes) and isinstance(b, ABytes):
                return ABytes(self.seq(a.seq, b.seq))
            if isinstance(a, SymSeq) and isinstance(b, SymSeq) and a.spec is b.spec and zkey((a.m, a.total)) == zkey((b.m, b.total)) and len(a.ext) == len(b.ext) and zkey(a.over) == zkey(b.over):
                return SymSeq(a.spec, a.m, tuple(self.val(x, y, et) for x, y in zip(a.ext, b.ext)), a.total, a.zero, a.over)
            raise NoMerge("content")
        if isinstance(a, SymMap) or isinstance(a, MapVal):
            if isinstance(a, SymMap) and isinstance(b, SymMap) and a.name == b.name and a.writes == b.writes:
                return a
            raise NoMerge("map")
        if isinstance(a, HashObj):
            if isinstance(b, HashObj) and a.alg == b.alg and a.key == b.key and a.data == b.data:
                return a
            raise NoMerge("hash")
        if tid is None:
            raise NoMerge("untyped")
        return self.val(a, b, tid)

    def seq(self, a, b):
        if a == b:
            return a
        ca, cb = a.cells, b.cells
        if ca is not None and cb is not None and len(ca) == len(cb):
            return BSeq((self.cells(ca, cb),))
        raise NoMerge("text")

    def val(self, a, b, tid):
        ctx = self.ctx
        if a is b:
            return a
        if isinstance(a, Tup) and isinstance(b, Tup):
            es = ctx.prog.types[tid]["elems"]
            return Tup(self.val(x, y, t) for x, y, t in zip(a, b, es))
        if tid is None:
            raise NoMerge("untyped")
        t = ctx.prog.types[tid]
        k = t["kind"]
        if k == "tuple":
            es = t["elems"] or []
            if len(es) == 0:
                return a
            if len(es) == 1:
                return self.val(a, b, es[0])
        if k == "array" and ctx.prog.int_info(t["elem"]) == (8, False):
            return self.cells(a, b)
        if k in ("array", "struct") and isinstance(a, tuple) and isinstance(b, tuple):
            ts = [t["elem"]] * len(a) if k == "array" else [f["type"] for f in t["fields"]]
            return tuple(self.val(x, y, et) for x, y, et in zip(a, b, ts))
        if isinstance(a, BSeq) and isinstance(b, BSeq):
            return self.seq(a, b)
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            return self.slices(a, b, t)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a == b:
                return a
            if a.oid >= self.nb and b.oid >= self.nb and not a.path and not b.path and \
                    self.refs.get(a.oid) == 1 and self.refs.get(b.oid) == 1 and a.oid != b.oid:
                c = self.content(ctx.heap[a.oid], ctx.heap[b.oid], ctx.otype.get(a.oid))
                return Ptr(ctx.alloc(c, ctx.otype.get(a.oid)))
            raise NoMerge("pointer")
        return ctx.merge(zb(self.cb), b, a, tid)

    def slices(self, a, b, t):
        ctx = self.ctx
        if a.oid == b.oid and zkey((a.path, a.off, a.len)) == zkey((b.path, b.off, b.len)):
            return SliceV(a.oid, a.path, a.off, a.len, a.cap if zkey(a.cap) == zkey(b.cap) else None)
        if a.oid is None or b.oid is None:
            raise NoMerge("nil slice")
        if a.oid < self.nb or b.oid < self.nb or self.refs.get(a.oid) != 1 or self.refs.get(b.oid) != 1:
            raise NoMerge("shared slice")
        et = t["elem"]
        if not isz(a.len) and not isz(b.len) and a.len == b.len and not isz(a.off) and not isz(b.off):
            ca, cb = ctx.arr(a), ctx.arr(b)
            if isinstance(ca, tuple) and isinstance(cb, tuple):
                va, vb = ca[a.off:a.off + a.len], cb[b.off:b.off + b.len]
                if ctx.prog.int_info(et) == (8, False):
                    c = self.cells(va, vb)
                else:
                    c = tuple(self.val(x, y, et) for x, y in zip(va, vb))
                return SliceV(ctx.alloc(c, ("arr", et)), (), 0, a.len, None)
        if ctx.prog.int_info(et) == (8, False):
            sa, sb = ctx.slice_seq(a), ctx.slice_seq(b)
            if sa == sb:
                return ctx.bytes_slice(sa)
        if not isz(a.off) and not isz(b.off) and a.off == 0 and b.off == 0:
            ca, cb = ctx.arr(a), ctx.arr(b)
            if isinstance(ca, SymSeq) and isinstance(cb, SymSeq) and ca.spec is not None and cb.spec is not None and ca.spec.name == cb.spec.name and \
                    not ca.over and not cb.over and ca.zero is None and cb.zero is None and ca.total is None and cb.total is None:
                if len(ca.ext) == len(cb.ext) and (not ca.ext or zkey(ca.m) == zkey(cb.m)):
                    m = self.num(ca.m, cb.m)
                    c = SymSeq(ca.spec, m, tuple(self.val(x, y, et) for x, y in zip(ca.ext, cb.ext)))
                    return SliceV(ctx.alloc(c, ("arr", et)), (), 0, self.num(a.len, b.len), None)
        raise NoMerge("slice")

    def num(self, a, b):
        return a if zkey(a) == zkey(b) else ite(self.cb, b, a, 64)


def unpad(cells, known):
    """zeros before the n low bytes of X, where X is known to have n significant
    bytes: the same as the padded encoding of X"""
    for j in range(len(cells)):
        if not isz(cells[j]):
            continue
        for o in BEREG.get(zkey(cells[j]), {}).values():
            b = o.args[0]
            ln = o.length
            n = known.get(zkey(ln)) if isz(ln) else None
            w = (b.width + 7) // 8
            if n is None or n > w or w > j + 1:
                continue
            lo, i = j + 1 - w, j + 1 - n
            if any(isz(x) or x != 0 for x in cells[lo:i]):
                continue
            full = split(b.tobv(), w)
            if all(same_cell(x, y) for x, y in zip(cells[i:j + 1], full[w - n:])):
                cells = cells[:lo] + tuple(full) + cells[j + 1:]
                break
    return cells


def same_cell(x, y):
    if x is y:
        return True
    if isz(x) or isz(y):
        return isz(x) and isz(y) and x.eq(y)
    return x == y


from .loops import LoopPlanner     # noqa: E402
