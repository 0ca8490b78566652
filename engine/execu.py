"""Verification condition generator: symbolic execution of the SSA of one
function against its contract, forking on branches and merging where possible."""
import time
import z3
from .terms import *
from . import terms, dfa
from .program import Program, const_bytes, INTS

QUICK_MS = 8000
PROVE_MS = 40000
FIRST_MS = 2500
UNROLL = 90


class PathEnd(Exception):
    """this path needs no further exploration"""


class CutEnd(PathEnd):
    """end of an arbitrary iteration of a cut loop"""


class Panic(Exception):
    pass


def unit_affine(e):
    """(k, negated, x) for a bit-vector term k + x or k - x"""
    k, t = 0, e
    if z3.is_app_of(e, z3.Z3_OP_BADD) and e.num_args() == 2:
        a, b = e.arg(0), e.arg(1)
        if z3.is_bv_value(b):
            a, b = b, a
        if not z3.is_bv_value(a):
            return None
        k, t = a.as_long(), b
    if z3.is_app_of(t, z3.Z3_OP_BMUL) and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == (1 << t.size()) - 1:
        return k, True, t.arg(1)
    return (k, False, t) if t is not e else None


class NoMerge(Exception):
    pass


class NeedCut(Exception):
    def __init__(self, key):
        self.key = key


class BackEdge(Exception):
    def __init__(self, regs):
        self.regs = regs


class Budget(Exception):
    pass


BEREG = {}       # lowest byte -> encodings of numbers ending in it


class Overlay:
    """mapping with an immutable shared base: copies cost only the changes"""
    __slots__ = ("base", "d")

    def __init__(self, base=None, d=None):
        self.base = {} if base is None else base
        self.d = {} if d is None else d

    def __getitem__(self, k):
        d = self.d
        if k in d:
            return d[k]
        return self.base[k]

    def __setitem__(self, k, v):
        self.d[k] = v

    def get(self, k, default=None):
        d = self.d
        if k in d:
            return d[k]
        return self.base.get(k, default)

    def __contains__(self, k):
        return k in self.d or k in self.base

    def __iter__(self):
        """keys changed over the base"""
        return iter(self.d)

    def items(self):
        return self.d.items()

    def copy(self):
        return Overlay(self.base, dict(self.d))

    def freeze(self):
        b = dict(self.base)
        b.update(self.d)
        return Overlay(b)


class Stats:
    def __init__(self):
        self.feas = self.proved = self.trivial = 0
        self.time = 0.0
        self.paths = 0
        self.models_used = set()
        self.contracts_used = set()
        self.inlined = set()
        self.unrolled = {}
        self.cuts = {}


class Oblig:
    __slots__ = ("name", "tags", "ok", "why", "pos", "model", "trivial", "smt", "fn", "inputs")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))


class Solver:
    """incremental solver mirroring the path condition"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.s = z3.Solver()
        self.levels = []      # (cond, facts_upto)
        self.base = 0

    def sync(self, pc):
        i = 0
        lv = self.levels
        while i < len(lv) and i < len(pc) and lv[i][0].eq(pc[i]):
            i += 1
        if len(lv) > i:
            self.s.pop(len(lv) - i)
            del lv[i:]
        for c in pc[i:]:
            self.s.push()
            self.s.add(c)
            lv.append([c, lv[-1][1] if lv else self.base])
            self.flush()
        self.flush()

    def flush(self):
        f = self.ctx.facts
        upto = self.levels[-1][1] if self.levels else self.base
        if upto < len(f):
            for c in f[upto:]:
                self.s.add(c)
            if self.levels:
                self.levels[-1][1] = len(f)
            else:
                self.base = len(f)

    def check(self, pc, extra, ms):
        self.sync(pc)
        self.s.set("timeout", ms)
        self.s.push()
        for e in extra:
            self.s.add(e)
        r = self.s.check()
        m = self.s.model() if r == z3.sat else None
        self.s.pop()
        return str(r), m


class Ctx:
    def __init__(self, prog, models):
        self.prog = prog
        self.models = models
        self.facts = []
        Op.facts = self.facts
        self.stats = Stats()
        self.heap = Overlay()
        self.otype = Overlay()
        self.nextoid = 1
        self.nfresh = 0
        self.pc = []
        self.lang = {}       # Op key -> DFA known on this path
        self.subst = {}      # Op key -> cells
        self.hw = {}
        self.known = {}      # term id -> value fixed on this path
        self.prefix, self.pos, self.trail, self.work = [], 0, [], []
        self.obligs = []
        self.silent = 0
        self.cur = ""
        self.protected = 0   # oids below this existed before the call
        self.may_write = None
        self.tag = ""
        self.contracts = {}
        self.cutset = {}
        self.hints = None
        self.memo = {}
        self.callno = 0
        self.nofork = 0
        self.solver = Solver(self)
        self.model = None
        self.model_pc = None
        self.globals = {}
        self.init_mode = False
        self.map_order = "ins"
        self.range_log = None
        self.fnstack = []
        self.writelog = None
        self.deadline = None
        self.dump = None
        self.instrs = 0
        self.inputs = {}
        self.notes = []

    # ------------------------------------------------------------ state
    def snap(self):
        return (self.heap.copy(), self.nextoid, self.nfresh, list(self.pc), dict(self.lang), dict(self.subst), dict(self.hw), self.otype.copy(), dict(self.known))

    def restore(self, s):
        self.heap, self.nextoid, self.nfresh = s[0].copy(), s[1], s[2]
        self.pc, self.lang, self.subst, self.hw = list(s[3]), dict(s[4]), dict(s[5]), dict(s[6])
        self.otype = s[7].copy()
        self.known = dict(s[8])

    def alloc(self, content, tid):
        o = self.nextoid
        self.nextoid += 1
        self.heap[o] = content
        self.otype[o] = tid
        return o

    def fresh(self, name, w):
        self.nfresh += 1
        n = "%s!%d" % (name, self.nfresh)
        return z3.Bool(n) if w == "bool" else z3.BitVec(n, w)

    def fact(self, c):
        self.facts.append(c)

    # ------------------------------------------------------------ solver
    def sat(self, extra=(), ms=QUICK_MS):
        """sat / unsat / unknown of pc and extra"""
        extra = [e for e in extra if e is not True]
        if any(e is False for e in extra):
            return "unsat"
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget exhausted")
        t = time.time()
        self.stats.feas += 1
        r, m = self.solver.check(self.pc, extra, ms)
        self.stats.time += time.time() - t
        if r == "sat":
            self.model, self.model_pc = m, list(self.pc) + list(extra)
        return r

    def _model_says(self, c):
        """True/False if the cached model satisfies pc and decides c"""
        if self.model is None:
            return None
        mp = {x.get_id() for x in self.model_pc}
        for x in self.pc:
            if x.get_id() not in mp:
                v = self.model.eval(x, model_completion=True)
                if not z3.is_true(v):
                    return None
        v = self.model.eval(c, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        if z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return
        self.pc.append(c)

    def entails(self, c):
        if not isz(c):
            return bool(c)
        c = simp(c)
        if not isz(c):
            return bool(c)
        if self._model_says(c) is False and self._facts_ok():
            return False
        return self.sat([z3.Not(c)]) == "unsat"

    def _facts_ok(self):
        # the cached model may predate newer facts; then ask the solver
        return False

    def feasible(self, c):
        if not isz(c):
            return bool(c)
        return self.sat([c]) != "unsat"

    # ------------------------------------------------------------ forking
    def branch(self, c):
        if isz(c):
            c = simp(c)
        if not isz(c):
            return bool(c)
        nc = z3.Not(c)
        # decided syntactically by the path condition?
        for x in self.pc:
            if x.eq(c):
                return True
            if x.eq(nc):
                return False
            if z3.is_not(x) and x.arg(0).eq(c):
                return False
        if self.nofork:
            if not self.feasible(c):
                return False
            if not self.feasible(nc):
                return True
            raise NoMerge("fork")
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(d)
            if d in (True, False):
                self.assume(c if d else simp(nc))
                return d
            # forced without fork
            return d == "T"
        t = self.feasible(c)
        f = self.feasible(nc) if t else True
        if t and f:
            self.work.append(list(self.trail) + [False])
            d = True
        else:
            d = "T" if t else "F"
        self.pos += 1
        self.prefix = self.prefix + [d]
        self.trail.append(d)
        if d is True:
            self.assume(c)
            return True
        return d == "T"

    def choose(self, n):
        """non-deterministic choice 0..n-1 made by the explorer"""
        if n == 1:
            return 0
        if self.nofork:
            raise NoMerge("choice")
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(d)
            return d[1]
        for i in range(n - 1, 0, -1):
            self.work.append(list(self.trail) + [("ch", i)])
        d = ("ch", 0)
        self.pos += 1
        self.prefix = self.prefix + [d]
        self.trail.append(d)
        return 0

    def values(self, e, limit):
        """all feasible values of a term (None if more than limit)"""
        out = []
        extra = []
        while True:
            r = self.sat(extra)
            if r == "unsat":
                return out
            if r != "sat":
                return None
            v = self.model.eval(e, model_completion=True).as_long()
            out.append(v)
            if len(out) > limit:
                return None
            extra.append(e != v)

    def concretize(self, e, limit=300, what="length"):
        if isz(e):
            e = simp(e)
        if not isz(e):
            return e
        kk = zkey(e)
        if kk in self.known:
            return self.known[kk]
        u = unit_affine(e)
        if u is not None:
            # k + x or k - x: x has one value exactly when the term has
            k, neg, x = u
            v = self.concretize(x, limit, what)
            v = (k - v if neg else k + v) & ((1 << e.size()) - 1)
        else:
            v = self._concretize(e, limit, what)
        self.known[kk] = v
        return v

    def _concretize(self, e, limit, what):
        if self.nofork:
            vs = self.values(e, 1)
            if not vs:
                raise NoMerge("concretize")
            return vs[0]
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(d)
            self.assume(simp(e == d[1]))
            return d[1]
        kk = zkey(e)
        if kk in BELEN:
            vs = self.values(e, 1)
            if vs is None:
                vs = list(range(BELEN[kk] + 1))
        else:
            vs = self.values(e, limit)
        if vs is None:
            raise Unsupported("symbolic %s with too many values" % what)
        if not vs:
            raise PathEnd()
        vs.sort()
        for v in reversed(vs[1:]):
            self.work.append(list(self.trail) + [("v", v)])
        d = ("v", vs[0])
        self.pos += 1
        self.prefix = self.prefix + [d]
        self.trail.append(d)
        if len(vs) > 1:
            self.assume(simp(e == vs[0]))
        return vs[0]

    # ------------------------------------------------------------ obligations
    def replaying(self):
        return self.pos < len(self.prefix)

    def require(self, cond, name, tags=(), pos="", assume=True):
        """obligation: cond holds here"""
        if isz(cond):
            cond = simp(cond)
        if cond is True:
            if not self.silent and not self.replaying():
                self.record(name, tags, True, "", pos, None, True)
            return True
        if self.silent:
            if assume:
                self.assume(cond)
            return None
        elif self.replaying():
            ok = None
        else:
            self.cur = name
            ok, why, model = self.prove(cond)
            self.record(name, tags, ok, why, pos, model, False)
        if assume:
            if cond is False:
                raise PathEnd()
            if ok is False and not self.feasible(cond):
                raise PathEnd()
            # also when proved: a replay of this path does not prove it again,
            # and has to meet the same path condition
            self.assume(cond)
        return ok

    def prove(self, cond):
        if cond is True:
            return True, "", None
        neg = simp(bnot(cond)) if isz(cond) else True
        if neg is False:
            return True, "", None
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget exhausted")
        t = time.time()
        extra = [] if neg is True else [neg]
        r, m = self.solver.check(self.pc, extra, FIRST_MS)
        if r == "unknown":
            g = self.congruent(cond)
            if g is True:
                r = "unsat"
            else:
                r, m = self.solver.check(self.pc, [simp(bnot(g))] if isz(g) else [], PROVE_MS)
        t = time.time() - t
        self.stats.time += t
        self.stats.slow = max(getattr(self.stats, "slow", (0, "")), (round(t, 2), self.cur))
        if self.dump is not None and r == "unsat":
            self.dump(list(self.facts), list(self.pc), extra)
        if r == "unsat":
            return True, "", None
        if r == "sat":
            return False, "counterexample", m
        return False, "solver answered unknown", None

    def congruent(self, cond, tries=60):
        """the goal with applications of the same function identified whose
        arguments are provably equal here (innermost first)"""
        if not isz(cond):
            return cond
        groups, seen = {}, {}
        left = [tries]

        def equal(x, y):
            if x.eq(y):
                return True
            if not z3.is_bv(x) or left[0] <= 0:
                return False
            c = simp(x == y)
            if not isz(c):
                return bool(c)
            left[0] -= 1
            return self.solver.check(self.pc, [z3.Not(c)], FIRST_MS)[0] == "unsat"

        def visit(t):
            r = seen.get(t.get_id())
            if r is not None:
                return r
            if not z3.is_app(t):
                return t
            d = NAMED.get(t.get_id()) if t.num_args() == 0 else None
            if d is not None:
                args, key = [visit(d)], ("named", t.size())
            elif t.num_args() == 0:
                seen[t.get_id()] = t
                return t
            else:
                args = [visit(c) for c in t.children()]
                if t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                    n = t.decl()(*args) if any(not a.eq(b) for a, b in zip(args, t.children())) else t
                    if n is not t:
                        n = z3.simplify(n)
                    seen[t.get_id()] = n
                    keep.append((t, n))
                    return n
                key = t.decl()
                key = (key.name(), key.arity())
            me = t if d is not None else (t.decl()(*args))
            for old, oa in groups.get(key, ()):
                if all(equal(x, y) for x, y in zip(args, oa)):
                    me = old
                    break
            else:
                groups.setdefault(key, []).append((me, args))
            seen[t.get_id()] = me
            keep.append((t, me))
            return me
        keep = []
        g = visit(cond)
        return simp(g)

    def record(self, name, tags, ok, why, pos, model, trivial):
        if self.silent:
            return
        if ok:
            self.stats.proved += 1
            if trivial:
                self.stats.trivial += 1
        inputs = None
        if not ok and model is not None:
            inputs = self.eval_inputs(model)
        self.obligs.append(Oblig(name=name, tags=tuple(tags), ok=ok, why=why, pos=pos, inputs=inputs,
                                 trivial=trivial, fn=self.tag))

    def eval_inputs(self, m):
        out = {}

        def ev(v):
            if isinstance(v, (tuple, list)):
                return [ev(x) for x in v]
            if isinstance(v, BSeq):
                c = self.norm(v)
                cc = c.cells
                if cc is None:
                    l = c.length
                    if isz(l):
                        l = m.eval(l, model_completion=True).as_long()
                    return {"len": l, "text": repr(c)[:200]}
                return [ev(x) for x in cc]
            if isz(v):
                e = m.eval(v, model_completion=True)
                if z3.is_bv_value(e):
                    return e.as_long()
                return str(e)
            return v
        for k, v in self.inputs.items():
            try:
                out[k] = ev(v)
            except Exception as ex:    # diagnostics only
                out[k] = "?" + str(ex)
        return out

    # ------------------------------------------------------------ text facts
    def getlang(self, o):
        """language of an opaque part on this path"""
        l = self.lang.get(o.key)
        if l is not None:
            return l
        if o.lang is not None:
            return o.lang
        k = o.kind
        if k == "dec":
            return dfa.full(r"0|[1-9]\d*")
        if k == "hex":
            return dfa.full(r"([0-9a-f][0-9a-f])*")
        if k == "b58":
            return dfa.full(r"[1-9A-HJ-NP-Za-km-z]*")
        if k == "field":
            return dfa.NOSPACE
        return dfa.SIGMA

    def seqlang(self, s):
        """language of a byte string (over-approximation)"""
        s = self.norm(s)
        o = s.single
        if o is not None:
            return self.getlang(o)
        c = s.concrete
        if c is not None and len(c) < 64:
            return dfa.lit(c)
        return None

    def in_lang(self, s, L, name=None):
        """decide s in L, forking when both are possible"""
        s = self.norm(s)
        c = s.concrete
        if c is not None:
            return L.matches(c)
        o = s.single
        if o is None:
            # composite: decide only when each part is over a known alphabet
            key = ("inlang", s.key, L.key)
            b = z3.Bool("inlang!%x" % (hash(key) & 0xffffffffffff))
            return self.branch(b)
        cur = self.getlang(o)
        a = cur.inter(L)
        b = cur.diff(L)
        if b.empty():
            return True
        if a.empty():
            return False
        p = self.lang_pred(o, L)
        k = ("soft|", "tested", o.key)
        for M in self.hw.get(k, ()):
            # what an earlier test of the same text says about this one
            if M.key == L.key:
                continue
            q = self.lang_pred(o, M)
            if a.diff(M).empty():
                self.assume(z3.Implies(p, q))
            elif a.inter(M).empty():
                self.assume(z3.Implies(p, z3.Not(q)))
            if b.inter(M).empty():
                self.assume(z3.Implies(q, p))
            elif b.diff(M).empty():
                self.assume(z3.Implies(z3.Not(p), q))
        if all(M.key != L.key for M in self.hw.get(k, ())):
            self.hw[k] = self.hw.get(k, ()) + (L,)
        r = self.branch(p)
        self.lang[o.key] = a if r else b
        return r

    @staticmethod
    def lang_pred(o, L):
        return uf("inlang_%x" % (hash(L.key) & 0xffffffffff), BS, z3.BoolSort())(o.bs())

    def norm(self, s):
        """replace parts whose bytes have been made explicit on this path"""
        if not self.subst:
            return s
        if not any(isinstance(p, Op) and p.key in self.subst for p in s.parts):
            return s
        return BSeq([self.subst[p.key] if isinstance(p, Op) and p.key in self.subst else p for p in s.parts])

    def cells_of(self, s, limit=300):
        """explicit bytes of a string (its length is made concrete)"""
        s = self.norm(s)
        c = s.cells
        if c is not None:
            return c
        out = ()
        for p in s.parts:
            if isinstance(p, tuple):
                out += p
                continue
            n = self.concretize(p.length, limit)
            out += self.op_cells(p, n)
        return out

    def first_cells(self, s, n):
        """the first n bytes of a string known to have as many; its length stays as it is"""
        s = self.norm(s)
        out = ()
        for p in s.parts:
            if len(out) >= n:
                break
            if isinstance(p, tuple):
                out += p
                continue
            if p.kind in ("be", "hex", "iteb") or p.key in self.subst:
                return None
            rest = n - len(out)
            if not isz(p.length) or not self.entails(simp(z3.UGE(p.length, rest))):
                return None
            f = uf("byte_of", BS, z3.BitVecSort(32), z3.BitVecSort(8))
            out += tuple(f(p.bs(), z3.BitVecVal(i, 32)) for i in range(rest))
        return out[:n] if len(out) >= n else None

    def op_cells(self, p, n):
        if p.kind == "be":
            r = split(p.args[0].tobv(), n)
            if n and isz(r[-1]):
                BEREG.setdefault(zkey(r[-1]), {})[p.key] = p
            return r
        if p.kind == "hex":
            inner = self.cells_of(p.args[0])
            r = []
            for b in inner:
                for sh in (4, 0):
                    if isz(b):
                        nib = z3.ZeroExt(4, z3.Extract(sh + 3, sh, b))
                        r.append(simp(z3.If(z3.ULT(nib, 10), nib + 48, nib + 87)))
                    else:
                        r.append(b"0123456789abcdef"[(b >> sh) & 15])
            return tuple(r)
        if p.key in self.subst:
            return self.subst[p.key]
        f = uf("byte_of", BS, z3.BitVecSort(32), z3.BitVecSort(8))
        cells = tuple(f(p.bs(), z3.BitVecVal(i, 32)) for i in range(n))
        if p.kind == "iteb":
            c, a, b = p.args
            ca = self.op_cells_seq(a, n)
            cb = self.op_cells_seq(b, n)
            if ca is not None and cb is not None:
                return tuple(ite(c, x, y, 8) for x, y in zip(ca, cb))
        self.subst[p.key] = cells
        return cells

    def op_cells_seq(self, s, n):
        c = s.cells
        if c is None:
            return None
        return tuple((list(c) + [0] * n)[:n])

    # equality of byte strings -------------------------------------------------
    def seq_eq(self, a, b, exact=True):
        """condition for a == b.  exact: equivalent (may introduce an
        uninterpreted proposition); otherwise a sufficient condition."""
        a, b = self.norm(a), self.norm(b)
        if a.key == b.key:
            return True
        ca, cb = a.cells, b.cells
        if ca is not None and cb is not None:
            if len(ca) != len(cb):
                return False
            return self.cells_eq(ca, cb)
        for x, y in ((a, b), (b, a)):
            if y.cells == ():
                n = x.length
                return n == 0 if not isz(n) else simp(n == 0)
        # strip common concrete prefix / suffix
        pa, pb = list(a.parts), list(b.parts)
        conds = []
        while pa and pb:
            x, y = pa[0], pb[0]
            if isinstance(x, tuple) and isinstance(y, tuple):
                n = min(len(x), len(y))
                conds.append(self.cells_eq(x[:n], y[:n]))
                if conds[-1] is False:
                    return False
                pa[0:1] = [x[n:]] if len(x) > n else []
                pb[0:1] = [y[n:]] if len(y) > n else []
                continue
            if isinstance(x, Op) and isinstance(y, Op):
                if x.key == y.key:
                    pa.pop(0)
                    pb.pop(0)
                    continue
            break
        while pa and pb:
            x, y = pa[-1], pb[-1]
            if isinstance(x, tuple) and isinstance(y, tuple):
                n = min(len(x), len(y))
                conds.append(self.cells_eq(x[-n:], y[-n:]))
                if conds[-1] is False:
                    return False
                pa[-1:] = [x[:-n]] if len(x) > n else []
                pb[-1:] = [y[:-n]] if len(y) > n else []
                continue
            if isinstance(x, Op) and isinstance(y, Op) and x.key == y.key:
                pa.pop()
                pb.pop()
                continue
            break
        a, b = BSeq(pa), BSeq(pb)
        pre = band(*conds)
        if not pa and not pb:
            return pre
        if not pa or not pb:
            n = (a if pa else b).length
            return band(pre, (n == 0) if not isz(n) else simp(n == 0))
        # injective constructors
        oa, ob = a.single, b.single
        if oa is not None and ob is not None and oa.kind == ob.kind:
            r = self.op_eq(oa, ob)
            if r is not None:
                return band(pre, r)
        for x, y in ((oa, b), (ob, a)):
            if x is not None and x.kind == "hex" and y.concrete is not None:
                t = y.concrete
                if len(t) % 2 or any(c not in b"0123456789abcdef" for c in t):
                    return False
                return band(pre, self.seq_eq(x.args[0], lit(bytes.fromhex(t.decode())), exact))
            if x is not None and x.kind == "dec" and y.concrete is not None:
                t = y.concrete
                if not t.isdigit() or (len(t) > 1 and t[:1] == b"0") or int(t) >= 1 << 64:
                    return False
                return band(pre, simp(bv(x.args[0], 64) == int(t)))
            if x is not None and y.concrete is not None:
                if not self.getlang(x).matches(y.concrete):
                    return False
        if len(pa) == len(pb) and not exact:
            r = True
            ok = True
            for x, y in zip(pa, pb):
                if isinstance(x, Op) and isinstance(y, Op):
                    q = self.op_eq(x, y) if x.kind == y.kind else None
                    r = band(r, q if q is not None else simp(x.bs() == y.bs()))
                elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                    r = band(r, self.cells_eq(x, y))
                else:
                    ok = False
            if ok:
                return band(pre, r)
        la, lb = a.length, b.length
        ne = (la != lb) if not (isz(la) or isz(lb)) else False
        if ne is True:
            return False
        eq = simp(a.bs() == b.bs())
        if not exact:
            return band(pre, eq)
        return band(pre, eq)

    def op_eq(self, x, y):
        k = x.kind
        if k == "hex" or k == "b58":
            return self.seq_eq(x.args[0], y.args[0])
        if k == "dec":
            return simp(bv(x.args[0], 64) == bv(y.args[0], 64))
        if k == "be":
            w = max(x.args[0].width, y.args[0].width)
            return simp(x.args[0].tobv(w) == y.args[0].tobv(w))
        if k == "W" and zkey(x.args[:-1]) == zkey(y.args[:-1]):
            return simp(bv(x.args[-1], 11) == bv(y.args[-1], 11))
        if k == "join" and len(x.args) == len(y.args) and zkey(x.args[0]) == zkey(y.args[0]):
            # sufficient; also necessary for whitespace-free non-empty words
            r = True
            if len(x.args[1]) != len(y.args[1]):
                return None
            for p, q in zip(x.args[1], y.args[1]):
                r = band(r, self.seq_eq(p, q))
            return r
        return None

    def cells_eq(self, a, b):
        r = []
        for x, y in zip(a, b):
            if not isz(x) and not isz(y):
                if x != y:
                    return False
                continue
            if isz(x) and isz(y) and x.eq(y):
                continue
            r.append(bv(x, 8) == bv(y, 8))
        if not r:
            return True
        if len(r) > 1:
            # compare as one word: simplifies concatenations
            e = simp(bv(cat(a), 8 * len(a)) == bv(cat(b), 8 * len(b)))
            return e
        return simp(r[0])

    # ------------------------------------------------------------ types / zero
    def zero(self, tid):
        t = self.prog.types[tid]
        k = t["kind"]
        if k == "basic":
            if t["basic"] in INTS:
                return 0
            if t["basic"] in ("bool", "untyped bool"):
                return False
            if t["basic"] in ("string", "untyped string"):
                return EMPTYB
            if t["basic"] in ("untyped nil", "unsafe.Pointer"):
                return None
            return Opaque("float")
        if k == "array":
            if t["len"] > 100000:
                raise Unsupported("huge array")
            return (self.zero(t["elem"]),) * t["len"]
        if k == "struct":
            n = t.get("named")
            if n in ("math/big.Int", "github.com/decred/dcrd/dcrec/secp256k1/v4.ModNScalar"):
                return BigVal(0)
            if n in ("bytes.Buffer", "strings.Builder"):
                return Buf()
            return tuple(self.zero(f["type"]) for f in (t["fields"] or []))
        if k == "slice":
            return NILS
        if k == "tuple":
            return Tup(self.zero(e) for e in (t["elems"] or []))
        return None

    # ------------------------------------------------------------ memory
    def load(self, p):
        if p is None:
            raise Panic("nil pointer dereference")
        v = self.heap[p.oid]
        return self.walk(v, p.path, p.oid)

    def walk(self, v, path, oid=None):
        for i, k in enumerate(path):
            if isinstance(v, tuple):
                if isz(k):
                    k = self.concretize(k, 4096, "index")
                if k >= len(v):
                    raise Unsupported("index beyond known cells")
                v = v[k]
            elif isinstance(v, SymSeq):
                v = self.seq_at(v, k)
            elif isinstance(v, ABytes):
                if not isz(k) and k < 300:
                    c = self.first_cells(v.seq, k + 1)
                    if c is not None:
                        v = c[k]
                        continue
                cells = self.cells_of(v.seq)
                k = self.concretize(k, 4096, "index")
                if k >= len(cells):
                    # the index was required to be in range: no such path
                    if self.sat() == "unsat":
                        raise PathEnd()
                    raise Unsupported("index beyond known bytes")
                v = cells[k]
            elif isinstance(v, MergedSeq):
                v = self.merged_at(v, k)
            elif isinstance(v, PermSeq):
                v = self.perm_at(v, k)
            elif isinstance(v, Unknown):
                raise UnknownUse(v.why)
            else:
                raise Unsupported("walk into %r" % (type(v),))
        return v

    def seq_at(self, s, k):
        m = s.m
        for b, x in reversed(s.over):
            c = simp(bv(b, 64) == bv(k, 64)) if isz(b) or isz(k) else b == k
            if self.branch(c) if isz(c) else c:
                return x
        inm = simp(z3.ULT(bv(k, 64), bv(m, 64))) if (isz(k) or isz(m)) else k < m
        if self.branch(inm):
            return s.spec.at(self, k)
        d = simp(bv(k, 64) - bv(m, 64)) if (isz(k) or isz(m)) else k - m
        if isz(d):
            if s.zero is not None:
                if self.branch(simp(z3.UGE(d, len(s.ext)))):
                    return s.zero
            d = self.concretize(d, 64, "index")
        if d < len(s.ext):
            return s.ext[d]
        if s.zero is not None:
            return s.zero
        raise Unsupported("read beyond sequence")

    def merged_at(self, s, k):
        k = self.concretize(k, 64, "index")
        r = None
        for c, sl in s.cases:
            if not isz(sl.len) and sl.len <= k:
                continue
            e = self.walk(self.heap[sl.oid], sl.path + (self.addk(sl.off, k),))
            r = e if r is None else self.merge(c, e, r, s.tid, True)
        if r is None:
            raise PathEnd()
        return r

    def perm_at(self, s, k):
        k = self.concretize(k, 4096, "index")
        n = len(s.elems)
        if n == 1:
            return s.elems[0][0]
        # an arbitrary element: position k of an unknown permutation
        r = s.elems[0][0]
        tid = s.elems[0][1]
        w = max(1, (n - 1).bit_length())
        sel = z3.BitVec("perm!%x!%d" % (id(s) & 0xffffffff, k), w)
        for i in range(1, n):
            r = self.merge(sel == i, s.elems[i][0], r, tid, True)
        return r

    @staticmethod
    def addk(a, b):
        if isz(a) or isz(b):
            return simp(bv(a, 64) + bv(b, 64))
        return a + b

    def update(self, v, path, x):
        if not path:
            return x
        k = path[0]
        if isinstance(v, tuple):
            if isz(k):
                k = self.concretize(k, 4096, "index")
            return v[:k] + (self.update(v[k], path[1:], x),) + v[k + 1:]
        if isinstance(v, ABytes):
            cells = self.cells_of(v.seq)
            k = self.concretize(k, 4096, "index")
            return cells[:k] + (x,) + cells[k + 1:]
        if isinstance(v, SymSeq):
            return self.seq_store(v, k, path[1:], x)
        raise Unsupported("store into %r" % (type(v),))

    def seq_store(self, s, k, rest, x):
        if rest:
            x = self.update(self.seq_at(s, k), rest, x)
        used = s.used()
        if s.zero is not None and self.entails(simp(bv(k, 64) == bv(used, 64))):
            return SymSeq(s.spec, s.m, s.ext + (x,), s.total, s.zero, s.over)
        if s.ext:
            d = simp(bv(k, 64) - bv(s.m, 64))
            if not isz(d) and d < len(s.ext):
                return SymSeq(s.spec, s.m, s.ext[:d] + (x,) + s.ext[d + 1:], s.total, s.zero, s.over)
        if s.zero is None and not s.ext:
            return SymSeq(s.spec, s.m, s.ext, s.total, s.zero, s.over + ((k, x),))
        raise Unsupported("store into symbolic sequence")

    def check_write(self, oid, path):
        if self.writelog is not None:
            self.writelog.add(oid)
        if oid < self.protected and not self.init_mode:
            if self.may_write is not None and self.may_write(self, oid, path):
                return
            if not self.silent and not self.replaying():
                self.record("frame: writes to memory that existed before the call (%s)" % self.describe(oid),
                            ("frame",), False, "write outside the frame", self.curpos(), self.any_model(), False)

    def any_model(self):
        try:
            if self.sat() == "sat":
                return self.model
        except Exception:
            pass
        return None

    def describe(self, oid):
        for n, o in self.globals.items():
            if o == oid:
                return "package variable " + n
        for n, o in getattr(self, "param_oids", {}).items():
            if o == oid:
                return "argument " + n
        t = self.otype.get(oid)
        return "object of type " + self.prog.types[t]["str"] if isinstance(t, int) else "array" if isinstance(t, tuple) else "object"

    def curpos(self):
        return self.fnstack[-1][1] if self.fnstack else ""

    def store(self, p, x):
        if p is None:
            raise Panic("nil pointer dereference")
        self.check_write(p.oid, p.path)
        self.heap[p.oid] = self.update(self.heap[p.oid], p.path, x)

    # slices -----------------------------------------------------------------
    def arr(self, sl):
        return self.walk(self.heap[sl.oid], sl.path)

    def slice_len(self, sl):
        return sl.len

    def slice_seq(self, sl):
        """contents of a byte slice as a byte string"""
        if sl.oid is None:
            return EMPTYB
        c = self.arr(sl)
        if isinstance(c, ABytes):
            q = self.norm(c.seq)
            ql = q.length
            if not isz(sl.off) and sl.off == 0 and self.same(sl.len, ql):
                return q
            if isz(ql) and not isz(sl.off) and not isz(sl.len) and sl.off + sl.len <= 300:
                c = self.first_cells(q, sl.off + sl.len)
                if c is not None:
                    return BSeq((c[sl.off:],))
            full = self.cells_of(q)
            return BSeq((self.cut(full, sl),))
        if isinstance(c, tuple):
            return BSeq((self.cut(c, sl),))
        raise Unsupported("bytes of %r" % (type(c),))

    def same(self, a, b):
        if isz(a) and isz(b):
            return a.eq(b) or self.entails(a == b)
        if not isz(a) and not isz(b):
            return a == b
        return self.entails(bv(a, 64) == bv(b, 64))

    def cut(self, cells, sl):
        off = self.concretize(sl.off)
        n = self.concretize(sl.len)
        return tuple(cells[off:off + n])

    def slice_vals(self, sl):
        """element values of a slice of concrete length"""
        if sl.oid is None:
            return ()
        n = self.concretize(sl.len, 3000)
        c = self.arr(sl)
        if isinstance(c, tuple) and not isz(sl.off):
            return tuple(c[sl.off:sl.off + n])
        return tuple(self.walk(c, (self.addk(sl.off, i),)) for i in range(n))

    def new_slice(self, cells, elemtid, cap=None):
        o = self.alloc(tuple(cells), ("arr", elemtid))
        return SliceV(o, (), 0, len(cells), cap if cap is not None else len(cells))

    def bytes_slice(self, seq, cap=None):
        """fresh []byte holding a byte string"""
        seq = self.norm(seq)
        c = seq.cells
        if c is not None:
            o = self.alloc(tuple(c), ("arr", self.prog.bystr.get("uint8", self.prog.bystr.get("byte"))))
            return SliceV(o, (), 0, len(c), cap)
        o = self.alloc(ABytes(seq), ("arr", self.prog.bystr.get("uint8", self.prog.bystr.get("byte"))))
        return SliceV(o, (), 0, seq.length, cap)

    # ------------------------------------------------------------ merging
    def merge(self, c, a, b, tid, strings=False, heaps=None):
        """value equal to a when c else b"""
        if a is b:
            return a
        if isinstance(a, Opaque) and a.what == "order-dependent":
            return a
        if isinstance(b, Opaque) and b.what == "order-dependent":
            return b
        if isinstance(tid, tuple) and tid and tid[0] == "arr":
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                return tuple(self.merge(c, x, y, tid[1], strings) for x, y in zip(a, b))
            if isinstance(a, ABytes) and isinstance(b, ABytes) and a.seq == b.seq:
                return a
            raise NoMerge("array")
        if isinstance(a, BigVal) or isinstance(b, BigVal):
            if a.key == b.key:
                return a
            w = max(a.width, b.width)
            return BigVal(ite(c, a.tobv(w), b.tobv(w), w))
        if isinstance(a, Buf) and isinstance(b, Buf):
            if a.seq == b.seq:
                return a
            raise NoMerge("buffer")
        if tid is None:
            raise NoMerge("untyped")
        t = self.prog.types[tid]
        k = t["kind"]
        if k == "basic":
            if t["basic"] in INTS:
                return ite(c, a, b, INTS[t["basic"]][0])
            if isinstance(a, BSeq):
                if a == b:
                    return a
                ca, cb = a.cells, b.cells
                if ca is not None and cb is not None and len(ca) == len(cb):
                    return BSeq((tuple(ite(c, x, y, 8) for x, y in zip(ca, cb)),))
                if strings:
                    return op("iteb", c if isz(c) else z3.BoolVal(c), a, b)
                raise NoMerge("string")
            if isinstance(a, bool) or isz(a) or isz(b):
                if a is b or (not isz(a) and not isz(b) and a == b):
                    return a
                return simp(z3.If(zb(c), zb(a), zb(b)))
            raise NoMerge("basic")
        if k == "array":
            return tuple(self.merge(c, x, y, t["elem"], strings) for x, y in zip(a, b))
        if k == "struct":
            return tuple(self.merge(c, x, y, f["type"], strings) for x, y, f in zip(a, b, t["fields"]))
        if k == "pointer":
            if a == b:
                return a
            raise NoMerge("pointer")
        if k == "interface":
            if a is None and b is None:
                return None
            if self.same_iface(a, b) is True:
                return a
            return IteV(zb(c), a, b)
        if k == "slice":
            if a.oid == b.oid and zkey((a.path, a.off, a.len)) == zkey((b.path, b.off, b.len)):
                return a
            if strings and a.oid is not None and b.oid is not None:
                cond = c
                return self.merged_slice([(cond, a), (True, b)], t["elem"])
            raise NoMerge("slice")
        if k == "map":
            if isinstance(a, MapRef) and isinstance(b, MapRef) and a.oid == b.oid:
                return a
            raise NoMerge("map")
        if k == "func":
            if isinstance(a, FuncV) and isinstance(b, FuncV) and a.name == b.name and not a.free:
                return a
        raise NoMerge(k)

    def merged_slice(self, cases, elem):
        ln = 0
        for c, s in reversed(cases):
            ln = ite(c, s.len, ln, 64)
        o = self.alloc(MergedSeq(cases, elem), ("arr", elem))
        return SliceV(o, (), 0, ln, None)

    def same_iface(self, a, b):
        """condition for interface equality"""
        if isinstance(a, IteV):
            return bor(band(a.c, self.same_iface(a.a, b)), band(bnot(a.c), self.same_iface(a.b, b)))
        if isinstance(b, IteV):
            return self.same_iface(b, a)
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, IfaceV) and isinstance(b, IfaceV) and "anyerr" in (a.tid, b.tid) and not (a.tid == b.tid and a.val == b.val):
            return self.unknown_id(a, b, "is")
        if a.tid != b.tid:
            return False
        return self.val_eq(a.val, b.val, a.tid if isinstance(a.tid, int) else None)

    def unknown_id(self, a, b, what):
        """a condition of its own for each pair: nothing is known of the identity of an assumed error"""
        if a.tid != "anyerr":
            a, b = b, a
        k = "%s!%s!%s!%s" % (what, a.val, b.tid, b.val)
        return z3.Bool(k)

    def isnil(self, v):
        """condition for an interface/pointer/... being nil"""
        if v is None:
            return True
        if isinstance(v, IteV):
            return bor(band(v.c, self.isnil(v.a)), band(bnot(v.c), self.isnil(v.b)))
        if isinstance(v, SliceOrNil):
            return v.nilcond
        if isinstance(v, SliceV):
            return v.oid is None
        return False

    def val_eq(self, a, b, tid=None):
        if a is b:
            return True
        if isinstance(a, IteV) or isinstance(b, IteV) or isinstance(a, IfaceV) or isinstance(b, IfaceV):
            return self.same_iface(a, b)
        if isinstance(a, SliceV) or isinstance(b, SliceV):
            if a is None or (isinstance(a, SliceV) and a.nil):
                return self.isnil(b)
            if b is None or (isinstance(b, SliceV) and b.nil):
                return self.isnil(a)
            raise Unsupported("slice comparison")
        if a is None or b is None:
            return self.isnil(a) if b is None else self.isnil(b)
        if isinstance(a, BSeq):
            return self.seq_eq(a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return a == b
        if isinstance(a, tuple):
            t = self.prog.types[tid] if tid is not None else None
            if t is not None and t["kind"] == "array" and self.prog.int_info(t["elem"]) == (8, False):
                return self.cells_eq(a, b)
            r = True
            for i, (x, y) in enumerate(zip(a, b)):
                et = None
                if t is not None:
                    et = t["elem"] if t["kind"] == "array" else t["fields"][i]["type"]
                r = band(r, self.val_eq(x, y, et))
            return r
        if isz(a) or isz(b):
            if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
                return simp(zb(a) == zb(b))
            w = a.size() if isz(a) else b.size()
            return simp(bv(a, w) == bv(b, w))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return a is b
        return a == b

    # sufficient equality of values living in the current heap (specs, invariants)
    def deep_eq(self, a, b, tid):
        t = self.prog.types[tid]
        k = t["kind"]
        if k == "basic" and isinstance(a, BSeq):
            return self.seq_eq(a, b, exact=False)
        if k == "struct" and isinstance(a, tuple):
            r = True
            for x, y, f in zip(a, b, t["fields"]):
                r = band(r, self.deep_eq(x, y, f["type"]))
                if r is False:
                    return False
            return r
        if k == "array":
            if self.prog.int_info(t["elem"]) == (8, False):
                return self.cells_eq(a, b)
            r = True
            for x, y in zip(a, b):
                r = band(r, self.deep_eq(x, y, t["elem"]))
            return r
        return self.val_eq(a, b, tid)

    def slice_is(self, sl, spec, m, elem):
        """sufficient condition: slice has length m and elements spec[0..m)"""
        le = self.len_eq(sl.len, m)
        if le is False:
            return False
        if sl.oid is None:
            return le
        c = self.arr(sl)
        if isinstance(c, tuple) and not isz(sl.off) and not isz(sl.len):
            r = le
            for i in range(sl.len):
                r = band(r, self.deep_eq(c[sl.off + i], spec.at(self, i), elem))
                if r is False:
                    return False
            return r
        if isinstance(c, SymSeq) and not isz(sl.off) and sl.off == 0 and not c.over:
            if c.spec is not None and c.spec.name != spec.name:
                return False
            r = le
            for i, x in enumerate(c.ext):
                j = simp(bv(c.m, 64) + i) if isz(c.m) else c.m + i
                r = band(r, self.deep_eq(x, spec.at(self, j), elem))
                if r is False:
                    return False
            if c.zero is not None:
                r = band(r, self.len_eq(c.used(), m))
            return r
        return False

    def len_eq(self, a, b):
        if not isz(a) and not isz(b):
            return a == b
        return simp(bv(a, 64) == bv(b, 64))
