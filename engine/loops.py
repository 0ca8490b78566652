"""Loop invariants: every loop whose trip count is not statically bounded is cut.
The state after n iterations is described per variable by a closed form in n
(unchanged, entry + n*step, or a prefix of a sequence named by the contract);
the forms are guessed, then established at entry and shown to be preserved by
one arbitrary iteration.  A bound on n found from the loop guards is proved
inductively too (termination)."""
import z3
from .terms import *
from .execu import *


class Cand:
    """fresh: a slice variable is represented by an array of its own; the array it
    had before the loop must not be read after that"""

    def __init__(self, name, value, check, fresh=False):
        self.name, self.value, self.check, self.fresh = name, value, check, fresh


def lost_cand():
    return Cand("not read again", lambda c, n: Opaque("lost in a loop"), lambda c, a, n: True)


def same_content(a, b):
    """the two heap values are the same (replayed prefixes rebuild equal objects)"""
    if a is b:
        return True
    if isz(a) or isz(b):
        return isz(a) and isz(b) and a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (int, str, bytes, bool, type(None), float)):
        return a == b
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same_content(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_content(x, b[k]) for k, x in a.items())
    if isinstance(a, SpecSeq):
        return a.name == b.name
    if isinstance(a, BSeq):
        return a.key == b.key
    names = [n for k in type(a).__mro__ for n in getattr(k, "__slots__", ())]
    if names:
        return all(same_content(getattr(a, n, None), getattr(b, n, None)) for n in names)
    return False


class LoopPlanner:
    def __init__(self, ctx, fr, blk):
        self.ctx, self.fr, self.blk = ctx, fr, blk
        self.f = fr.fn
        self.loop = self.f.heads[blk]
        self.phis = ctx.phis_of(self.f, blk)
        self.st0 = ctx.snap()

    # one run of the body from a prepared state
    def body(self, install):
        ctx, fr, blk = self.ctx, self.fr, self.blk
        outs = []

        class Probe:
            def check_back(s, c, f2, n, st):
                outs.append((c.snap(), {r: f2.regs[r] for r, _ in self.phis}, f2.copy()))
        ctx.silent += 1

        def thunk():
            fr2 = fr.copy()
            fr2.only = self.loop
            install(fr2)
            fr2.cuts[blk] = (Probe(), None, None)
            ctx.blocks(fr2, blk, None, None, True)
            raise PathEnd()
        ctx.restore(self.st0)
        try:
            key = ctx.keyids.setdefault(("probe", len(ctx.keyids)), len(ctx.keyids) + 1)
            ctx.sub(thunk, key)
        finally:
            ctx.silent -= 1
            ctx.restore(self.st0)
        return outs

    def at(self, st, thunk):
        """evaluate a condition in a saved state"""
        ctx = self.ctx
        ctx.restore(st)
        ctx.silent += 1
        key = ctx.keyids.setdefault(("eval", len(ctx.keyids)), len(ctx.keyids) + 1)
        ok = True
        try:
            outs, _ = ctx.sub(lambda: ctx.entails(thunk()), key)
            ok = all(r for _, r in outs)
        except (NoMerge, Unsupported):
            ok = False
        finally:
            ctx.silent -= 1
            ctx.restore(self.st0)
        return ok

    def cands(self, kind, name, tid, entry, after):
        """candidate closed forms"""
        ctx = self.ctx
        r = []

        def unchanged_val(c, n):
            return entry

        def unchanged_chk(c, a, n):
            if isinstance(entry, SliceV):
                return isinstance(a, SliceV) and a.oid == entry.oid and zkey((a.path, a.off, a.len)) == zkey((entry.path, entry.off, entry.len))
            if a is entry:
                return True
            if isinstance(tid, int):
                return c.deep_eq(a, entry, tid)
            return False
        r.append(Cand("unchanged", unchanged_val, unchanged_chk))
        ii = ctx.prog.int_info(tid) if isinstance(tid, int) else None
        if ii:
            steps = [1, (1 << ii[0]) - 1]
            if after is not None:
                d = simp(bv(after, ii[0]) - bv(entry, ii[0])) if isz(after) or isz(entry) else (after - entry) % (1 << ii[0])
                if not isz(d) and d not in steps and d != 0:
                    steps.insert(0, d)
            for s in steps:
                def val(c, n, s=s, w=ii[0]):
                    if not isz(n):
                        return (entry + n * s) % (1 << w) if not isz(entry) else simp(bv(entry, w) + (n * s) % (1 << w))
                    return simp(bv(entry, w) + bv(n, w) * z3.BitVecVal(s, w))

                def chk(c, a, n, val=val, w=ii[0]):
                    return simp(bv(a, w) == bv(val(c, n), w))
                r.append(Cand("entry%+d*n" % (s if s < 1 << (ii[0] - 1) else s - (1 << ii[0])), val, chk))
        if isinstance(entry, SliceV) and entry.oid is not None:
            def gval(c, n):
                return SliceV(entry.oid, entry.path, entry.off, c.addk(entry.len, n), entry.cap)

            def gchk(c, a, n):
                if not (isinstance(a, SliceV) and a.oid == entry.oid and zkey((a.path, a.off)) == zkey((entry.path, entry.off))):
                    return False
                return c.len_eq(a.len, c.addk(entry.len, n))
            if entry.cap is not None:
                r.append(Cand("grows in place", gval, gchk))
        if ctx.loop_hints is not None:
            r.extend(ctx.loop_hints(ctx, kind, name, tid, entry) or [])
        if ii:
            r.append(Cand("any", lambda c, n: c.fresh("any", ii[0]), lambda c, a, n: True))
        elif isinstance(tid, int) and ctx.prog.is_bool(tid):
            r.append(Cand("any", lambda c, n: c.fresh("any", "bool"), lambda c, a, n: True))
        elif isinstance(tid, int):
            t = ctx.prog.types[tid]
            if t["kind"] == "array" and ctx.prog.int_info(t["elem"]) == (8, False) and t["len"] <= 128:
                r.append(Cand("any", lambda c, n: tuple(c.fresh("any", 8) for _ in range(t["len"])), lambda c, a, n: True))
            elif ctx.prog.is_string(tid):
                r.append(Cand("any", lambda c, n: op("atom", c.fresh("anytext", "bool").decl().name()), lambda c, a, n: True))
            elif t["kind"] == "interface":
                r.append(Cand("nil", lambda c, n: None, lambda c, a, n: c.isnil(a)))
        if kind == "obj" and name >= (ctx.protected or 0):
            # nothing is known any more of a local array; reading it later is refused
            r.append(lost_cand())
        return r

    def find(self):
        ctx, fr = self.ctx, self.fr
        sv = (list(ctx.fnstack), ctx.depth)
        try:
            return self._find()
        finally:
            ctx.fnstack, ctx.depth = sv
            ctx.restore(self.st0)

    def _find(self):
        ctx, fr = self.ctx, self.fr
        entry = {r: fr.regs[r] for r, _ in self.phis}
        log = []
        old = ctx.cmplog
        ctx.cmplog = log
        try:
            outs1 = self.body(lambda f: None)
        finally:
            ctx.cmplog = old
        log1 = [x for x in log if x[0] == self.f.name]
        objs = {}

        def changed(st):
            return [o for o in st[0] if o < self.st0[1] and not same_content(st[0][o], self.st0[0].get(o))]
        for st, _, _ in outs1:
            for o in changed(st):
                objs[o] = 1
        bounds = self.bounds(log1)
        preds = list(ctx.loop_preds(ctx)) if ctx.loop_preds else []
        for attempt in range(8):
            cur = {}
            for r, t in self.phis:
                after = outs1[0][1][r] if outs1 else None
                cur[("phi", r)] = self.cands("phi", r, t, entry[r], after)
            for o in objs:
                cur[("obj", o)] = self.cands("obj", o, ctx.otype.get(o) if self.st0[7].get(o) is None else self.st0[7].get(o), self.st0[0][o], outs1[0][0][0].get(o) if outs1 else None)
            # entry and first iteration
            for v, cs in cur.items():
                ev = entry[v[1]] if v[0] == "phi" else self.st0[0][v[1]]
                keep = []
                for c in cs:
                    if not self.at(self.st0, lambda c=c: self.safe(c, ev, 0)):
                        continue
                    ok = True
                    for st, ph, _ in outs1:
                        av = ph[v[1]] if v[0] == "phi" else st[0].get(v[1])
                        def ev1(c=c, av=av):
                            for p in preds:
                                p.close(ctx, 0)
                            return self.safe(c, av, 1)
                        if not self.at(st, ev1):
                            ok = False
                            break
                    if ok:
                        keep.append(c)
                if not keep:
                    raise Unsupported("no invariant form for %s in %s" % (v, self.f.name))
                cur[v] = keep
            P = [p for p in preds if self.at(self.st0, lambda p=p: p.at(ctx, 0))]
            B = list(bounds)
            again = False
            for rnd in range(40):
                for v in list(cur):
                    if v[0] == "phi" and cur[v][0].fresh and isinstance(entry[v[1]], SliceV) and entry[v[1]].oid is not None:
                        x = entry[v[1]].oid
                        if x < (ctx.protected or 0):
                            raise Unsupported("a loop variable starts as a slice of memory that is not the function's own")
                        if ("obj", x) not in cur or cur[("obj", x)][0].name != "not read again":
                            cur[("obj", x)] = [lost_cand()]
                n = z3.BitVec("n!loop", 64)

                def install(f2):
                    self.install(f2, {v: cs[0] for v, cs in cur.items()}, B, P, n)
                new = False
                drop = set()
                try:
                    outs = self.body(install)
                except Unsupported:
                    # a slice of an array nothing is known of: look for another form
                    lost = {v[1] for v, cs in cur.items() if v[0] == "obj" and cs[0].name == "not read again"}
                    drop = {v for v, cs in cur.items() if v[0] == "phi" and len(cs) > 1 and cs[0].name in ("unchanged", "grows in place") and
                            isinstance(entry[v[1]], SliceV) and entry[v[1]].oid in lost}
                    if not drop:
                        raise
                    for v in drop:
                        cur[v] = cur[v][1:]
                    continue
                for st, ph, f2 in outs:
                    base = st
                    for o in st[0]:
                        if o < self.st0[1] and ("obj", o) not in cur and not same_content(st[0][o], self.st0[0].get(o)):
                            objs[o] = 1
                            again = True
                    if again:
                        break
                    n1 = simp(n + 1)
                    for v, cs in cur.items():
                        av = ph[v[1]] if v[0] == "phi" else st[0].get(v[1])
                        def evn():
                            for p in P:
                                p.close(ctx, n)
                            return self.safe(cs[0], av, n1)
                        if v not in drop and not self.at(st, evn):
                            drop.add(v)
                    for b in list(B):
                        if not self.at(st, lambda: simp(z3.ULE(n1, b))):
                            B.remove(b)
                            new = True
                    for p in list(P):
                        def ev(p=p):
                            p.close(ctx, n)
                            return p.at(ctx, n1)
                        if not self.at(st, ev):
                            P.remove(p)
                            new = True
                if again:
                    break
                if not drop and not new:
                    plan = Plan(self, {v: cs[0] for v, cs in cur.items()}, B, P, entry)
                    return plan
                # dropping a bound or predicate may explain the other failures: retry those first
                if not new:
                    for v in drop:
                        cur[v] = cur[v][1:]
                        if not cur[v]:
                            raise Unsupported("no inductive invariant form for %s in %s" % (v[1] if v[0] == "phi" else ctx.describe(v[1]), self.f.name))
            if not again:
                break
        raise Unsupported("no loop invariant found in " + self.f.name)

    def safe(self, c, a, n):
        try:
            return c.check(self.ctx, a, n)
        except (NoMerge, Unsupported, AttributeError, TypeError):
            return False

    def bounds(self, log):
        r = []
        seen = set()
        for _, tok, x, y, (w, signed) in log:
            X, Y = bv(x, w), bv(y, w)
            z = z3.BitVecVal(0, w)
            if tok in (">", ">="):
                X, Y = Y, X
                tok = {">": "<", ">=": "<="}[tok]
            if tok == "<":
                cs = [z3.If(X < Y if signed else z3.ULT(X, Y), Y - X, z)]
            elif tok == "<=":
                cs = [z3.If(X <= Y if signed else z3.ULE(X, Y), Y - X + 1, z)]
            else:
                cs = [Y - X, X - Y]
            for c in cs:
                c = z3.simplify(bv(c, 64))
                if c.get_id() not in seen:
                    seen.add(c.get_id())
                    r.append(c)
        return r[:24]

    def install(self, f2, cur, B, P, n):
        ctx = self.ctx
        for (kind, name), c in cur.items():
            if kind == "obj":
                ctx.heap[name] = c.value(ctx, n)
        for (kind, name), c in cur.items():
            if kind == "phi":
                f2.regs[name] = c.value(ctx, n)
        for b in B:
            ctx.assume(simp(z3.ULE(n, b)) if isz(simp(z3.ULE(n, b))) else True)
        for p in P:
            p.use(ctx, n)
            a = p.at(ctx, n)
            ctx.assume(simp(a) if isz(a) else a)


class Plan:
    def __init__(self, pl, cur, B, P, entry):
        self.pl, self.cur, self.B, self.P = pl, cur, B, P
        self.f, self.blk, self.phis = pl.f, pl.blk, pl.phis
        heads = sorted(self.f.heads)
        self.loopname = "%s loop %d" % (self.f.name.replace("github.com/mearaj/bips/", ""), heads.index(self.blk) + 1)

    def describe(self):
        r = []
        for (k, v), c in self.cur.items():
            nm = v
            if k == "phi":
                for i in self.f.blocks[self.blk]["instrs"]:
                    if i.get("reg") == v:
                        nm = i.get("comment") or v
            else:
                nm = "object"
            r.append("%s: %s" % (nm, c.name))
        r += ["holds: " + p.name for p in self.P]
        r.append("%d bound(s) on the number of iterations" % len(self.B))
        return r

    def require_entry(self, ctx, fr):
        for (k, v), c in self.cur.items():
            a = fr.regs[v] if k == "phi" else ctx.heap[v]
            ctx.require(c.check(ctx, a, 0), self.loopname + ": invariant holds at entry", ("loop",))
        for p in self.P:
            ctx.require(p.at(ctx, 0), self.loopname + ": invariant '%s' holds at entry" % p.name, ("loop",))
        if not self.B:
            ctx.require(False, self.loopname + ": terminates", ("panic",), assume=False)
        else:
            ctx.require(True, self.loopname + ": terminates", ("panic",))

    def install(self, ctx, fr):
        n = ctx.fresh("iter", 64)
        self.pl.install(fr, self.cur, self.B, self.P, n)
        fr.cuts[self.blk] = (self, n, ctx.snap())

    def check_back(self, ctx, fr, n, st):
        n1 = simp(n + 1)
        for p in self.P:
            p.close(ctx, n)
        for (k, v), c in self.cur.items():
            a = fr.regs[v] if k == "phi" else ctx.heap.get(v)
            ctx.require(self.pl.safe(c, a, n1), self.loopname + ": invariant preserved", ("loop",), assume=False)
        for p in self.P:
            ctx.require(p.at(ctx, n1), self.loopname + ": invariant '%s' preserved" % p.name, ("loop",), assume=False)
        for b in self.B:
            ctx.require(simp(z3.ULE(n1, b)), self.loopname + ": iteration bound preserved", ("loop",), assume=False)
        mod = {v for (k, v) in self.cur if k == "obj"}
        for o in st[0]:
            if o not in mod and o < st[1] and not same_content(ctx.heap.get(o), st[0][o]):
                ctx.require(False, self.loopname + ": writes only what its invariant mentions", ("loop",), assume=False)
