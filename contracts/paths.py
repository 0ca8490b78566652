"""Contracts of derivation paths (bip32.Path) and of the derivation built on them."""
from engine import textmodels as tm
from engine.terms import SpecSeq, SymSeq
from engine.loops import Cand
from .lib import *

VALUES = fn(B32, "ValuesAtDepth", "Path")
VALUEAT = fn(B32, "ValueAtDepth", "Path")
REPLACE = fn(B32, "ReplaceValueAtDepth", "Path")
PVALID = fn(B32, "IsValid", "Path")
PSTRING = fn(B32, "String", "Path")
PFORMAT = fn(B32, "Formatted", "Path")
WHITE = frozenset(b"\t\n\f\r ")
GRAMMAR = dfa.full(r"[mM](/[0-9]+')*(/[0-9]+)*")
SLASH = lit(b"/")
COUNTERS = ("soft|", "path counters")
MISFIT = ("soft|", "path misfits")
MARK = dfa.contains(b"'")
H31 = 1 << 31
U32 = z3.BitVecSort(32)


class PathSpec:
    """what a path text denotes, over the text without white space"""

    def __init__(self, ctx, raw):
        self.s = s = tm.erase(ctx, raw, WHITE)
        self.sb = s.bs()
        self.name = ("path values", s.key)
        self.vals = SpecSeq(self.name, self.at)

    def in_grammar(self, ctx):
        return tm.in_lang(ctx, self.s, GRAMMAR)

    def count(self, ctx):
        """number of components, the m included"""
        return tm.ncomp(ctx, self.s, SLASH)

    def fits(self, j):
        return uf("PATHOK", BS, BV64, z3.BoolSort())(self.sb, bv(j, 64))

    def value(self, j):
        return uf("PATHVAL", BS, BV64, U32)(self.sb, bv(j, 64))

    def all(self, j):
        """components 1..j-1 denote an index"""
        return uf("PATHALL", BS, BV64, z3.BoolSort())(self.sb, bv(j, 64))

    def define(self, ctx, j):
        """definition of fits and value at j"""
        if not isz(j):
            if j == 0:
                ctx.assume(simp(z3.And(self.fits(0), self.value(0) == 0)))
                return
        else:
            if ctx.branch(simp(j == 0)):
                return self.define(ctx, 0)
        k = ("soft&", "pathdef", self.s.key, zkey(j))
        if k in ctx.hw:
            return
        ctx.hw[k] = 1
        c = ctx.norm(tm.comp(ctx, self.s, SLASH, j))
        if tm.in_lang(ctx, c, dfa.contains(b"'")):
            v = tm.parse_digits(ctx, tm.erase(ctx, c, frozenset(b"'")))
            if v is None:
                return
            v = bv(v, tm.NW)
            f, w = z3.ULT(v, H31), z3.Extract(31, 0, v) + H31
        else:
            v = tm.parse_digits(ctx, c)
            if v is None:
                return
            v = bv(v, tm.NW)
            f, w = z3.ULT(v, 1 << 32), z3.Extract(31, 0, v)
        ctx.assume(simp(z3.And(self.fits(j) == f, z3.Implies(f, self.value(j) == w))))

    def at(self, ctx, j):
        self.unfold(ctx, j)
        self.define(ctx, j)
        return 0 if not isz(j) and j == 0 else simp(self.value(j))

    def unfold(self, ctx, j):
        """all(j+1) = all(j) and fits(j); and all(N) implies fits(j) for 1 <= j < N"""
        n = self.count(ctx)
        j1 = simp(bv(j, 64) + 1)
        ctx.fact(z3.And(self.all(0), self.all(1), self.all(j1) == z3.And(self.all(j), z3.Or(bv(j, 64) == 0, self.fits(j))),
                        z3.Implies(z3.And(self.all(n), z3.ULT(bv(j, 64), bv(n, 64)), bv(j, 64) != 0), self.fits(j))))


class AllFit:
    """loop predicate: the first components all denote an index"""

    def __init__(self, p, d):
        self.p, self.d, self.name = p, d, "components below the counter%s denote indexes" % ("+%d" % d if d else "")

    def j(self, n):
        return simp(bv(n, 64) + self.d)

    def at(self, ctx, n):
        self.p.unfold(ctx, self.j(n))
        return self.p.all(self.j(n))

    def use(self, ctx, n):
        """facts at the start of iteration n"""
        self.p.unfold(ctx, self.j(n))
        ctx.hw[COUNTERS] = ctx.hw.get(COUNTERS, ()) + ((self.p, self.j(n)),)

    def close(self, ctx, n):
        """facts at its end"""
        self.p.unfold(ctx, self.j(n))
        self.p.define(ctx, self.j(n))


def prefix_cands(name, spec, elem, ds=(1, 0, 2)):
    """a slice variable holding the first n+d values of a sequence"""
    r = []
    for d in ds:
        def at(n, d=d):
            return simp(bv(n, 64) + d) if isz(n) else n + d

        def val(c, n, at=at):
            m = at(n)
            return SliceV(c.alloc(SymSeq(spec, m), ("arr", elem)), (), 0, m, None)

        def chk(c, a, n, at=at):
            return isinstance(a, SliceV) and c.slice_is(a, spec, at(n), elem)
        r.append(Cand("the first n%s %s" % ("+%d" % d if d else "", name), val, chk, True))
    return r


def array_cands(name, spec, elem, total, zero, ds=(1, 0, 2)):
    """an array object whose first n+d elements are those of a sequence, the rest zero"""
    r = []
    for d in ds:
        def at(n, d=d):
            return simp(bv(n, 64) + d) if isz(n) else n + d

        def val(c, n, at=at):
            return SymSeq(spec, at(n), (), total, zero)

        def chk(c, a, n, at=at):
            if not isinstance(a, SymSeq) or a.over or (a.spec is not None and a.spec.name != spec.name) or zkey(a.total) != zkey(total):
                return False
            r = simp(bv(a.used(), 64) == bv(at(n), 64))
            for i, x in enumerate(a.ext):
                r = band(r, c.deep_eq(x, spec.at(c, c.addk(a.m, i)), elem))
            return r
        r.append(Cand("array: the first n%s %s, then zeros" % ("+%d" % d if d else "", name), val, chk))
    return r


def elem_of(ctx, tid):
    t = ctx.prog.types[tid]
    while t["kind"] == "named":
        t = ctx.prog.types[t["under"]]
    return t.get("elem")


def hints(seqs):
    """loop hints: sequences a slice of the given element type may be a prefix of"""
    def h(ctx, kind, name, tid, entry):
        r = []
        for what, spec, isel in seqs:
            if kind == "phi" and isinstance(entry, SliceV) and isinstance(tid, int) and isel(ctx, elem_of(ctx, tid)):
                r += prefix_cands(what, spec, elem_of(ctx, tid))
            if kind == "obj" and isinstance(entry, SymSeq) and entry.zero is not None and isinstance(tid, tuple) and isel(ctx, tid[1]):
                r += array_cands(what, spec, tid[1], entry.total, entry.zero)
        return r
    return h


def is_u32(ctx, t):
    return t is not None and ctx.prog.int_info(t) == (32, False)


def path_setup(ctx, *specs):
    ctx.unroll = 3
    ctx.loop_hints = hints([("path values", p.vals, is_u32) for p in specs])
    ctx.loop_preds = lambda c: [AllFit(p, d) for p in specs for d in (1, 0)]


def at_failure(ctx, p):
    """definitions at the component a failing call stopped at"""
    seen = set()
    for q, j in ctx.hw.get(COUNTERS, ()):
        if q.s.key == p.s.key and zkey(j) not in seen:
            seen.add(zkey(j))
            p.define(ctx, j)


def vals_are(ctx, props, sl, p, what=""):
    """the slice is the sequence of values of the path"""
    n = p.count(ctx)
    ens(ctx, props, len_is(ctx, sl, n), "one value per component" + what)
    j = z3.BitVec("J", 64)
    ctx.inputs["J"] = j
    ctx.assume(simp(z3.ULT(j, bv(n, 64))))
    v = ctx.load(Ptr(sl.oid, sl.path + (ctx.addk(sl.off, j),)))
    w = p.at(ctx, j)
    ens(ctx, props, eqv(v, w, 32), "every value is the number its component spells" + what)


def path_case(ctx):
    raw = text_arg(ctx, "path")
    p = PathSpec(ctx, raw)
    path_setup(ctx, p)
    return raw, p


def is_valid(ctx, p):
    """the property's definition of an accepted path"""
    g = p.in_grammar(ctx)
    n = p.count(ctx)
    return zb(p.all(n)) if g else False


def accepted(ctx, p):
    """is_valid, decided; where the components do not all denote an index, one does not"""
    v = is_valid(ctx, p)
    if isz(v) and not ctx.branch(v):
        j = ctx.fresh("misfit", 64)
        ctx.fact(z3.And(bv(j, 64) != 0, z3.ULT(j, bv(p.count(ctx), 64)), z3.Not(p.fits(j))))
        p.define(ctx, j)
        ctx.hw[MISFIT] = ctx.hw.get(MISFIT, ()) + ((p, j),)
        return False
    return True if isz(v) else v


@unit("path_values", "P01 X01 X02", VALUES, cost=30,
      pre="any text", post="accepted exactly if, white space removed, it matches m or M, marked components below 2^31, unmarked components below 2^32; the values are 0 and one per component, in order",
      replay="path")
def path_values(ctx):
    raw, p = path_case(ctx)
    valid = is_valid(ctx, p)
    entry(ctx)
    v, e = call(ctx, VALUES, raw)
    ok = errnil(ctx, e)
    if not ctx.branch(zb(ok)):
        at_failure(ctx, p)
    ens(ctx, "P01", iff(ok, valid), "accepted exactly when every component denotes an index")
    if ctx.branch(zb(ok)):
        vals_are(ctx, "P01", v, p)


@unit("path_valid", "P01 X01 X02", ",".join((PVALID, PSTRING, PFORMAT)), cost=20,
      pre="any text", post="IsValid exactly for the accepted texts; String and Formatted remove white space", replay="path")
def path_valid(ctx):
    raw, p = path_case(ctx)
    valid = is_valid(ctx, p)
    entry(ctx)
    ens(ctx, "P01", text_eq(ctx, call(ctx, PSTRING, raw), p.s), "String is the text without white space")
    ens(ctx, "P01", text_eq(ctx, call(ctx, PFORMAT, raw), p.s), "Formatted is the text without white space")
    iv = zb(call(ctx, PVALID, raw))
    if not ctx.branch(iv):
        at_failure(ctx, p)
    ens(ctx, "P01", iff(iv, valid), "IsValid exactly for accepted texts")


class ValuesContract:
    """contract of ValuesAtDepth, established by path_values"""

    def apply(self, ctx, args):
        p = PathSpec(ctx, args[0])
        if accepted(ctx, p):
            n = p.count(ctx)
            t = ctx.prog.bystr["uint32"]
            o = ctx.alloc(SymSeq(p.vals, n), ("arr", t))
            return Tup((SliceV(o, (), 0, n, None), None))
        # the values returned beside an error are unspecified
        t, m = ctx.prog.bystr["uint32"], ctx.fresh("partial", 64)
        ctx.fact(z3.ULE(m, MAXLEN))
        f = uf("PARTIAL!%s" % m, BV64, U32)
        o = ctx.alloc(SymSeq(SpecSeq(("partial", str(m)), lambda c, j: f(bv(j, 64))), m), ("arr", t))
        return Tup((SliceV(o, (), 0, m, None), models.any_err(ctx, "path")))


class ValidContract:
    """contract of IsValid, established by path_valid"""

    def apply(self, ctx, args):
        p = PathSpec(ctx, args[0])
        return accepted(ctx, p)


@unit("path_value_at", "P02 X01 X02", VALUEAT, uses=("path_values", "path_valid"),
      pre="any text, any depth", post="the depth-th value of a valid path, an error beyond the last component or for an invalid path", replay="pathval")
def path_value_at(ctx):
    raw, p = path_case(ctx)
    d = z3.BitVec("depth", 8)
    ctx.inputs["depth"] = d
    valid = is_valid(ctx, p)
    entry(ctx)
    v, e = call(ctx, VALUEAT, raw, d)
    ok = errnil(ctx, e)
    n = p.count(ctx)
    j = simp(z3.ZeroExt(56, d))
    ens(ctx, "P02", iff(ok, band(valid, simp(z3.ULT(j, bv(n, 64))))), "an error exactly for an invalid path or a depth beyond its last component")
    if ctx.branch(zb(ok)):
        ens(ctx, "P02", eqv(v, p.at(ctx, j), 32), "the value at that depth")


def fits_in(ctx, p, jd, x):
    """whether path p with the component at jd rewritten to denote x is a path: marked components
    precede the others"""
    n = p.count(ctx)
    if ctx.branch(simp(jd == 0)):
        return False
    if ctx.branch(simp(z3.UGE(x, H31))):
        return ctx.branch(simp(jd == 1)) or tm.in_lang(ctx, ctx.norm(tm.comp(ctx, p.s, SLASH, simp(jd - 1))), MARK)
    if ctx.branch(simp(jd + 1 == bv(n, 64))):
        return True
    return not tm.in_lang(ctx, ctx.norm(tm.comp(ctx, p.s, SLASH, simp(jd + 1))), MARK)


@unit("path_replace", "P02 X01 X02", REPLACE, uses=("path_values", "path_valid"), cost=10,
      pre="any text, any depth, any value", post="succeeds exactly when the rewritten path keeps its marked components before the others; a valid path with the same values except the replaced one, or an error", replay="pathrep")
def path_replace(ctx):
    raw, p = path_case(ctx)
    d = z3.BitVec("depth", 8)
    ctx.inputs["depth"] = d
    x = u32(ctx, "value")
    valid = is_valid(ctx, p)
    n = p.count(ctx)
    jd = simp(z3.ZeroExt(56, d))
    could = valid if not isz(valid) else ctx.branch(valid)
    could = could and ctx.branch(simp(z3.ULT(jd, bv(n, 64)))) and fits_in(ctx, p, jd, x)
    entry(ctx)
    r, e = call(ctx, REPLACE, raw, d, x)
    ok = errnil(ctx, e)
    for q, j in ctx.hw.get(MISFIT, ()):
        p.at(ctx, j)
    ens(ctx, "P02", imp(ok, band(valid, simp(z3.ULT(jd, bv(n, 64))))), "an error for an invalid path or a depth beyond its last component")
    ens(ctx, "P02", iff(ok, could), "it succeeds exactly when the path stays one: marked components before the others")
    if not ctx.branch(zb(ok)):
        return
    q = PathSpec(ctx, r)
    ens(ctx, "P02", is_valid(ctx, q), "the result is a valid path")
    ens(ctx, "P02", len_is(ctx, SliceV(0, (), 0, q.count(ctx), None), n), "it has as many components")
    j = z3.BitVec("J", 64)
    ctx.inputs["J"] = j
    ctx.assume(simp(z3.ULT(j, bv(n, 64))))
    same = ctx.branch(simp(j == jd))
    ens(ctx, "P02", eqv(q.at(ctx, j), x if same else p.at(ctx, j), 32), "the replaced value is the new one" if same else "every other value is unchanged")
