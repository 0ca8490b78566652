"""Contracts of derivation along a path and of range generation (util)."""
from engine import textmodels as tm
from engine.terms import SpecSeq, SymSeq
from engine.loops import Cand
from .lib import *
from .extkeys import key_valid, ISVALID
from .keys import NEWCHILD
from .paths import PathSpec, AllFit, path_setup, is_valid, prefix_cands, array_cands, elem_of, hints, is_u32, H31, VALUES, PVALID, at_failure

DERIVE = fn(UTL, "DeriveBIP32Result", "*Generator")
RANGE = fn(UTL, "GenerateRange", "*KeyPathRange")
B624 = z3.BitVecSort(624)


def ckd(key, idx):
    return uf("CKD", B624, z3.BitVecSort(32), B624)(key, bv(idx, 32))


def ckd_ok(key, idx):
    return uf("CKDOK", B624, z3.BitVecSort(32), z3.BoolSort())(key, bv(idx, 32))


class ChildFunction:
    """NewChildKey as some function of key and index (established by child_any: it
    reads nothing else and writes nothing)"""

    def apply(self, ctx, args):
        k = bv(cat(key_cells(ctx, args[0])), 624)
        if ctx.branch(simp(ckd_ok(k, args[1]))):
            return Tup((split(ckd(k, args[1]), 78), None))
        return Tup((tuple(ctx.fresh("errkey", 8) for _ in range(78)), models.any_err(ctx, "derivation")))


class KeyValidContract:
    """contract of IsValid, established by roundtrip"""

    def apply(self, ctx, args):
        return simp(key_valid(ctx, key_cells(ctx, args[0])))


LABELS = dfa.full(r"[mM](/[0-9]+'?)*")


class Chain:
    """keys and labels along a sequence of indexes:
    key(0), label(0) given; key(j+1) = child of key(j) at idx(j); label(j+1) = label(j) / idx(j)"""

    def __init__(self, ctx, tag, root, label, idx, key_tid):
        self.tag, self.root, self.label0, self.idx = tag, root, label, idx
        self.seq = SpecSeq(("chain", tag), lambda c, j: (self.label(j), split(self.key(j), 78)))
        self.after = SpecSeq(("chain+1", tag), lambda c, j: (self.label(c.addk(j, 1)), split(self.key(c.addk(j, 1)), 78)))

    def key(self, j):
        if not isz(j) and j == 0:
            return self.root
        return uf("KEY!" + self.tag, BV64, B624)(bv(j, 64))

    def label(self, j):
        if not isz(j) and j == 0:
            return self.label0
        return op("label", self.tag, bv(j, 64), lang=LABELS)

    def all(self, j):
        """the first j derivations succeed"""
        return uf("ALL!" + self.tag, BV64, z3.BoolSort())(bv(j, 64))

    def ok(self, ctx, j):
        return ckd_ok(self.key(j), self.idx(ctx, j))

    def base(self, ctx):
        z = z3.BitVecVal(0, 64)
        ctx.fact(z3.And(uf("KEY!" + self.tag, BV64, B624)(z) == self.root, self.all(0), op("label", self.tag, z, lang=LABELS).bs() == self.label0.bs()))

    def step(self, j):
        return simp(bv(j, 64) + 1) if isz(j) else j + 1

    def define(self, ctx, j):
        """the j+1st key and label from the jth"""
        self.base(ctx)
        x = self.idx(ctx, j)
        ctx.assume(self.key(self.step(j)) == ckd(self.key(j), x))
        hard = ctx.branch(simp(z3.UGE(bv(x, 32), H31))) if isz(x) else x >= H31
        low = simp(z3.ZeroExt(32, bv(x, 32) & (H31 - 1)))
        for lab in {self.label(j).key: self.label(j), 1: op("label", self.tag, bv(j, 64), lang=LABELS)}.values():
            t = lab + lit("/") + op("dec", low)
            if hard:
                t = t + lit("'")
            ctx.assume(self.label(self.step(j)).bs() == t.bs())

    def unfold(self, ctx, j, total):
        """all(j+1) = all(j) and ok(j); all(total) implies ok(j) for j < total"""
        self.base(ctx)
        ok = self.ok(ctx, j)
        ctx.assume(z3.And(self.all(self.step(j)) == z3.And(self.all(j), ok),
                          z3.Implies(z3.And(self.all(total), z3.ULT(bv(j, 64), bv(total, 64))), ok)))


class ChainOk:
    """loop predicate: the derivations made so far succeeded"""

    def __init__(self, ch, total, d=0):
        self.ch, self.total, self.d = ch, total, d
        self.name = "the derivations so far succeeded"

    def at(self, ctx, n):
        self.ch.base(ctx)
        return self.ch.all(n)

    def use(self, ctx, n):
        self.ch.unfold(ctx, n, self.total)

    def close(self, ctx, n):
        self.ch.unfold(ctx, n, self.total)
        self.ch.define(ctx, n)


def is_keypath(ctx, t):
    t = under(ctx, t)
    if t is None or t["kind"] != "struct" or len(t["fields"] or []) != 2:
        return False
    return [f["name"] for f in t["fields"]] == ["Path", "Key"]


def under(ctx, t):
    if t is None:
        return None
    t = ctx.prog.types[t]
    while t["kind"] == "named":
        t = ctx.prog.types[t["under"]]
    return t


def is_key(ctx, t):
    t = under(ctx, t)
    return t is not None and t["kind"] == "array" and t["len"] == 78


def chain_hints(specs, extra=()):
    """specs: [(what, Chain)]"""
    h0 = hints([(what + s, q, is_keypath) for what, ch in specs for s, q in (("", ch.seq), (", the first left out", ch.after))] + list(extra))

    def h(ctx, kind, name, tid, entry):
        r = list(h0(ctx, kind, name, tid, entry))
        for what, ch in specs:
            if isinstance(tid, int) and is_key(ctx, tid):
                for d in (0, 1):
                    r.append(Cand("key n%s of %s" % ("+%d" % d if d else "", what),
                                  lambda c, n, ch=ch, d=d: split(ch.key(c.addk(n, d)), 78),
                                  lambda c, a, n, ch=ch, d=d: c.deep_eq(a, split(ch.key(c.addk(n, d)), 78), tid)))
            if isinstance(tid, int) and ctx.prog.is_string(tid):
                for d in (0, 1):
                    r.append(Cand("label n%s of %s" % ("+%d" % d if d else "", what),
                                  lambda c, n, ch=ch, d=d: ch.label(c.addk(n, d)),
                                  lambda c, a, n, ch=ch, d=d: text_eq(c, a, ch.label(c.addk(n, d)))))
        return r
    return h


def entry_is(ctx, sl, j, want):
    """the jth entry of a slice of key paths"""
    x = ctx.load(Ptr(sl.oid, sl.path + (ctx.addk(sl.off, j),)))
    return text_eq(ctx, x[0], want[0]), eq_cells(x[1], want[1])


@unit("derive", "U01 X01 X02", DERIVE, uses=("path_values", "path_valid", "roundtrip", "child_any"), cost=60, replay="derive",
      pre="any 78-byte root, any path text",
      post="without error exactly for a valid private depth-zero root, a valid path and successful derivation steps; then one entry per component: the root labelled m, and each next entry the child of the previous one at the next value, its label extended by that component")
def derive(ctx):
    s = SymKey(ctx)
    gp = Ptr(ctx.alloc((tuple(s.cells()),), ctx.prog.bystr[UTL + ".Generator"]))
    ctx.inputs["key"] = tuple(s.cells())
    raw = text_arg(ctx, "path")
    p = PathSpec(ctx, raw)
    path_setup(ctx, p)
    valid = is_valid(ctx, p)
    n = p.count(ctx)
    steps = simp(bv(n, 64) - 1)
    ch = Chain(ctx, "derive", bv(cat(s.cells()), 624), lit("m"), lambda c, j: p.at(c, c.addk(j, 1)), None)
    root = z3.And(key_valid(ctx, s.cells()), s.kd0 == 0, s.depth == 0)
    ctx.loop_hints = chain_hints([("the chain", ch)], [("path values", p.vals, is_u32)])
    ctx.loop_preds = lambda c: [ChainOk(ch, steps)]
    ch.base(ctx)
    entry(ctx)
    ks, e = call(ctx, DERIVE, gp, raw)
    ok = errnil(ctx, e)
    good = band(root, valid, ch.all(steps))
    ens(ctx, "U01", imp(ok, root), "an error unless the root is a valid private key of depth zero")
    ens(ctx, "U01", imp(ok, valid), "an error for an invalid path")
    ens(ctx, "U01", imp(ok, ch.all(steps)), "an error when a derivation step fails")
    ens(ctx, "U01", imp(good, ok), "otherwise no error")
    if not ctx.branch(zb(ok)):
        return
    ens(ctx, "U01", len_is(ctx, ks, n), "one entry per component")
    j = z3.BitVec("J", 64)
    ctx.inputs["J"] = j
    ctx.assume(simp(z3.ULT(j, bv(n, 64))))
    if ctx.branch(simp(j == 0)):
        j = 0
    a, b = entry_is(ctx, ks, j, (ch.label(j), split(ch.key(j), 78)))
    ens(ctx, "U01", a, "entry 0 is labelled m" if not isz(j) else "each label extends the previous one by its component")
    ens(ctx, "U01", b, "entry 0 is the root" if not isz(j) else "each key is the child of the previous one at that value")


SETROOT = fn(UTL, "SetRootKey", "*Generator")
GETROOT = fn(UTL, "RootKey", "*Generator")


@unit("rootkey", "U01 X01 X02", SETROOT + "," + GETROOT, pre="any generator, any key", replay="rootkey",
      post="the key set is the root; a key set before or a copy held by the caller is not affected")
def rootkey(ctx):
    s, t = SymKey(ctx, "old"), SymKey(ctx)
    ctx.inputs["key"] = tuple(t.cells())
    ctx.inputs["old"] = tuple(s.cells())
    gp = Ptr(ctx.alloc((tuple(s.cells()),), ctx.prog.bystr[UTL + ".Generator"]))
    entry(ctx)
    r = call(ctx, GETROOT, gp, shared=True)
    ens(ctx, "U01", eq_cells(key_cells(ctx, r), s.cells()), "RootKey is the root set before")
    ctx.may_write = lambda c, oid, path: oid == gp.oid
    call(ctx, SETROOT, gp, tuple(t.cells()))
    ctx.may_write = None
    r = call(ctx, GETROOT, gp, shared=True)
    ens(ctx, "U01", eq_cells(key_cells(ctx, r), t.cells()), "RootKey is the key set")


def range_fields(ctx):
    return [f["name"] for f in under(ctx, ctx.prog.bystr[UTL + ".KeyPathRange"])["fields"]]


def earlier(ctx):
    """whatever an earlier call left in the result field: a slice of any length and capacity"""
    spec = SpecSeq(("earlier",), lambda c, j: (op("earlier", bv(j, 64)), split(uf("EARLIER", BV64, B624)(bv(j, 64)), 78)))
    m, cap = z3.BitVec("earlier.len", 64), z3.BitVec("earlier.cap", 64)
    ctx.assume(z3.And(z3.ULE(m, cap), z3.ULE(cap, 1 << 40)))
    f = next(x for x in under(ctx, ctx.prog.bystr[UTL + ".KeyPathRange"])["fields"] if x["name"] == "KeyPaths")
    return SliceV(ctx.alloc(SymSeq(spec, cap), ("arr", under(ctx, f["type"])["elem"])), (), 0, m, cap)


@unit("range", "U02 X01 X02", RANGE, uses=("path_valid", "roundtrip", "child_any"), cost=60, replay="range",
      pre="any 78-byte key, any path text, any bounds, anything in the result field",
      post="without error exactly for a valid key and path, start below end and successful derivation steps; then end-start entries, the ith with component start+i and the child at start+i of the key its label's rest names")
def range_unit(ctx):
    s = SymKey(ctx)
    ctx.inputs["key"] = tuple(s.cells())
    raw = text_arg(ctx, "path")
    p = PathSpec(ctx, raw)
    path_setup(ctx, p)
    valid = is_valid(ctx, p)
    a, b = u32(ctx, "start"), u32(ctx, "end")
    have = {"StartIndex": a, "EndIndex": b, "KeyPath": (raw, tuple(s.cells())), "KeyPaths": earlier(ctx)}
    fs = range_fields(ctx)
    kp = Ptr(ctx.alloc(tuple(have[f] for f in fs), ctx.prog.bystr[UTL + ".KeyPathRange"]))
    total = simp(z3.ZeroExt(32, b - a))
    key0 = bv(cat(s.cells()), 624)
    def idx(c, j):
        return simp(a + z3.Extract(31, 0, bv(j, 64)))
    ch = Chain(ctx, "range", key0, p.s, idx, None)
    ctx.loop_hints = chain_hints([("the chain", ch)])
    ctx.loop_preds = lambda c: [ChainOk(ch, total)]
    ch.base(ctx)
    kv = key_valid(ctx, s.cells())
    order = z3.ULT(a, b)
    entry(ctx)
    ctx.may_write = lambda c, oid, path: oid == kp.oid and path[:1] == (fs.index("KeyPaths"),)
    e = call(ctx, RANGE, kp)
    ctx.may_write = None
    ok = errnil(ctx, e)
    ens(ctx, "U02", imp(ok, order), "an empty or reversed range is an error")
    ens(ctx, "U02", imp(ok, kv), "an invalid key is an error")
    ens(ctx, "U02", imp(ok, valid), "an invalid path is an error")
    ens(ctx, "U02", imp(ok, ch.all(total)), "an error when a derivation step fails")
    ens(ctx, "U02", imp(band(order, kv, valid, ch.all(total)), ok), "otherwise no error")
    if not ctx.branch(zb(ok)):
        return
    ks = ctx.load(Ptr(kp.oid, (fs.index("KeyPaths"),)))
    own(ctx, ks, "GenerateRange")
    ens(ctx, "U02", len_is(ctx, ks, total), "end-start entries")
    j = z3.BitVec("J", 64)
    ctx.inputs["J"] = j
    ctx.assume(simp(z3.ULT(j, total)))
    x, y = entry_is(ctx, ks, j, (ch.label(ch.step(j)), split(ch.key(ch.step(j)), 78)))
    ens(ctx, "U02", x, "the label of entry i ends in component start+i")
    ens(ctx, "U02", y, "the key of entry i is the child at start+i of the key named by the rest of its label")
