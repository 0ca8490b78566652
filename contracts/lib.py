"""Vocabulary of the specifications: units, symbolic inputs, spec functions."""
import z3
from engine.terms import *
from engine import terms, dfa, models
from engine.models import (NK, P256K, C256, gpoint, addpoint, modadd, isres, sqrt, oncurve, curve_facts,
                           lift, hash_uf, digest, homomorphism)
from engine.execu import Panic
from engine.session import B32, B39, B44, UTL, WL

UNITS = {}


class Unit:
    """one verified statement: a contract of a function of the code (body calls
    the function on arbitrary arguments meeting the precondition and states the
    postcondition), or a lemma over such contracts"""

    def __init__(self, uid, props, body, funcs, kind, uses, pre, post, cost, bounded, replay):
        self.id, self.props, self.body, self.funcs, self.kind = uid, props, body, funcs, kind
        self.uses, self.pre, self.post, self.cost, self.bounded, self.replay = uses, pre, post, cost, bounded, replay


def unit(uid, props, funcs, kind="contract", uses=(), pre="", post="", cost=1, bounded="", replay=""):
    """uses: ids of units whose contracts are assumed at calls in this one"""
    def d(f):
        UNITS[uid] = Unit(uid, tuple(props.split()), f, [x.strip() for x in funcs.split(",")], kind, tuple(uses), pre, post, cost, bounded, replay)
        return f
    return d


def fn(pkg, name, recv=None):
    """SSA name of a function or method"""
    if recv is None:
        return "%s.%s" % (pkg, name)
    if recv.startswith("*"):
        return "(*%s.%s).%s" % (pkg, recv[1:], name)
    return "(%s.%s).%s" % (pkg, recv, name)


# ------------------------------------------------------------------ calling
def entry(ctx):
    """everything allocated so far existed before the call"""
    ctx.protected = ctx.nextoid
    ctx.entry_heap = ctx.heap.copy()


def call(ctx, name, *args, shared=False):
    """shared: the result may be memory the callee did not allocate (accessors)"""
    if name not in ctx.prog.funcs:
        raise Unsupported("function %s is not in the code" % name)
    r = ctx.call(name, list(args))
    if not shared and ctx.protected:
        own(ctx, r, name)
    return r


def own(ctx, r, name):
    """slices and pointers handed out by a call are new memory: neither the
    arguments' nor something the library keeps"""
    if isinstance(r, (Tup, tuple, list)):
        for x in r:
            own(ctx, x, name)
    elif isinstance(r, (SliceV, Ptr)) and r.oid is not None:
        ctx.require(r.oid >= ctx.protected, "frame: the result of %s is memory of its own" % name.replace("github.com/mearaj/bips/", ""), ("frame",), assume=False)


def glob(ctx, name):
    if name not in ctx.globals:
        raise Unsupported("variable %s is not in the code" % name)
    return ctx.heap[ctx.globals[name]]


def is_err(ctx, e, name):
    """e is the given error variable of the package"""
    return ctx.val_eq(e, glob(ctx, name))


# ------------------------------------------------------------------ symbolic inputs
class SymKey:
    """an extended key with symbolic fields"""

    def __init__(self, ctx, tag="key"):
        self.ver = z3.BitVec(tag + ".version", 32)
        self.depth = z3.BitVec(tag + ".depth", 8)
        self.fp = z3.BitVec(tag + ".fingerprint", 32)
        self.cn = z3.BitVec(tag + ".childnumber", 32)
        self.cc = z3.BitVec(tag + ".chaincode", 256)
        self.kd0 = z3.BitVec(tag + ".keydata0", 8)
        self.kd = z3.BitVec(tag + ".keydata", 256)

    def cells(self):
        return mk_cells(self.ver, self.depth, self.fp, self.cn, self.cc, self.kd0, self.kd)


def mk_cells(ver, depth, fp, cn, cc, kd0, kd):
    return (split(bv(ver, 32), 4) + (simp(bv(depth, 8)),) + split(bv(fp, 32), 4) + split(bv(cn, 32), 4) + split(bv(cc, 256), 32) +
            (simp(bv(kd0, 8)),) + split(bv(kd, 256), 32))


def norm1(x):
    return simp(x) if isz(x) else x


KEYT = B32 + ".Key"


def key_ptr(ctx, cells, tag="key"):
    p = Ptr(ctx.alloc(tuple(cells), ctx.prog.bystr[KEYT]))
    ctx.inputs[tag] = tuple(cells)
    return p


def u32(ctx, name):
    v = z3.BitVec(name, 32)
    ctx.inputs[name] = v
    return v


def bytes_arg(ctx, name, n, cap=None):
    """byte slice argument of n bytes"""
    v = z3.BitVec(name, 8 * n) if n else None
    cells = split(v, n) if n else ()
    ctx.inputs[name] = cells
    return cells


def byte_slice(ctx, cells, spare=0, tag=None):
    """fresh slice with the given bytes and some spare capacity (unknown bytes)"""
    u8 = ctx.prog.bystr.get("uint8", ctx.prog.bystr.get("byte"))
    extra = tuple(z3.BitVec("spare!%d" % i, 8) for i in range(spare))
    o = ctx.alloc(tuple(cells) + extra, ("arr", u8))
    return SliceV(o, (), 0, len(cells), len(cells) + spare)


def text_arg(ctx, name):
    """arbitrary string"""
    s = op("atom", name)
    ctx.inputs[name] = s
    return s


def any_bytes(ctx, name):
    """slice of arbitrary length and content"""
    s = op("atom", name)
    ctx.inputs[name] = s
    return ctx.bytes_slice(s), s


# ------------------------------------------------------------------ registry (as built by the code)
def registry(ctx, which):
    """version -> paired version, from the evaluated maps of the code: which in pvt, pub"""
    m = glob(ctx, B32 + (".PvtFlagToHDBytesSlice" if which == "pvt" else ".PubFlagToHDBytesSlice"))
    return m


# SLIP-0132 pairs (private, public), the fixed reference
from .tables import SLIP132, COIN_ROWS      # noqa: E402

PVT = {}
PUB = {}
for row in SLIP132:
    PVT.setdefault(row["pvt"], set()).add(row["pub"])
    PUB.setdefault(row["pub"], set()).add(row["pvt"])


def registered(ver, private):
    t = PVT if private else PUB
    return simp(z3.Or(*[ver == v for v in sorted(t)]))


def paired_public(ver):
    """public version of a private one; Bitcoin main net if unregistered"""
    r = z3.BitVecVal(0x0488b21e, 32)
    for v, ps in sorted(PVT.items()):
        assert len(ps) == 1
        r = z3.If(ver == v, z3.BitVecVal(list(ps)[0], 32), r)
    return simp(r)


def public_version_of_public(ver):
    """a registered public version is kept, any other becomes Bitcoin main net"""
    return simp(z3.If(registered(ver, False), ver, z3.BitVecVal(0x0488b21e, 32)))


# ------------------------------------------------------------------ curve and hashes
def valid_scalar(k):
    return z3.And(k != 0, z3.ULT(k, C256(NK)))


def ser_point(x, y):
    """33-byte compressed form"""
    return (simp(z3.Concat(z3.BitVecVal(1, 7), z3.Extract(0, 0, y))),) + split(x, 32)


def pub_of(ctx, k):
    gx, gy = gpoint(ctx, k)
    return ser_point(gx, gy)


def valid_pub(ctx, kd0, x):
    curve_facts(ctx, x)
    return z3.And(z3.Or(kd0 == 2, kd0 == 3), z3.ULT(x, C256(P256K)), isres(x))


def lift_y(ctx, x, kd0):
    """the y of the given parity"""
    s = sqrt(x)
    return simp(z3.If(z3.Extract(0, 0, s) == z3.Extract(0, 0, kd0), s, C256(P256K) - s))


def hmac512(key, data):
    return hash_uf("HMAC_SHA512", 512, BSeq((tuple(key),)), BSeq((tuple(data),)) if isinstance(data, tuple) else data)


def halves(I):
    return simp(z3.Extract(511, 256, I)), simp(z3.Extract(255, 0, I))


def hash160(cells):
    h = hash_uf("SHA256", 256, BSeq((tuple(cells),)))
    return split(hash_uf("RIPEMD160", 160, BSeq((split(h, 32),))), 20)


def dsha(seq):
    if isinstance(seq, tuple):
        seq = BSeq((seq,))
    h = hash_uf("SHA256", 256, seq)
    return split(hash_uf("SHA256", 256, BSeq((split(h, 32),))), 32)


def errnil(ctx, e):
    r = ctx.isnil(e)
    return r


def iff(a, b):
    if not isz(a) and not isz(b):
        return bool(a) == bool(b)
    return simp(zb(a) == zb(b))


def imp(a, b):
    r = implies(a, b)
    return simp(r) if isz(r) else r


def ens(ctx, props, cond, name):
    """postcondition clause counting toward the named properties"""
    return ctx.require(cond, name, tuple(props.split()), assume=False)


def key_cells(ctx, v):
    """78 cells of a Key value or of the key a pointer refers to"""
    if isinstance(v, Ptr):
        v = ctx.load(v)
    if not isinstance(v, tuple) or len(v) != 78:
        raise Unsupported("not a key value")
    return v


class KeyView:
    def __init__(self, cells):
        c = self.cells = cells
        self.ver, self.depth, self.fp, self.cn = cat(c[0:4]), c[4], cat(c[5:9]), cat(c[9:13])
        self.cc, self.kd0, self.kd = cat(c[13:45]), c[45], cat(c[46:78])


def eqv(a, b, w):
    r = bv(a, w) == bv(b, w)
    return simp(r)


def eq_cells(a, b):
    if len(a) != len(b):
        return False
    return eqv(cat(a), cat(b), 8 * len(a))


def text_eq(ctx, a, b):
    """equality of strings"""
    r = ctx.seq_eq(ctx.norm(a), ctx.norm(b))
    return simp(r) if isz(r) else r


def bytes_eq(ctx, sl, seq):
    """content of a byte slice"""
    return text_eq(ctx, ctx.slice_seq(sl), seq)


def len_is(ctx, sl, n):
    r = ctx.len_eq(sl.len if sl.oid is not None else 0, n)
    return simp(r) if isz(r) else r


def hexof(ctx, cells):
    return models.hexenc(ctx, BSeq((tuple(cells),)))
