"""Values of the verifier: machine integers (exact bit vectors), byte strings,
mathematical naturals for math/big, pointers, slices, interfaces."""
import z3
from . import dfa

BS = z3.DeclareSort("Bytes")
BV64 = z3.BitVecSort(64)
MAXLEN = 1 << 40          # assumed bound on the length of any argument

_keep = []
BELEN = {}       # term giving the length of a minimal encoding -> largest value


class Unsupported(Exception):
    """the code uses something the generator cannot express"""


# variables that stand for a term (a fact says so): id -> term
NAMED = {}


class UnknownUse(Unsupported):
    """use of a value the package initialisation could not be followed to"""


class Unknown:
    """what an initialiser outside the verifier's reach produced; any use makes
    the using unit unproved"""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "unknown(%s)" % self.why


def isz(v):
    return isinstance(v, z3.ExprRef)


def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def bv(v, w):
    if isz(v):
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        s = v.size()
        if s == w:
            return v
        if s < w:
            return z3.ZeroExt(w - s, v)
        return z3.Extract(w - 1, 0, v)
    return z3.BitVecVal(v & ((1 << w) - 1), w)


def zb(b):
    return b if isz(b) else z3.BoolVal(bool(b))


def band(*cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bor(*cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def bnot(c):
    if isz(c):
        return z3.Not(c)
    return not c


def implies(a, b):
    return bor(bnot(a), b)


def ite(c, a, b, w):
    """BV ite on values (python int or BV of width w)"""
    if not isz(c):
        return a if c else b
    if not isz(a) and not isz(b) and a == b:
        return a
    if isz(a) and isz(b) and a.eq(b):
        return a
    if not isz(a) and not isz(b):
        r = bit_choice(c, a, b, w)
        if r is not None:
            return r
    return simp(z3.If(c, bv(a, w), bv(b, w)))


def bit_choice(c, a, b, w):
    """If(bit == 1, a, b) for constants that differ in one bit, written with the bit"""
    neg = False
    c = z3.simplify(c)
    while z3.is_not(c):
        c, neg = c.arg(0), not neg
    if not z3.is_eq(c):
        return None
    x, y = c.arg(0), c.arg(1)
    if z3.is_bv_value(x):
        x, y = y, x
    if not (z3.is_bv(x) and x.size() == 1 and z3.is_bv_value(y)):
        return None
    if (y.as_long() == 0) != neg:
        a, b = b, a
    d = a ^ b
    if d & (d - 1) or not a & d:
        return None
    return simp(z3.BitVecVal(b, w) + (bv(x, w) << (d.bit_length() - 1)))


def zkey(v):
    if isz(v):
        _keep.append(v)
        return ("z", v.get_id())
    if isinstance(v, (BSeq, BigVal)):
        return v.key
    if isinstance(v, Op):
        return v.key
    if isinstance(v, tuple):
        return tuple(zkey(x) for x in v)
    return v


_ufs = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    f = _ufs.get(k)
    if f is None:
        f = _ufs[k] = z3.Function(name, *sorts)
    return f


# ------------------------------------------------------------------ bytes
class Op:
    """opaque byte string given by a term"""
    __slots__ = ("kind", "args", "key", "_len", "_bs", "lang", "name")
    table = {}
    facts = None     # set by the context: list of universally true facts

    def __new__(cls, kind, *args, **kw):
        key = (kind,) + tuple(zkey(a) for a in args)
        o = cls.table.get(key)
        if o is None:
            o = object.__new__(cls)
            o.kind, o.args, o.key = kind, args, key
            o._len = o._bs = None
            o.lang = kw.get("lang")
            o.name = "%s_%d" % (kind, len(cls.table))
            cls.table[key] = o
        return o

    @property
    def length(self):
        if self._len is None:
            k = self.kind
            if k == "hex":
                n = self.args[0].length
                self._len = n * 2 if not isz(n) else simp(n * 2)
            elif k == "be":
                self._len = be_len(self.args[0])
                if isz(self._len):
                    BELEN[zkey(self._len)] = (self.args[0].width + 7) // 8
            elif k == "iteb":
                c, a, b = self.args
                self._len = ite(c, a.length, b.length, 64)
            elif k == "chop":
                n = self.args[0].length
                self._len = simp(bv(n, 64) - 1)
            else:
                v = z3.BitVec("len!" + self.name, 64)
                lo, hi = 0, MAXLEN
                if k in ("dec", "sdec"):
                    lo, hi = 1, 20
                if k == "field":
                    lo = 1
                if self.lang is not None:
                    lo = self.lang.minlen()
                    m = self.lang.maxlen()
                    hi = MAXLEN if m is None else m
                if lo == hi:
                    self._len = lo
                else:
                    Op.facts.append(z3.And(z3.ULE(z3.BitVecVal(lo, 64), v), z3.ULE(v, z3.BitVecVal(hi, 64))))
                    self._len = v
        return self._len

    def bs(self):
        if self._bs is None:
            zargs = []
            sorts = []
            nm = self.kind
            for a in self.args:
                if isinstance(a, BSeq):
                    zargs.append(a.bs())
                elif isinstance(a, BigVal):
                    zargs.append(a.tobv())
                elif isz(a):
                    zargs.append(a)
                elif isinstance(a, tuple):
                    ok = True
                    for x in a:
                        if isinstance(x, BSeq):
                            zargs.append(x.bs())
                        else:
                            nm += "_%s" % (zkey(x),)
                elif isinstance(a, int) and self.kind in ("dec", "W", "field", "comp"):
                    zargs.append(bv(a, 64))
                else:
                    nm += "_%s" % (a,)
            if self.kind == "W":
                zargs = [bv(self.args[-1], 11)]
            elif self.kind in ("field", "comp"):
                zargs = [zargs[0], bv(self.args[-1], 64)]
            elif self.kind == "dec":
                zargs = [bv(self.args[0], 64)]
            if not zargs:
                self._bs = z3.Const("s!" + self.name, BS)
            else:
                sorts = [z.sort() for z in zargs]
                self._bs = uf("str_" + nm, *sorts, BS)(*zargs)
        return self._bs

    def __repr__(self):
        return "%s(%s)" % (self.kind, ",".join(str(a)[:40] for a in self.args))


class BSeq:
    """immutable byte string: sequence of runs of bytes and opaque parts"""
    __slots__ = ("parts", "key", "_bs")

    def __init__(self, parts=()):
        out = []
        for p in parts:
            if isinstance(p, (bytes, bytearray)):
                p = tuple(p)
            if isinstance(p, BSeq):
                sub = p.parts
            else:
                sub = (p,)
            for q in sub:
                if isinstance(q, tuple):
                    if not q:
                        continue
                    if out and isinstance(out[-1], tuple):
                        out[-1] = out[-1] + q
                        continue
                out.append(q)
        self.parts = tuple(out)
        self.key = ("bseq",) + tuple(zkey(p) for p in self.parts)
        self._bs = None

    @property
    def cells(self):
        """tuple of byte values when the length is concrete and no opaque part"""
        if not self.parts:
            return ()
        if len(self.parts) == 1 and isinstance(self.parts[0], tuple):
            return self.parts[0]
        return None

    @property
    def concrete(self):
        c = self.cells
        if c is None or any(isz(x) for x in c):
            return None
        return bytes(c)

    @property
    def length(self):
        n = 0
        sym = None
        for p in self.parts:
            if isinstance(p, tuple):
                n += len(p)
            else:
                l = p.length
                if isz(l):
                    sym = l if sym is None else sym + l
                else:
                    n += l
        if sym is None:
            return n
        return simp(sym + n)

    @property
    def single(self):
        if len(self.parts) == 1 and isinstance(self.parts[0], Op):
            return self.parts[0]
        return None

    def bs(self):
        if self._bs is None:
            c = self.cells
            if c is not None:
                if not c:
                    self._bs = z3.Const("s!empty", BS)
                else:
                    self._bs = uf("mk_%d" % len(c), z3.BitVecSort(8 * len(c)), BS)(bv(cat(c), 8 * len(c)))
            elif len(self.parts) == 1:
                self._bs = self.parts[0].bs()
            else:
                h = self.parts[0]
                hb = BSeq((h,)).bs()
                self._bs = uf("cat", BS, BS, BS)(hb, BSeq(self.parts[1:]).bs())
        return self._bs

    def __eq__(self, o):
        return isinstance(o, BSeq) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __add__(self, o):
        return BSeq(self.parts + o.parts)

    def __repr__(self):
        c = self.concrete
        if c is not None:
            return repr(c)
        return "BSeq[" + ";".join(("cells%d" % len(p)) if isinstance(p, tuple) else repr(p) for p in self.parts) + "]"


EMPTYB = BSeq()


def lit(s):
    if isinstance(s, str):
        s = s.encode()
    return BSeq((tuple(s),)) if s else EMPTYB


def op(kind, *args, **kw):
    return BSeq((Op(kind, *args, **kw),))


def cat(cells):
    """big-endian number of a run of bytes: int or BV(8n)"""
    n = len(cells)
    if n == 0:
        return 0
    if not any(isz(c) for c in cells):
        return int.from_bytes(bytes(cells), "big")
    if n == 1:
        return cells[0]
    return simp(z3.Concat(*[bv(c, 8) for c in cells]))


def split(v, n):
    """n big-endian bytes of an int / BV of width >= ... (zero extended)"""
    if n == 0:
        return ()
    if not isz(v):
        return tuple((v & ((1 << (8 * n)) - 1)).to_bytes(n, "big"))
    v = bv(v, 8 * n)
    return tuple(simp(z3.Extract(8 * (n - 1 - i) + 7, 8 * (n - 1 - i), v)) for i in range(n))


def be_len(b):
    """number of bytes of the minimal big-endian form of a BigVal"""
    t = b.tobv_min()
    if not isz(t):
        return (t.bit_length() + 7) // 8
    w = t.size()
    n = (w + 7) // 8
    t = bv(t, 8 * n)
    r = z3.BitVecVal(0, 64)
    for i in range(1, n + 1):
        # byte i (1 = least significant) non-zero -> at least i bytes
        r = z3.If(z3.Extract(8 * i - 1, 8 * i - 8, t) != 0, z3.BitVecVal(i, 64), r)
    return simp(r)


class BigVal:
    """value of a math/big.Int: python int, or exact unsigned bit vector, or a
    polynomial over such (kept symbolic until reduced modulo a prime)"""
    __slots__ = ("t", "poly", "key")

    def __init__(self, t=None, poly=None):
        if isz(t):
            t = simp(t)
        if isz(t):
            t = trim(t)
        self.t = t
        self.poly = poly
        if poly is not None:
            self.key = ("poly", tuple(sorted(poly.items(), key=str)))
        else:
            self.key = ("big", zkey(t))

    @property
    def concrete(self):
        return None if (isz(self.t) or self.poly is not None) else self.t

    @property
    def width(self):
        if self.poly is not None:
            w = 0
            for m, c in self.poly.items():
                if c < 0:
                    raise Unsupported("negative polynomial")
                w = max(w, sum(POLYATOM[a].size() for a in m) + max(1, c.bit_length()))
            return w + max(1, len(self.poly).bit_length())
        if isz(self.t):
            return self.t.size()
        if self.t < 0:
            raise Unsupported("negative big.Int in symbolic arithmetic")
        return max(1, self.t.bit_length())

    def tobv_min(self):
        if self.poly is not None:
            w = self.width
            r = z3.BitVecVal(0, w)
            for m, c in sorted(self.poly.items(), key=str):
                x = z3.BitVecVal(c, w)
                for a in m:
                    x = x * bv(POLYATOM[a], w)
                r = r + x
            return r
        return self.t

    def tobv(self, w=None):
        t = self.tobv_min()
        if not isz(t):
            if t < 0:
                raise Unsupported("negative big.Int")
            return z3.BitVecVal(t, w or max(1, t.bit_length()))
        return bv(t, w or t.size())

    def aspoly(self):
        if self.poly is not None:
            return self.poly
        if not isz(self.t):
            return {(): self.t} if self.t else {}
        k = self.t.get_id()
        POLYATOM[k] = self.t
        return {(k,): 1}

    def __repr__(self):
        return "Big(%s)" % (self.t if self.poly is None else self.poly,)


POLYATOM = {}


def poly_mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            r[k] = r.get(k, 0) + c * d
    return {k: v for k, v in r.items() if v}


def poly_add(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}


def trim(t):
    """drop leading constant zero bits"""
    while True:
        if z3.is_app_of(t, z3.Z3_OP_CONCAT):
            h = t.arg(0)
            if z3.is_bv_value(h) and h.as_long() == 0:
                rest = t.children()[1:]
                t = rest[0] if len(rest) == 1 else z3.Concat(*rest)
                continue
        elif z3.is_app_of(t, z3.Z3_OP_ZERO_EXT):
            t = t.arg(0)
            continue
        return t


# ------------------------------------------------------------------ other values
class Ptr:
    __slots__ = ("oid", "path")

    def __init__(self, oid, path=()):
        self.oid, self.path = oid, path

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.oid == o.oid and zkey(self.path) == zkey(o.path)

    def __hash__(self):
        return hash((self.oid, zkey(self.path)))

    def __repr__(self):
        return "&%s%s" % (self.oid, list(self.path) if self.path else "")


class SliceV:
    __slots__ = ("oid", "path", "off", "len", "cap")

    def __init__(self, oid, path, off, ln, cap):
        self.oid, self.path, self.off, self.len, self.cap = oid, path, off, ln, cap

    @property
    def nil(self):
        return self.oid is None

    def __repr__(self):
        return "slice(%s%s+%s len %s)" % (self.oid, list(self.path), self.off, self.len)


NILS = SliceV(None, (), 0, 0, 0)


class SliceOrNil(SliceV):
    """slice that is nil exactly under a condition (its length is then 0)"""
    __slots__ = ("nilcond",)


class MapRef:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid


class IfaceV:
    """non-nil interface value"""
    __slots__ = ("tid", "val")

    def __init__(self, tid, val):
        self.tid, self.val = tid, val

    def __repr__(self):
        return "iface(%s,%s)" % (self.tid, self.val)


class IteV:
    """symbolic choice between two interface/error values (None = nil)"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class FuncV:
    __slots__ = ("name", "free")

    def __init__(self, name, free=()):
        self.name, self.free = name, free

    def __repr__(self):
        return "func " + self.name


class Tup(tuple):
    """multiple results"""


class ABytes:
    """array content of symbolic length"""
    __slots__ = ("seq",)

    def __init__(self, seq):
        self.seq = seq


class SpecSeq:
    """infinite sequence of spec values: at(ctx, j) for j int or BV64"""

    def __init__(self, name, at, src=None):
        self.name, self.at, self.src = name, at, src


class SymSeq:
    """array content of symbolic length: spec[0:m] ++ ext ++ zeros up to total,
    with the point updates of over (latest last)"""
    __slots__ = ("spec", "m", "ext", "total", "zero", "over")

    def __init__(self, spec, m, ext=(), total=None, zero=None, over=()):
        self.spec, self.m, self.ext, self.total, self.zero, self.over = spec, m, ext, total, zero, over

    def used(self):
        return simp(bv(self.m, 64) + len(self.ext)) if isz(self.m) else self.m + len(self.ext)

    def len(self):
        return self.total if self.total is not None else self.used()


class MergedSeq:
    """array content chosen by disjoint conditions: [(cond, SliceV)]"""
    __slots__ = ("cases", "tid")

    def __init__(self, cases, tid):
        self.cases, self.tid = cases, tid


class PermSeq:
    """array content known only up to permutation"""
    __slots__ = ("elems",)

    def __init__(self, elems):
        self.elems = elems


class MapVal:
    """concrete map: insertion ordered dict of (python key -> value)"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d


class SymMap:
    """symbolic map: name, lookup(ctx,key)->(value,found), pending writes"""
    __slots__ = ("name", "lookup", "writes", "meta")

    def __init__(self, name, lookup, writes=(), meta=None):
        self.name, self.lookup, self.writes, self.meta = name, lookup, writes, meta


class HashObj:
    """state of a hash.Hash: algorithm, key (hmac) and data so far"""
    __slots__ = ("alg", "key", "data")

    def __init__(self, alg, key, data):
        self.alg, self.key, self.data = alg, key, data


class Buf:
    """state of a bytes.Buffer / strings.Builder"""
    __slots__ = ("seq",)

    def __init__(self, seq=EMPTYB):
        self.seq = seq


class Regex:
    __slots__ = ("pattern",)

    def __init__(self, pattern):
        self.pattern = pattern


class Opaque:
    """any other external object"""
    __slots__ = ("what", "data")

    def __init__(self, what, data=None):
        self.what, self.data = what, data

    def __repr__(self):
        return "opaque(%s)" % self.what
