"""Contracts of package bip39 and of the mnemonic helpers of util."""
from engine import textmodels as tm
from engine.terms import SpecSeq, SymSeq, SymMap, MapRef
from engine.loops import Cand
from .lib import *
from .extkeys import rand_only

ENC = fn(B39, "NewMnemonic")
DEC = fn(B39, "EntropyFromMnemonic")
VALID = fn(B39, "IsMnemonicValid")
TOBYTES = fn(B39, "MnemonicToByteArray")
SEED = fn(B39, "NewSeed")
SEEDCHK = fn(B39, "NewSeedWithErrorChecking")
SETLIST = fn(B39, "SetWordList")
GETLIST = fn(B39, "GetWordList")
GETIDX = fn(B39, "GetWordIndex")
ENTROPY = fn(B39, "NewEntropy")
GENMN = fn(UTL, "GenerateMnemonic")
SEEDHEX = fn(UTL, "DeriveSeedFromMnemonic")
SIZES = (16, 20, 24, 28, 32)
W11 = z3.BitVecSort(11)


def word(i):
    """i-th word of the active list (a non-empty text without white space; distinct for distinct i)"""
    return op("W", "words", simp(bv(i, 11)) if isz(i) else i % 2048)


class Words:
    """an arbitrary active list of 2048 distinct non-empty whitespace-free words and its reverse index"""

    def __init__(self, ctx):
        st = ctx.prog.bystr["string"]
        self.spec = SpecSeq(("words",), lambda c, j: word(simp(z3.Extract(10, 0, j)) if isz(j) else j))
        o = ctx.alloc(SymSeq(self.spec, 2048), ("arr", st))
        ctx.heap[gl(ctx, B39 + ".wordList")] = SliceV(o, (), 0, 2048, 2048)
        t = next(i for i, t in enumerate(ctx.prog.types) if t and t["kind"] == "map" and t["key"] == st and ctx.prog.types[t["elem"]].get("basic") == "int")
        mo = ctx.alloc(SymMap(("words",), self.lookup), t)
        ctx.heap[gl(ctx, B39 + ".wordMap")] = MapRef(mo)

    def lookup(self, ctx, k):
        found, i = self.index(ctx, k)
        return (ite(found, simp(z3.ZeroExt(53, i)), 0, 64) if isz(i) else i), found

    def index(self, ctx, k):
        """(in the list, number of the word)"""
        k = ctx.norm(k)
        o = k.single
        if o is not None and o.kind == "W":
            return True, o.args[-1]
        found = uf("INWORDS", BS, z3.BoolSort())(k.bs())
        i = uf("WORDIDX", BS, W11)(k.bs())
        key = ("inwords", k.key)
        if key not in ctx.done:
            ctx.done.add(key)
            ctx.fact(z3.Implies(found, word(i).bs() == k.bs()))
        return found, i


def gl(ctx, name):
    if name not in ctx.globals:
        raise Unsupported("variable %s is not in the code" % name)
    return ctx.globals[name]


def bits_of(ctx, ent):
    """the bit string of an entropy: its bytes and len/4 bits of their SHA-256"""
    n = len(ent)
    h = hash_uf("SHA256", 256, BSeq((tuple(ent),)))
    return simp(z3.Concat(bv(cat(ent), 8 * n), z3.Extract(255, 256 - n // 4, h)))


def indexes(bits):
    w = bits.size() // 11
    return [simp(z3.Extract(11 * (w - i) - 1, 11 * (w - i - 1), bits)) for i in range(w)]


def sentence(idx):
    parts = []
    for i, x in enumerate(idx):
        if i:
            parts.append((32,))
        parts += word(x).parts
    return BSeq(parts)


def encode_unit(n):
    @unit("encode%d" % n, "B01 B02 X01 X02", ",".join((ENC, DEC, VALID)), pre="any %d bytes, any list of 2048 distinct non-empty whitespace-free words" % n,
          post="the words numbered by the 11-bit groups of the entropy and its checksum, joined by single spaces; decoding gives the entropy back", cost=20, replay="mnemonic")
    def f(ctx):
        Words(ctx)
        ent = bytes_arg(ctx, "entropy", n)
        sl = byte_slice(ctx, ent, 3)
        entry(ctx)
        m, e = call(ctx, ENC, sl)
        ens(ctx, "B02 B01", errnil(ctx, e), "encoding succeeds")
        bits = bits_of(ctx, ent)
        ens(ctx, "B02", text_eq(ctx, m, sentence(indexes(bits))), "word i is the list entry numbered by bits 11i..11i+10, separated by single spaces")
        d, e = call(ctx, DEC, m)
        ens(ctx, "B01", errnil(ctx, e), "decoding the mnemonic succeeds")
        ens(ctx, "B01", bytes_eq(ctx, d, BSeq((ent,))), "decoding the mnemonic returns the entropy")
        ens(ctx, "B01 X01", eq_cells(ctx.cells_of(ctx.slice_seq(sl)), ent), "the argument is unchanged")


for _n in SIZES:
    encode_unit(_n)


@unit("encode_len", "B02 X01 X02", ENC, pre="any bytes of any other length", post="the entropy-length error and no mnemonic", replay="mnemonic")
def encode_len(ctx):
    Words(ctx)
    sl, seq = any_bytes(ctx, "entropy")
    for n in SIZES:
        ctx.assume(simp(bv(sl.len, 64) != n))
    entry(ctx)
    m, e = call(ctx, ENC, sl)
    ens(ctx, "B02", is_err(ctx, e, B39 + ".ErrEntropyLengthInvalid"), "every other entropy length is refused with the entropy-length error")
    ens(ctx, "B02", text_eq(ctx, m, lit(b"")), "and yields no mnemonic")


class Decoded:
    """what a sentence denotes"""

    def __init__(self, ctx, W, s):
        self.n = n = tm.nfields(ctx, s)
        self.k = next((k for k in tm.WORDCOUNTS if ctx.branch(simp(n == k))), None)
        if self.k is None:
            self.valid = False
            return
        k = self.k
        ok, idx = True, []
        for j in range(k):
            f, i = W.index(ctx, op("field", s, j))
            ok = band(ok, f)
            idx.append(i)
        bits = simp(z3.Concat(*[bv(i, 11) for i in idx]))
        c = k // 3
        self.size = n = 4 * c
        self.ent = split(simp(z3.Extract(11 * k - 1, c, bits)), n)
        h = hash_uf("SHA256", 256, BSeq((self.ent,)))
        self.known = ok
        self.valid = simp(zb(band(ok, z3.Extract(255, 256 - c, h) == z3.Extract(c - 1, 0, bits))))
        self.bits = bits


@unit("decode", "B03 X01 X02", DEC, pre="any text, any list of 2048 distinct non-empty whitespace-free words", cost=60, replay="mnemonic",
      post="accepted exactly with 12, 15, 18, 21 or 24 words of the list and a matching checksum; the entropy is then the leading bits")
def decode(ctx):
    W = Words(ctx)
    s = text_arg(ctx, "mnemonic")
    d = Decoded(ctx, W, s)
    entry(ctx)
    ent, e = call(ctx, DEC, s)
    ok = errnil(ctx, e)
    ens(ctx, "B03", iff(ok, d.valid), "accepted exactly for the right number of known words with a matching checksum")
    if d.k is not None and (ctx.branch(zb(ok)) if isz(ok) else ok):
        ens(ctx, "B03", bytes_eq(ctx, ent, BSeq((d.ent,))), "the entropy is the bits before the checksum")


class DecodeContract:
    """contract of EntropyFromMnemonic on opaque text, established by decode: some
    function of the text, of 4/3 bytes per word"""

    def apply(self, ctx, args):
        s = ctx.norm(args[0])
        if s.single is None:
            raise Unsupported("decoding composite text through the contract")
        n = tm.nfields(ctx, s)
        k = next((k for k in tm.WORDCOUNTS if ctx.branch(simp(n == k))), None)
        if k is None or not ctx.branch(self.valid(s)):
            ok = z3.And(self.valid(s), z3.Or(*[n == k for k in tm.WORDCOUNTS]))
            return Tup((NILS, models.any_err(ctx, "mnemonic")))
        return Tup((ctx.bytes_slice(BSeq((self.entropy(s, k),))), None))

    @staticmethod
    def valid(s):
        return uf("VALIDMN", BS, z3.BoolSort())(s.bs())

    @staticmethod
    def entropy(s, k):
        n = 4 * (k // 3)
        return split(uf("ENTROPY%d" % n, BS, z3.BitVecSort(8 * n))(s.bs()), n)


class Valid:
    """case analysis on an arbitrary sentence through the contract of the decoder"""

    def __init__(self, ctx):
        self.s = s = text_arg(ctx, "mnemonic")
        n = tm.nfields(ctx, s)
        self.k = next((k for k in tm.WORDCOUNTS if ctx.branch(simp(n == k))), None)
        self.ok = self.k is not None and ctx.branch(DecodeContract.valid(s))
        self.ent = DecodeContract.entropy(s, self.k) if self.ok else None


@unit("isvalid", "B03 X01 X02", VALID, uses=("decode",), pre="any text", post="agrees with the decoder", replay="mnemonic")
def isvalid(ctx):
    Words(ctx)
    v = Valid(ctx)
    entry(ctx)
    ens(ctx, "B03", iff(zb(call(ctx, VALID, v.s)), v.ok), "the validity predicate agrees with the decoder")


@unit("tobytes", "B04 X01 X02", TOBYTES, uses=("decode",), pre="any text, any raw arguments", cost=20, replay="tobytes",
      post="raw: the entropy; otherwise entropy and checksum bits as a number of one byte more; an error and no bytes for an invalid mnemonic")
def tobytes(ctx):
    Words(ctx)
    v = Valid(ctx)
    raw = False
    if ctx.branch(z3.Bool("no raw argument")):
        a = NILS
    else:
        r, r2 = z3.Bool("raw"), z3.Bool("raw2")
        ctx.inputs["raw"] = r
        raw = r
        o = ctx.alloc((r, r2), ("arr", ctx.prog.bystr["bool"]))
        n = 1 if ctx.branch(z3.Bool("one raw argument")) else 2
        a = SliceV(o, (), 0, n, 2)
    entry(ctx)
    bs, e = call(ctx, TOBYTES, v.s, a)
    ok = errnil(ctx, e)
    ens(ctx, "B04", iff(ok, v.ok), "an error exactly for an invalid mnemonic")
    if not v.ok:
        ens(ctx, "B04", len_is(ctx, bs, 0), "no bytes for an invalid mnemonic")
        return
    if ctx.branch(raw) if isz(raw) else raw:
        ens(ctx, "B04", bytes_eq(ctx, bs, BSeq((v.ent,))), "raw: the entropy")
    else:
        bits = bits_of(ctx, v.ent)
        ens(ctx, "B04", bytes_eq(ctx, bs, BSeq((split(bits, len(v.ent) + 1),))), "entropy and checksum bits, left-padded to the entropy length plus one byte")


def pbkdf(m, pw):
    return split(hash_uf("PBKDF2_SHA512_2048_64", 512, m, lit(b"mnemonic") + pw), 64)


@unit("newseed39", "B05 X01 X02", SEED, pre="any text, any passphrase", replay="seed",
      post="PBKDF2-HMAC-SHA512 of the text with salt mnemonic+passphrase, 2048 iterations, 64 bytes")
def newseed39(ctx):
    m, pw = text_arg(ctx, "mnemonic"), text_arg(ctx, "passphrase")
    entry(ctx)
    r = call(ctx, SEED, m, pw)
    ens(ctx, "B05", bytes_eq(ctx, r, BSeq((pbkdf(m, pw),))), "PBKDF2 of exactly the given bytes")


@unit("seedchk", "B05 X01 X02", SEEDCHK + "," + SEEDHEX, uses=("decode",), pre="any text, any passphrase", replay="seed",
      post="the same seed (bytes, hex text) exactly when the mnemonic is valid, else an error and nothing", cost=10)
def seedchk(ctx):
    Words(ctx)
    v = Valid(ctx)
    pw = text_arg(ctx, "passphrase")
    want = BSeq((pbkdf(v.s, pw),))
    entry(ctx)
    r, e = call(ctx, SEEDCHK, v.s, pw)
    t, e2 = call(ctx, SEEDHEX, v.s, pw)
    ens(ctx, "B05", iff(errnil(ctx, e), v.ok), "bytes: an error exactly for an invalid mnemonic")
    ens(ctx, "B05", iff(errnil(ctx, e2), v.ok), "hex: an error exactly for an invalid mnemonic")
    if v.ok:
        ens(ctx, "B05", bytes_eq(ctx, r, want), "the seed of the mnemonic and passphrase")
        ens(ctx, "B05", text_eq(ctx, t, hexof(ctx, want.cells)), "its hex text")
    else:
        ens(ctx, "B05", len_is(ctx, r, 0), "no seed beside an error")
        ens(ctx, "B05", text_eq(ctx, t, lit(b"")), "no text beside an error")


# ------------------------------------------------------------------ fresh secrets
@unit("newentropy", "B08 X01 X02", ENTROPY, pre="any size", post="exactly the requested size, all from the system source; other sizes refused; an error when the source fails", replay="fresh")
def newentropy(ctx):
    b = z3.BitVec("bits", 64)
    ctx.inputs["bits"] = b
    n = next((n for n in SIZES if ctx.branch(simp(b == 8 * n))), None)
    entry(ctx)
    bs, e = call(ctx, ENTROPY, b if n is None else 8 * n)
    ok = errnil(ctx, e)
    if n is None:
        ens(ctx, "B08", bnot(zb(ok)), "every other size is refused")
        return
    if ctx.branch(zb(ok)) if isz(ok) else ok:
        rand_only(ctx, bs, n, "B08")
    else:
        ens(ctx, "B08", rand_failed(ctx), "an error only when the source fails")


def rand_failed(ctx):
    """some read of the random source failed on this path"""
    return bor(*[bnot(z3.Bool("rand_ok!%d" % i)) for i in range(ctx.hw.get("rand", 0))]) if ctx.hw.get("rand", 0) else False


COUNTS = dict(zip(tm.WORDCOUNTS, SIZES))


@unit("genmnemonic", "B08 X01 X02", GENMN, pre="any word count, any list of 2048 words", cost=60, replay="fresh",
      post="the mnemonic of entropy that comes from the system source, with the requested number of words; other counts refused")
def genmnemonic(ctx):
    Words(ctx)
    w = z3.BitVec("words", 8)
    ctx.inputs["words"] = w
    k = next((k for k in COUNTS if ctx.branch(simp(w == k))), None)
    entry(ctx)
    m, e = call(ctx, GENMN, w if k is None else k)
    ok = errnil(ctx, e)
    if k is None:
        ens(ctx, "B08", bnot(zb(ok)), "every other word count is refused")
        ens(ctx, "B08", text_eq(ctx, m, lit(b"")), "and yields no mnemonic")
        return
    if ctx.branch(zb(ok)) if isz(ok) else ok:
        n = COUNTS[k]
        f = uf("RAND", z3.BitVecSort(16), z3.BitVecSort(16), z3.BitVecSort(8))
        ent = tuple(f(z3.BitVecVal(ctx.hw.get("rand", 1) - 1, 16), z3.BitVecVal(i, 16)) for i in range(n))
        ens(ctx, "B08", text_eq(ctx, m, sentence(indexes(bits_of(ctx, ent)))), "the mnemonic of fresh entropy, with the requested number of words")
    else:
        ens(ctx, "B08", rand_failed(ctx), "an error only when the source fails")


# ------------------------------------------------------------------ switching the list
class IdxMap:
    """the reverse index of the first n entries of the new list"""

    def __init__(self, spec, n):
        self.spec, self.n = spec, n

    def __call__(self, ctx, k):
        k = ctx.norm(k)
        o = k.single
        if o is not None and o.kind == "L":
            j = o.args[-1]
            f = simp(z3.ULT(bv(j, 64), bv(self.n, 64)))
            return ite(f, j, 0, 64), f
        pos = uf("POS", BS, BV64)(k.bs())
        f = simp(z3.And(z3.ULT(pos, bv(self.n, 64)), self.spec.at(ctx, pos).bs() == k.bs()))
        return ite(f, pos, 0, 64), f


def idx_map_is(ctx, a, spec, n):
    """the map is the reverse index of the first n entries"""
    if isinstance(a, SymMap) and isinstance(a.lookup, IdxMap):
        m = a.lookup.n
    elif isinstance(a, SymMap) and a.name == "empty":
        m = 0
    elif isinstance(a, MapVal) and not a.d:
        return simp(bv(n, 64) == 0) if isz(n) else n == 0
    else:
        return False
    r = True
    for k, v in a.writes:
        o = ctx.norm(k).single
        if o is None or o.kind != "L":
            return False
        r = band(r, simp(bv(o.args[-1], 64) == bv(m, 64)), simp(bv(v, 64) == bv(m, 64)))
        m = ctx.addk(m, 1)
    return band(r, simp(bv(m, 64) == bv(n, 64)))


def idx_hint(spec):
    def h(ctx, kind, name, tid, entry):
        if kind != "obj" or not isinstance(entry, (MapVal, SymMap)):
            return []
        return [Cand("reverse index of the first n words", lambda c, n: SymMap(("idx", zkey(n)), IdxMap(spec, n)),
                     lambda c, a, n: idx_map_is(c, a, spec, n))]
    return h


@unit("setlist", "B07 X01 X02", ",".join((SETLIST, GETLIST, GETIDX)), pre="any list of distinct texts, of any length, whatever list was active", replay="setlist",
      post="the active list is that list; looking up its i-th word gives i; every other text is absent")
def setlist(ctx):
    Words(ctx)
    st = ctx.prog.bystr["string"]
    spec = SpecSeq(("newlist",), lambda c, j: op("L", "newlist", bv(j, 64) if isz(j) else z3.BitVecVal(j, 64)))
    m = z3.BitVec("length", 64)
    ctx.inputs["length"] = m
    ctx.assume(z3.ULE(m, MAXLEN))
    sl = SliceV(ctx.alloc(SymSeq(spec, m), ("arr", st)), (), 0, m, None)
    ctx.unroll = 3
    ctx.loop_hints = idx_hint(spec)
    entry(ctx)
    ws = {gl(ctx, B39 + ".wordList"), gl(ctx, B39 + ".wordMap")}
    ctx.may_write = lambda c, oid, path: oid in ws
    call(ctx, SETLIST, sl)
    ctx.may_write = None
    g = call(ctx, GETLIST, shared=True)
    ens(ctx, "B07", len_is(ctx, g, m), "the active list has the length of the new one")
    j = z3.BitVec("J", 64)
    ctx.inputs["J"] = j
    if ctx.branch(simp(z3.ULT(j, m))):
        x = ctx.load(Ptr(g.oid, g.path + (ctx.addk(g.off, j),)))
        ens(ctx, "B07", text_eq(ctx, x, spec.at(ctx, j)), "its entries are those of the new list")
        i, ok = call(ctx, GETIDX, spec.at(ctx, j))
        ens(ctx, "B07", ok, "every word of the list is found")
        ens(ctx, "B07", eqv(i, j, 64), "the index of the i-th word is i")
    s = text_arg(ctx, "text")
    i, ok = call(ctx, GETIDX, s)
    if ctx.branch(zb(ok)) if isz(ok) else ok:
        ens(ctx, "B07", simp(z3.ULT(bv(i, 64), m)), "a text that is found has an index in the list")
        ens(ctx, "B07", simp(spec.at(ctx, bv(i, 64)).bs() == s.bs()), "a text that is found is the word at that index")
