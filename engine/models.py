"""Trusted contracts of the dependencies (standard library, hashes, curve,
base58): what a call of each external function returns, in terms of
uninterpreted mathematical functions where the function is not computable here."""
import binascii
import hashlib
import re
import z3
from .terms import *
from . import dfa
from .execu import *

MODELS = {}
DOC = {}       # name -> one line of the assumed contract

P256K = 2**256 - 2**32 - 977
NK = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
GXC = 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798
GYC = 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8
BV256 = z3.BitVecSort(256)


def model(*names, doc=""):
    def d(f):
        for n in names:
            MODELS[n] = f
            DOC[n] = doc
        return f
    return d


# ------------------------------------------------------------------ helpers
def err(ctx, text="error"):
    o = ctx.alloc(lit(text) if isinstance(text, str) else text, None)
    return IfaceV("error", Ptr(o))


def any_err(ctx, text="error"):
    """a non-nil error of which nothing else is known: it may be any error variable,
    wrap any other, have any text and any type (errors of assumed models and contracts)"""
    return IfaceV("anyerr", err(ctx, op("atom", ctx.fresh("errtext of " + text, "bool").decl().name())).val)


def seqof(ctx, v):
    """byte string of a []byte or string value"""
    if isinstance(v, BSeq):
        return ctx.norm(v)
    if isinstance(v, SliceV):
        return ctx.slice_seq(v)
    raise Unsupported("bytes of %r" % (v,))


def hash_uf(name, nbits, *seqs):
    f = uf(name, *([BS] * len(seqs)), z3.BitVecSort(nbits))
    return f(*[s.bs() for s in seqs])


def digest(name, *seqs):
    """cells of a hash: computed when the input is concrete, uninterpreted otherwise"""
    cs = [s.concrete for s in seqs]
    if name == "SHA256":
        if cs[0] is not None and len(cs[0]) > 100000:
            return tuple(hashlib.sha256(cs[0]).digest())
        return split(hash_uf("SHA256", 256, *seqs), 32)
    n = {"SHA512": 64, "RIPEMD160": 20, "KECCAK256": 32, "SHA3_256": 32, "HMAC_SHA512": 64, "HMAC_SHA256": 32, "SHA1": 20, "SHA224": 28, "SHA384": 48, "MD5": 16}[name]
    return split(hash_uf(name, n * 8, *seqs), n)


# ------------------------------------------------------------------ errors, fmt
@model("errors.New", doc="returns a fresh non-nil error with that text")
def errors_new(ctx, a, site):
    return err(ctx, a[0])


@model("fmt.Errorf", doc="returns a fresh non-nil error")
def fmt_errorf(ctx, a, site):
    e = err(ctx, op("fmt", ctx.fresh("fmt", "bool").decl().name()))
    c = ctx.norm(a[0]).concrete
    if c is None:
        raise Unsupported("format that is not a constant")
    if b"%w" in c:
        verbs = re.findall(rb"%[#+\- 0]*[0-9]*(?:\.[0-9]+)?(.)", c)
        args = fmt_args(ctx, a[1])
        ws = tuple(x for v, x in zip([v for v in verbs if v != b"%"], args) if v == b"w" and isinstance(x, (IfaceV, IteV)))
        if ws:
            ctx.heap[e.val.oid] = (ctx.heap[e.val.oid],) + ws
    return e


@model("invoke Error")
def invoke_error(ctx, recv, a, site):
    if recv.tid in ("error", "anyerr"):
        t = ctx.heap[recv.val.oid]
        if isinstance(t, tuple):
            t = t[0]
        return t if isinstance(t, BSeq) else op("errtext", recv.val.oid)
    return NotImplemented


@model("errors.Is", doc="the error itself or one it wraps (fmt.Errorf with %w)")
def errors_is(ctx, a, site):
    return err_is(ctx, a[0], a[1])


def err_is(ctx, e, t):
    if isinstance(e, IteV):
        return bor(band(e.c, err_is(ctx, e.a, t)), band(bnot(e.c), err_is(ctx, e.b, t)))
    r = ctx.val_eq(e, t)
    if isinstance(e, IfaceV) and e.tid == "error":
        c = ctx.heap[e.val.oid]
        if isinstance(c, tuple):
            for w in c[1:]:
                r = bor(r, err_is(ctx, w, t))
    elif isinstance(e, IfaceV) and e.tid == "anyerr":
        if isinstance(t, IfaceV):
            r = bor(r, ctx.unknown_id(e, t, "wraps"))
    elif isinstance(e, IfaceV):
        raise Unsupported("errors.Is on an error type of the code")
    return r


def fmt_args(ctx, sl):
    return list(ctx.slice_vals(sl)) if sl.oid is not None else []


def int_text(ctx, v, tid):
    ii = ctx.prog.int_info(tid)
    if not isz(v):
        if ii[1] and v >> (ii[0] - 1):
            v -= 1 << ii[0]
        return lit(str(v))
    x = bv(v, ii[0])
    if ii[1]:
        if not ctx.branch(simp(x >= 0)):
            return op("sdec", x)
    return op("dec", bv(x, 64))


def sprint_value(ctx, v, verb, flags):
    prog = ctx.prog
    if isinstance(v, IteV):
        if ctx.branch(v.c):
            return sprint_value(ctx, v.a, verb, flags)
        return sprint_value(ctx, v.b, verb, flags)
    if v is None:
        return lit("<nil>")
    tid, x = v.tid, v.val
    if not isinstance(tid, int):
        return op("fmt", ctx.fresh("fmt", "bool").decl().name())
    t = prog.types[tid]
    ii = prog.int_info(tid)
    # Stringer / error
    if verb in "vs" and t.get("named") and not ii:
        nm = "(%s).String" % t["str"]
        if nm in prog.funcs:
            return ctx.call(nm, [x])
    if verb in "sv" and isinstance(x, BSeq):
        return pad_text(ctx, x, flags)
    if verb == "q" and isinstance(x, BSeq) and x.concrete is not None:
        return lit('"' + x.concrete.decode("utf8", "replace") + '"')
    if ii and verb in "dv":
        nm = "(%s).String" % t["str"]
        if verb == "v" and nm in prog.funcs:
            return ctx.call(nm, [x])
        return pad_text(ctx, int_text(ctx, x, tid), flags)
    if ii and verb in "xX" and not isz(x):
        s = "%x" % x
        return pad_text(ctx, lit(s.upper() if verb == "X" else s), flags)
    if ii and verb == "x" and flags == "02" and ii[0] == 8:
        return op("hex", BSeq(((x,),)))
    if ii and verb == "x":
        n = ii[0] // 4
        if flags == "0%d" % n:
            return op("hex", BSeq((split(bv(x, ii[0]), n // 2),)))
    if ii and verb == "c":
        return ctx.op_Convert(None, {}) if False else BSeq(((bv(x, 8),),))
    if verb in "xX":
        seq = None
        if t["kind"] == "array" and prog.int_info(t["elem"]) == (8, False):
            seq = BSeq((tuple(x),))
        elif prog.is_byte_slice(tid):
            seq = ctx.slice_seq(x)
        elif isinstance(x, BSeq):
            seq = x
        if seq is not None and (not flags or flags.isdigit() and int(flags) <= 512):
            r = pad_text(ctx, hexenc(ctx, seq), flags)
            if verb == "X":
                raise Unsupported("upper-case hex")
            return r
    if verb == "s" and prog.is_byte_slice(tid):
        return ctx.slice_seq(x)
    if ii and isz(x) and verb in "xXobdq":
        # some text, a function of the number
        return op("fmt", "%s%s%s" % (flags, verb, z3.simplify(bv(x, ii[0])).sexpr()))
    if isinstance(x, bool) and verb in "tv":
        return lit("true" if x else "false")
    raise Unsupported("fmt verb %%%s%s of %s" % (flags, verb, t["str"]))


def pad_text(ctx, s, flags):
    if not flags:
        return s
    c = s.concrete
    ascii = c is None and all(p.kind in ("hex", "dec", "sdec") if isinstance(p, Op) else all(not isz(x) and x < 128 for x in p) for p in s.parts)
    if c is None and not ascii:
        raise Unsupported("padded formatting")
    zero = flags.startswith("0")
    w = int(flags.lstrip("0") or 0) if flags.lstrip("0").isdigit() or not flags.lstrip("0") else None
    if w is None:
        raise Unsupported("format flags " + flags)
    if c is None:
        n = s.length
        if isz(n):
            n = ctx.concretize(n, 100)
        if n < w and zero and any(isinstance(p, Op) and p.kind == "sdec" for p in s.parts):
            raise Unsupported("padded formatting")
        return BSeq(((48 if zero else 32,) * max(0, w - n), s))
    txt = c.decode("latin1")
    return lit(txt.rjust(w, "0" if zero else " ").encode("latin1"))


def sprintf(ctx, fmt, args):
    f = fmt.concrete
    if f is None:
        raise Unsupported("format string")
    out = []
    i = 0
    k = 0
    n = len(f)
    while i < n:
        if f[i] != 37:
            j = f.find(b"%", i)
            if j < 0:
                j = n
            out.append(tuple(f[i:j]))
            i = j
            continue
        j = i + 1
        while j < n and chr(f[j]) in "0123456789#+- .":
            j += 1
        verb = chr(f[j])
        flags = f[i + 1:j].decode()
        if verb == "%":
            out.append((37,))
        else:
            if k >= len(args):
                raise Unsupported("format arguments")
            out.append(sprint_value(ctx, args[k], verb, flags))
            k += 1
        i = j + 1
    return BSeq(out)


@model("fmt.Sprintf", doc="formats its arguments (verbs s v d x q c %)")
def fmt_sprintf(ctx, a, site):
    return sprintf(ctx, ctx.norm(a[0]), fmt_args(ctx, a[1]))


@model("fmt.Sprint", doc="concatenates the default formats of its arguments")
def fmt_sprint(ctx, a, site):
    args = fmt_args(ctx, a[0])
    out = []
    prev = None
    for v in args:
        isstr = isinstance(v, IfaceV) and isinstance(v.val, BSeq)
        if prev is not None and not prev and not isstr:
            out.append((32,))
        out.append(sprint_value(ctx, v, "v", ""))
        prev = isstr
    return BSeq(out)


@model("fmt.Fprintf", doc="writes the formatted text")
def fmt_fprintf(ctx, a, site):
    s = sprintf(ctx, ctx.norm(a[1]), fmt_args(ctx, a[2]))
    return write_to(ctx, a[0], s)


# ------------------------------------------------------------------ hex
def hexenc(ctx, seq):
    seq = ctx.norm(seq)
    c = seq.concrete
    if c is not None:
        return lit(c.hex())
    return op("hex", seq)


@model("encoding/hex.EncodeToString", doc="two lower-case hex digits per byte")
def hex_encode(ctx, a, site):
    return hexenc(ctx, seqof(ctx, a[0]))


HEXL = dfa.full(r"([0-9a-fA-F][0-9a-fA-F])*")


def unhex(ctx, s):
    """bytes denoted by opaque hex text, None if it is not hex"""
    if not ctx.in_lang(s, HEXL):
        return None
    q = op("unhex", s)
    k = ("unhex", q.key)
    if k not in ctx.done:
        ctx.done.add(k)
        ctx.fact(z3.ULE(bv(q.length, 64), MAXLEN))
    ctx.assume(simp(bv(s.length, 64) == bv(q.length, 64) * 2))
    return q


@model("encoding/hex.DecodeString", doc="inverse of EncodeToString; error unless an even number of hex digits")
def hex_decode(ctx, a, site):
    s = ctx.norm(a[0])
    if s.parts and all(isinstance(p, Op) and p.kind == "hex" or isinstance(p, tuple) for p in s.parts):
        out = []
        for p in s.parts:
            if isinstance(p, tuple):
                if any(isz(x) for x in p) or len(p) % 2 or not dfa.full(r"[0-9a-fA-F]*").matches(bytes(p)):
                    break
                out.append(tuple(bytes.fromhex(bytes(p).decode())))
            else:
                out.append(p.args[0])
        else:
            return Tup((ctx.bytes_slice(BSeq(out)), None))
    c = s.concrete
    if c is not None:
        if len(c) % 2 == 0 and re.fullmatch(rb"[0-9a-fA-F]*", c):
            return Tup((ctx.bytes_slice(lit(bytes.fromhex(c.decode()))), None))
        return Tup((ctx.bytes_slice(op("unhexpart", s)), any_err(ctx)))
    q = unhex(ctx, s)
    if q is not None:
        return Tup((ctx.bytes_slice(q), None))
    return Tup((ctx.bytes_slice(op("unhexpart", s)), any_err(ctx)))


# ------------------------------------------------------------------ hashes
HASHNEW = {"crypto/sha512.New": "SHA512", "crypto/sha256.New": "SHA256", "golang.org/x/crypto/ripemd160.New": "RIPEMD160",
           "golang.org/x/crypto/sha3.NewLegacyKeccak256": "KECCAK256", "golang.org/x/crypto/sha3.New256": "SHA3_256",
           "crypto/sha512.New384": "SHA384", "crypto/sha256.New224": "SHA224", "crypto/sha1.New": "SHA1", "crypto/md5.New": "MD5"}


def _hn(alg):
    def f(ctx, a, site):
        return IfaceV("hash", Ptr(ctx.alloc(HashObj(alg, None, EMPTYB), None)))
    return f


for _n, _alg in HASHNEW.items():
    MODELS[_n] = _hn(_alg)
    DOC[_n] = "a hash object computing " + _alg


@model("crypto/hmac.New", doc="HMAC with the given hash and key (uninterpreted function of key and data)")
def hmac_new(ctx, a, site):
    alg = hash_alg(a[0])
    return IfaceV("hash", Ptr(ctx.alloc(HashObj("HMAC_" + alg, seqof(ctx, a[1]), EMPTYB), None)))


def hash_alg(f):
    if not isinstance(f, FuncV) or f.name not in HASHNEW:
        raise Unsupported("hash constructor %r" % (f,))
    return HASHNEW[f.name]


def hash_sum(ctx, h):
    if h.alg.startswith("HMAC"):
        return digest(h.alg, h.key, h.data)
    return digest(h.alg, h.data)


@model("invoke Write")
def invoke_write(ctx, recv, a, site):
    return write_to(ctx, recv, seqof(ctx, a[0]))


@model("invoke WriteString")
def invoke_writestring(ctx, recv, a, site):
    return write_to(ctx, recv, seqof(ctx, a[0]))


@model("invoke WriteByte")
def invoke_writebyte(ctx, recv, a, site):
    write_to(ctx, recv, BSeq(((a[0],),)))
    return None


def write_to(ctx, w, seq):
    if not isinstance(w, IfaceV) or not isinstance(w.val, Ptr):
        raise Unsupported("write to %r" % (w,))
    o = w.val.oid
    h = ctx.load(w.val)
    n = ctx.norm(seq).length
    if isinstance(h, HashObj):
        ctx.check_write(o, ())
        ctx.heap[o] = HashObj(h.alg, h.key, ctx.norm(h.data) + ctx.norm(seq))
        return Tup((n, None))
    if isinstance(h, Buf):
        ctx.store(w.val, Buf(ctx.norm(h.seq) + ctx.norm(seq)))
        return Tup((n, None))
    raise Unsupported("write to %r" % (h,))


@model("io.WriteString", doc="writes all bytes of the string; no error for hashes and buffers")
def io_writestring(ctx, a, site):
    return write_to(ctx, a[0], seqof(ctx, a[1]))


@model("invoke Sum")
def invoke_sum(ctx, recv, a, site):
    h = ctx.load(recv.val)
    if not isinstance(h, HashObj):
        return NotImplemented
    cells = hash_sum(ctx, h)
    pre = a[0]
    if pre.oid is None or (not isz(pre.len) and pre.len == 0 and pre.cap == 0):
        return ctx.bytes_slice(BSeq((cells,)))
    e = ctx.prog.bystr["uint8"] if "uint8" in ctx.prog.bystr else ctx.prog.bystr["byte"]
    return ctx.append(pre, BSeq((cells,)), e)


@model("invoke Reset")
def invoke_reset(ctx, recv, a, site):
    h = ctx.load(recv.val)
    if isinstance(h, HashObj):
        ctx.heap[recv.val.oid] = HashObj(h.alg, h.key, EMPTYB)
        return None
    return NotImplemented


@model("invoke Size")
def invoke_size(ctx, recv, a, site):
    h = ctx.load(recv.val)
    if isinstance(h, HashObj):
        return len(hash_sum(ctx, h))
    return NotImplemented


for _n, _alg in {"crypto/sha256.Sum256": "SHA256", "crypto/sha512.Sum512": "SHA512", "golang.org/x/crypto/sha3.Sum256": "SHA3_256", "crypto/sha256.Sum224": "SHA224"}.items():
    def _sum(ctx, a, site, alg=_alg):
        return digest(alg, seqof(ctx, a[0]))
    MODELS[_n] = _sum
    DOC[_n] = _alg + ", an uninterpreted function of its input"


@model("golang.org/x/crypto/pbkdf2.Key", doc="PBKDF2 with the given hash: an uninterpreted function of password, salt, iterations and length")
def pbkdf2(ctx, a, site):
    pw, salt, it, ln, h = a
    alg = hash_alg(h)
    it, ln = ctx.concretize(it), ctx.concretize(ln)
    if ln > 4096 or it < 1:
        raise Unsupported("pbkdf2 parameters")
    pw, salt = seqof(ctx, pw), seqof(ctx, salt)
    return ctx.bytes_slice(BSeq((split(hash_uf("PBKDF2_%s_%d_%d" % (alg, it, ln), 8 * ln, pw, salt), ln),)))


@model("crypto/hmac.Equal", "bytes.Equal", "crypto/subtle.constantTimeEq", doc="equality of two byte slices")
def bytes_equal(ctx, a, site):
    return ctx.seq_eq(seqof(ctx, a[0]), seqof(ctx, a[1]))


@model("crypto/subtle.ConstantTimeCompare", doc="1 if equal, else 0")
def subtle_cmp(ctx, a, site):
    return ite(ctx.seq_eq(seqof(ctx, a[0]), seqof(ctx, a[1])), 1, 0, 64)


@model("hash/crc32.ChecksumIEEE", doc="CRC-32")
def crc32(ctx, a, site):
    c = seqof(ctx, a[0]).concrete
    if c is None:
        raise Unsupported("crc32 of symbolic data")
    return binascii.crc32(c)


# ------------------------------------------------------------------ randomness
def rand_fill(ctx, sl):
    """fork: success fills sl with bytes of the random source; failure"""
    n = ctx.concretize(sl.len, 300, "random length")
    k = ctx.hw.get("rand", 0)
    ctx.hw["rand"] = k + 1
    ok = ctx.branch(z3.Bool("rand_ok!%d" % k))
    f = uf("RAND", z3.BitVecSort(16), z3.BitVecSort(16), z3.BitVecSort(8))
    cells = [f(z3.BitVecVal(k, 16), z3.BitVecVal(i, 16)) for i in range(n)]
    if ok:
        for i, c in enumerate(cells):
            ctx.store(Ptr(sl.oid, sl.path + (ctx.addk(sl.off, i),)), c)
        return n, None
    # partial, unspecified content
    for i in range(n):
        ctx.store(Ptr(sl.oid, sl.path + (ctx.addk(sl.off, i),)), ctx.fresh("junk", 8))
    m = ctx.fresh("randn", 64)
    ctx.assume(z3.ULE(m, n))
    return m, any_err(ctx, "rand")


@model("crypto/rand.Read", doc="either fills the whole slice from the system source, or returns an error")
def rand_read(ctx, a, site):
    if a[0].oid is None:
        return Tup((0, None))
    return Tup(rand_fill(ctx, a[0]))


@model("global crypto/rand.Reader")
def rand_reader(ctx):
    return IfaceV("randreader", None)


@model("io.ReadFull", doc="as rand.Read for the system random source")
def io_readfull(ctx, a, site):
    if isinstance(a[0], IfaceV) and a[0].tid == "randreader":
        if a[1].oid is None:
            return Tup((0, None))
        return Tup(rand_fill(ctx, a[1]))
    raise Unsupported("io.ReadFull")


@model("invoke Read", doc="an io.Reader: may give fewer bytes than asked for, with or without an error")
def invoke_read(ctx, recv, a, site):
    if recv.tid == "randreader":
        sl = a[0]
        if sl.oid is None:
            return Tup((0, None))
        n, e = rand_fill(ctx, sl)
        if e is None and not isz(n) and n > 0 and ctx.branch(z3.Bool("rand_short!%d" % ctx.hw["rand"])):
            for i in range(n):
                ctx.store(Ptr(sl.oid, sl.path + (ctx.addk(sl.off, i),)), ctx.fresh("junk", 8))
            n = ctx.fresh("randn", 64)
            ctx.assume(z3.ULT(n, a[0].len))
        return Tup((n, e))
    return NotImplemented


# ------------------------------------------------------------------ bytes
@model("bytes.Compare", doc="lexicographic comparison")
def bytes_compare(ctx, a, site):
    x, y = seqof(ctx, a[0]), seqof(ctx, a[1])
    cx, cy = ctx.cells_of(x), ctx.cells_of(y)
    lt = ctx.cells_less(cx, cy)
    gt = ctx.cells_less(cy, cx)
    return ite(lt, (1 << 64) - 1, ite(gt, 1, 0, 64), 64)


@model("bytes.Repeat", doc="count copies")
def bytes_repeat(ctx, a, site):
    return ctx.bytes_slice(repeat(ctx, seqof(ctx, a[0]), a[1]))


@model("strings.Repeat", doc="count copies")
def strings_repeat(ctx, a, site):
    return repeat(ctx, ctx.norm(a[0]), a[1])


def repeat(ctx, s, n):
    ctx.require(simp(bv(n, 64) >= 0) if isz(n) else n < 1 << 63, "Repeat: count not negative", ("panic",))
    n = ctx.concretize(n, 600)
    return BSeq(s.parts * n)


@model("bytes.Clone", doc="a copy")
def bytes_clone(ctx, a, site):
    if a[0].oid is None:
        return NILS
    return ctx.bytes_slice(seqof(ctx, a[0]))


@model("bytes.Join", doc="concatenation with separators")
def bytes_join(ctx, a, site):
    sep = seqof(ctx, a[1])
    out = []
    for i, v in enumerate(ctx.slice_vals(a[0])):
        if i:
            out.append(sep)
        out.append(seqof(ctx, v))
    return ctx.bytes_slice(BSeq(out))


def buf_load(ctx, p):
    b = ctx.load(p)
    if not isinstance(b, Buf):
        raise Unsupported("buffer")
    return b


def buf_add(ctx, p, seq):
    b = buf_load(ctx, p)
    ctx.store(p, Buf(ctx.norm(b.seq) + ctx.norm(seq)))


for _t in ("bytes.Buffer", "strings.Builder"):
    def _wb(ctx, a, site):
        buf_add(ctx, a[0], BSeq(((a[1],),)))
        return None

    def _w(ctx, a, site):
        s = seqof(ctx, a[1])
        buf_add(ctx, a[0], s)
        return Tup((s.length, None))

    def _s(ctx, a, site):
        return ctx.norm(buf_load(ctx, a[0]).seq)

    def _l(ctx, a, site):
        return ctx.norm(buf_load(ctx, a[0]).seq).length

    def _r(ctx, a, site):
        ctx.store(a[0], Buf())

    def _g(ctx, a, site):
        return None

    def _rune(ctx, a, site):
        r = a[1]
        if isz(r):
            if not ctx.branch(simp(z3.ULT(bv(r, 32), 128))):
                raise Unsupported("WriteRune")
            buf_add(ctx, a[0], BSeq(((simp(z3.Extract(7, 0, bv(r, 32))),),)))
            return Tup((1, None))
        s = lit(chr(r).encode("utf8"))
        buf_add(ctx, a[0], s)
        return Tup((s.length, None))
    for _m, _f in (("WriteByte", _wb), ("Write", _w), ("WriteString", _w), ("String", _s), ("Len", _l), ("Reset", _r), ("Grow", _g), ("WriteRune", _rune)):
        MODELS["(*%s).%s" % (_t, _m)] = _f
        DOC["(*%s).%s" % (_t, _m)] = "append-only byte buffer"


@model("(*bytes.Buffer).Bytes", doc="the bytes written so far (treated as a copy)")
def buf_bytes(ctx, a, site):
    return ctx.bytes_slice(ctx.norm(buf_load(ctx, a[0]).seq))


@model("bytes.NewBuffer", doc="buffer holding the given bytes")
def new_buffer(ctx, a, site):
    t = [x["id"] for x in ctx.prog.types if x.get("named") == "bytes.Buffer"]
    return Ptr(ctx.alloc(Buf(seqof(ctx, a[0]) if a[0].oid is not None else EMPTYB), t[0] if t else None))


# ------------------------------------------------------------------ math/big
def bigp(ctx, v):
    if v is None:
        ctx.require(False, "no nil *big.Int", ("panic",))
        raise PathEnd()
    b = ctx.load(v)
    if not isinstance(b, BigVal):
        raise Unsupported("big.Int")
    return b


def bigtid(ctx):
    t = getattr(ctx.prog, "_bigtid", None)
    if t is None:
        t = [x["id"] for x in ctx.prog.types if x.get("named") == "math/big.Int"]
        t = ctx.prog._bigtid = t[0] if t else -1
    return t


def newbig(ctx, v):
    return Ptr(ctx.alloc(v if isinstance(v, BigVal) else BigVal(v), bigtid(ctx)))


def setbig(ctx, z, v):
    if z is None:
        ctx.require(False, "no nil *big.Int", ("panic",))
        raise PathEnd()
    ctx.store(z, v if isinstance(v, BigVal) else BigVal(v))
    return z


def signed64(ctx, v):
    if not isz(v):
        return v - (1 << 64) if v >> 63 else v
    if ctx.branch(simp(bv(v, 64) >= 0)):
        return v
    raise Unsupported("negative symbolic big.Int")


@model("math/big.NewInt", doc="mathematical integer")
def big_newint(ctx, a, site):
    return newbig(ctx, signed64(ctx, a[0]))


def bigm(name, doc="mathematical integer arithmetic"):
    return model("(*math/big.Int)." + name, doc=doc)


def bytes_to_big(ctx, seq):
    seq = ctx.norm(seq)
    parts = list(seq.parts)
    while parts and isinstance(parts[0], tuple) and not any(isz(x) or x for x in parts[0]):
        parts.pop(0)
    if len(parts) == 1 and isinstance(parts[0], Op) and parts[0].kind == "be":
        return parts[0].args[0]
    if not parts:
        return BigVal(0)
    c = ctx.cells_of(seq)
    return BigVal(cat(c))


@bigm("SetBytes")
def big_setbytes(ctx, a, site):
    return setbig(ctx, a[0], bytes_to_big(ctx, seqof(ctx, a[1])))


@bigm("Bytes")
def big_bytes(ctx, a, site):
    b = bigp(ctx, a[0])
    return ctx.bytes_slice(big_be(ctx, b))


def big_be(ctx, b):
    c = b.concrete
    if c is not None:
        c = abs(c)
        return lit(c.to_bytes((c.bit_length() + 7) // 8, "big"))
    b = BigVal(b.tobv_min())
    if b.concrete is not None:
        return big_be(ctx, b)
    w = b.width
    if w % 8 == 1 and w > 8 and ctx.entails(simp(z3.Extract(w - 1, w - 1, b.t) == 0)):
        # a carry that the path excludes
        return op("be", BigVal(z3.Extract(w - 2, 0, b.t)))
    return op("be", b)


@bigm("FillBytes", "big-endian, zero padded to the buffer; panics if it does not fit")
def big_fillbytes(ctx, a, site):
    b = bigp(ctx, a[0])
    sl = a[1]
    n = ctx.concretize(sl.len)
    t = b.tobv_min()
    if not isz(t):
        ok = abs(t) < (1 << (8 * n))
        t = abs(t)
    elif t.size() <= 8 * n:
        ok = True
    else:
        ok = simp(z3.Extract(t.size() - 1, 8 * n, t) == 0)
    ctx.require(ok, "FillBytes: value fits", ("panic",), ctx.curpos())
    if n:
        for i, c in enumerate(split(t if not isz(t) else bv(t, 8 * n), n)):
            ctx.store(Ptr(sl.oid, sl.path + (ctx.addk(sl.off, i),)), c)
    return sl


def bin2(f):
    def g(ctx, a, site):
        x, y = bigp(ctx, a[1]), bigp(ctx, a[2])
        return setbig(ctx, a[0], f(ctx, x, y))
    return g


def p2(n):
    return n > 0 and n & (n - 1) == 0


def b_mul(ctx, x, y):
    for u, v in ((x, y), (y, x)):
        c = v.concrete
        if c is not None:
            if u.concrete is not None:
                return BigVal(u.concrete * c)
            if c == 0:
                return BigVal(0)
            if c == 1:
                return u
            if u.poly is None and p2(c):
                return BigVal(z3.Concat(u.t, z3.BitVecVal(0, c.bit_length() - 1)))
            if u.poly is None and c > 0:
                w = u.width + c.bit_length()
                return BigVal(bv(u.t, w) * z3.BitVecVal(c, w))
    return BigVal(poly=poly_mul(x.aspoly(), y.aspoly()))


def b_or(ctx, x, y):
    if x.concrete is not None and y.concrete is not None:
        return BigVal(x.concrete | y.concrete)
    w = max(x.width, y.width)
    return BigVal(x.tobv(w) | y.tobv(w))


def b_xor(ctx, x, y):
    if x.concrete is not None and y.concrete is not None:
        return BigVal(x.concrete ^ y.concrete)
    w = max(x.width, y.width)
    return BigVal(x.tobv(w) ^ y.tobv(w))


def b_and(ctx, x, y):
    if x.concrete is not None and y.concrete is not None:
        return BigVal(x.concrete & y.concrete)
    for u, v in ((x, y), (y, x)):
        c = v.concrete
        if c is not None and c >= 0:
            if c == 0:
                return BigVal(0)
            if p2(c + 1):
                n = c.bit_length()
                t = u.tobv()
                return BigVal(z3.Extract(n - 1, 0, t)) if t.size() > n else u
    w = min(x.width, y.width)
    return BigVal(bv(x.tobv(), w) & bv(y.tobv(), w))


def b_andnot(ctx, x, y):
    if x.concrete is not None and y.concrete is not None:
        return BigVal(x.concrete & ~y.concrete)
    w = max(x.width, y.width)
    return BigVal(x.tobv(w) & ~y.tobv(w))


def b_add(ctx, x, y):
    if x.poly is not None or y.poly is not None:
        return BigVal(poly=poly_add(x.aspoly(), y.aspoly()))
    if x.concrete is not None and y.concrete is not None:
        return BigVal(x.concrete + y.concrete)
    for u, v in ((x, y), (y, x)):
        if v.concrete is not None and v.concrete < 0:
            return b_sub(ctx, u, BigVal(-v.concrete))
    if x.concrete == 0:
        return y
    if y.concrete == 0:
        return x
    w = max(x.width, y.width) + 1
    a, b = x.tobv(w), y.tobv(w)
    if a.get_id() > b.get_id():
        a, b = b, a
    return BigVal(a + b)


def b_sub(ctx, x, y):
    if x.concrete is not None and y.concrete is not None:
        return BigVal(x.concrete - y.concrete)
    if x.poly is not None or y.poly is not None:
        return BigVal(poly=poly_add(x.aspoly(), y.aspoly(), -1))
    if y.concrete is not None and y.concrete < 0:
        return b_add(ctx, x, BigVal(-y.concrete))
    w = max(x.width, y.width)
    if ctx.branch(simp(z3.UGE(x.tobv(w), y.tobv(w)))):
        return BigVal(x.tobv(w) - y.tobv(w))
    raise Unsupported("big.Int subtraction may be negative")


def zero_div(ctx, y):
    if y.concrete is not None:
        if y.concrete == 0:
            ctx.require(False, "no division by zero (big.Int)", ("panic",), ctx.curpos())
            raise PathEnd()
    else:
        ctx.require(simp(y.tobv() != 0), "no division by zero (big.Int)", ("panic",), ctx.curpos())


def b_div(ctx, x, y):
    zero_div(ctx, y)
    cx, cy = x.concrete, y.concrete
    if cx is not None and cy is not None:
        if cx < 0 or cy < 0:
            q = cx // cy
            if cx - q * cy < 0:
                q += 1
            return BigVal(q)
        return BigVal(cx // cy)
    if cy is not None and p2(cy):
        n = cy.bit_length() - 1
        t = x.tobv()
        if n == 0:
            return x
        if t.size() <= n:
            return BigVal(0)
        return BigVal(z3.Extract(t.size() - 1, n, t))
    w = max(x.width, y.width)
    return BigVal(z3.UDiv(x.tobv(w), y.tobv(w)))


def b_quo(ctx, x, y):
    cx, cy = x.concrete, y.concrete
    if cx is not None and cy is not None and cy != 0 and (cx < 0 or cy < 0):
        q = abs(cx) // abs(cy)
        return BigVal(q if (cx < 0) == (cy < 0) else -q)
    return b_div(ctx, x, y)


def b_rem(ctx, x, y):
    cx, cy = x.concrete, y.concrete
    if cx is not None and cy is not None and cy != 0 and (cx < 0 or cy < 0):
        r = abs(cx) % abs(cy)
        return BigVal(-r if cx < 0 else r)
    return b_mod(ctx, x, y)


def modn(t, N):
    """t mod N for t of known width and a few multiples of N"""
    w = t.size()
    q = ((1 << w) - 1) // N
    nw = N.bit_length()
    if q == 0:
        return t
    if q > 4:
        return None
    r = t
    for k in range(1, q + 1):
        r = z3.If(z3.UGE(t, z3.BitVecVal(k * N, w)), t - z3.BitVecVal(k * N, w), r)
    r = simp(z3.Extract(nw - 1, 0, r)) if w > nw else simp(r)
    if not isz(r):
        return z3.BitVecVal(r, nw)
    # named, so that terms over it stay small
    k = zkey(r)
    v = MODN.get(k)
    if v is None:
        v = MODN[k] = z3.BitVec("mod!%d" % len(MODN), nw)
        NAMED[v.get_id()] = r
        Op.facts.append(v == r)
        Op.facts.append(z3.ULT(v, z3.BitVecVal(N, nw)))
    return v


MODN = {}


def b_mod(ctx, x, y):
    zero_div(ctx, y)
    cx, cy = x.concrete, y.concrete
    if cx is not None and cy is not None:
        return BigVal(cx % abs(cy))
    if cy is not None and cy > 0:
        if x.poly is not None:
            return polymod(ctx, x, cy)
        if p2(cy):
            n = cy.bit_length() - 1
            t = x.tobv()
            if n == 0:
                return BigVal(0)
            return BigVal(z3.Extract(n - 1, 0, t)) if t.size() > n else x
        r = modn(x.tobv(), cy)
        if r is not None:
            return BigVal(r)
    if x.poly is not None:
        raise Unsupported("polynomial modulus")
    w = max(x.width, y.width)
    return BigVal(z3.URem(x.tobv(w), y.tobv(w)))


def polymod(ctx, x, m):
    k = "POLYMOD_%x" % (hash((x.key, m)) & 0xffffffffffff)
    v = z3.BitVec(k, m.bit_length())
    ctx.fact(z3.ULT(v, z3.BitVecVal(m, m.bit_length())))
    r = BigVal(v)
    PMOD[r.key] = (x, m)
    return r


PMOD = {}

for _n, _f in (("Mul", b_mul), ("Or", b_or), ("And", b_and), ("Add", b_add), ("Sub", b_sub), ("Div", b_div), ("Quo", b_quo),
               ("Mod", b_mod), ("Rem", b_rem), ("Xor", b_xor), ("AndNot", b_andnot)):
    MODELS["(*math/big.Int)." + _n] = bin2(_f)
    DOC["(*math/big.Int)." + _n] = "exact integer arithmetic"


@bigm("DivMod")
def big_divmod(ctx, a, site):
    x, y = bigp(ctx, a[1]), bigp(ctx, a[2])
    q, r = b_div(ctx, x, y), b_mod(ctx, x, y)
    setbig(ctx, a[0], q)
    setbig(ctx, a[3], r)
    return Tup((a[0], a[3]))


@bigm("QuoRem")
def big_quorem(ctx, a, site):
    x, y = bigp(ctx, a[1]), bigp(ctx, a[2])
    q, r = b_quo(ctx, x, y), b_rem(ctx, x, y)
    setbig(ctx, a[0], q)
    setbig(ctx, a[3], r)
    return Tup((a[0], a[3]))


@bigm("Set")
def big_set(ctx, a, site):
    return setbig(ctx, a[0], bigp(ctx, a[1]))


@bigm("SetUint64")
def big_setu(ctx, a, site):
    return setbig(ctx, a[0], a[1])


@bigm("SetInt64")
def big_seti(ctx, a, site):
    return setbig(ctx, a[0], signed64(ctx, a[1]))


@bigm("SetBit")
def big_setbit(ctx, a, site):
    x = bigp(ctx, a[1])
    i, b = ctx.concretize(a[2]), ctx.concretize(a[3])
    if b:
        return setbig(ctx, a[0], b_or(ctx, x, BigVal(1 << i)))
    return setbig(ctx, a[0], b_andnot(ctx, x, BigVal(1 << i)))


def go_int(t, base):
    """the integer a Go text denotes (big.Int.SetString), None if it denotes none"""
    m = re.fullmatch(rb"([+-]?)(.*)", t, re.S)
    sign, d = m.group(1), m.group(2)
    if base == 0:
        m = re.fullmatch(rb"(0[xX]|0[bB]|0[oO]|0(?=[0-9_])|)(.*)", d, re.S)
        base = {b"": 10, b"0x": 16, b"0b": 2, b"0o": 8, b"0": 8}[m.group(1).lower()]
        d = m.group(2)
        if b"_" in d:
            if not re.fullmatch(rb"(_?[0-9a-zA-Z])+" if m.group(1) else rb"[0-9a-zA-Z](_?[0-9a-zA-Z])*", d):
                return None
            d = d.replace(b"_", b"")
    if not 2 <= base <= 36 or not re.fullmatch(rb"[0-9a-zA-Z]+", d):
        return None
    try:
        if any(int(d[i:i + 1], 36) >= base for i in range(len(d))):
            return None
        return int(sign + d, base)
    except ValueError:
        return None


@bigm("SetString")
def big_setstring(ctx, a, site):
    s = ctx.norm(a[1])
    base = ctx.concretize(a[2])
    o = s.single
    if s.concrete is not None:
        v = go_int(s.concrete, base)
        if v is None:
            return Tup((None, False))
        return Tup((setbig(ctx, a[0], v), True))
    if o is not None and o.kind == "hex" and base == 16:
        return Tup((setbig(ctx, a[0], bytes_to_big(ctx, o.args[0])), True))
    raise Unsupported("big.Int.SetString")


@bigm("Lsh")
def big_lsh(ctx, a, site):
    x = bigp(ctx, a[1])
    n = ctx.concretize(a[2])
    return setbig(ctx, a[0], b_mul(ctx, x, BigVal(1 << n)))


@bigm("Rsh")
def big_rsh(ctx, a, site):
    x = bigp(ctx, a[1])
    n = ctx.concretize(a[2])
    return setbig(ctx, a[0], b_div(ctx, x, BigVal(1 << n)))


@bigm("Neg")
def big_neg(ctx, a, site):
    x = bigp(ctx, a[1])
    if x.concrete is None:
        raise Unsupported("negative big.Int")
    return setbig(ctx, a[0], -x.concrete)


@bigm("Cmp")
def big_cmp(ctx, a, site):
    return cmp_big(ctx, bigp(ctx, a[0]), bigp(ctx, a[1]))


MODELS["(*math/big.Int).CmpAbs"] = big_cmp


def cmp_big(ctx, x, y):
    if x.concrete is not None and y.concrete is not None:
        d = (x.concrete > y.concrete) - (x.concrete < y.concrete)
        return d % (1 << 64)
    if x.key == y.key:
        return 0
    for u, v, s in ((x, y, 1), (y, x, -1)):
        if v.concrete is not None and v.concrete < 0:
            return s % (1 << 64)
    if x.poly is not None or y.poly is not None:
        c = z3.Bool("polyeq_%x" % (hash((x.key, y.key)) & 0xffffffffffff))
        return ite(c, 0, 1, 64)
    px, py = PMOD.get(x.key), PMOD.get(y.key)
    if (px or py) and not (px and py):
        px, py = px or (x, P256K), py or (y, P256K)
    if px and py and px[1] == py[1] == P256K:
        c = curve_equation(ctx, px[0], py[0])
        if c is not None:
            return ite(c, 0, 1, 64)
    w = max(x.width, y.width)
    X, Y = x.tobv(w), y.tobv(w)
    return ite(simp(X == Y), 0, ite(simp(z3.UGT(X, Y)), 1, (1 << 64) - 1, 64), 64)


def curve_equation(ctx, a, b):
    """condition for y^2 = x^3+7 mod p from two polynomials, or None"""
    for u, v in ((a, b), (b, a)):
        pu, pv = u.aspoly(), v.aspoly()
        if len(pu) == 1:
            (m, c), = pu.items()
            x = cube_var(pv)
            if c == 1 and len(m) == 2 and m[0] == m[1] and x is not None:
                return oncurve(ctx, bv(POLYATOM[x], 256), bv(POLYATOM[m[0]], 256))
    return None


def cube_var(p):
    if p.get((), 0) == 7 and len(p) == 2:
        m = [k for k in p if k][0]
        if len(m) == 3 and m[0] == m[1] == m[2] and p[m] == 1:
            return m[0]
    return None


@bigm("Sign")
def big_sign(ctx, a, site):
    x = bigp(ctx, a[0])
    if x.concrete is not None:
        return ((x.concrete > 0) - (x.concrete < 0)) % (1 << 64)
    return ite(simp(x.tobv() == 0), 0, 1, 64)


@bigm("Bit")
def big_bit(ctx, a, site):
    x = bigp(ctx, a[0])
    i = ctx.concretize(a[1])
    if x.concrete is not None:
        return (x.concrete >> i) & 1
    t = x.tobv()
    if i >= t.size():
        return 0
    return simp(z3.ZeroExt(63, z3.Extract(i, i, t)))


@bigm("Uint64")
def big_uint64(ctx, a, site):
    x = bigp(ctx, a[0])
    if x.concrete is not None:
        return x.concrete & ((1 << 64) - 1)
    return simp(bv(x.tobv(), 64))


MODELS["(*math/big.Int).Int64"] = big_uint64


@bigm("IsInt64")
def big_isint64(ctx, a, site):
    x = bigp(ctx, a[0])
    if x.concrete is not None:
        return -(1 << 63) <= x.concrete < 1 << 63
    t = x.tobv()
    return True if t.size() < 64 else simp(z3.ULT(t, 1 << 63))


@bigm("IsUint64")
def big_isuint64(ctx, a, site):
    x = bigp(ctx, a[0])
    if x.concrete is not None:
        return 0 <= x.concrete < 1 << 64
    t = x.tobv()
    return True if t.size() <= 64 else simp(z3.Extract(t.size() - 1, 64, t) == 0)


@bigm("BitLen")
def big_bitlen(ctx, a, site):
    x = bigp(ctx, a[0])
    if x.concrete is not None:
        return abs(x.concrete).bit_length()
    t = x.tobv()
    r = z3.BitVecVal(0, 64)
    for i in range(t.size()):
        r = z3.If(z3.Extract(i, i, t) == 1, z3.BitVecVal(i + 1, 64), r)
    return simp(r)


@bigm("Exp", "exact power; modulo m when m is not nil")
def big_exp(ctx, a, site):
    x, y = bigp(ctx, a[1]), bigp(ctx, a[2])
    m = bigp(ctx, a[3]) if a[3] is not None else BigVal(0)
    if y.concrete is None or m.concrete is None:
        raise Unsupported("symbolic exponent")
    e, mm = y.concrete, m.concrete
    if x.concrete is not None:
        return setbig(ctx, a[0], pow(x.concrete, e, mm) if mm else x.concrete ** e)
    if e > 4:
        raise Unsupported("large exponent")
    r = BigVal(1)
    for _ in range(e):
        r = BigVal(poly=poly_mul(r.aspoly(), x.aspoly()))
    if mm:
        r = polymod(ctx, r, mm)
    return setbig(ctx, a[0], r)


@bigm("ModSqrt", "square root of x^3+7 modulo the field prime: an uninterpreted function of x; nil and no change for a non-residue")
def big_modsqrt(ctx, a, site):
    x, p = bigp(ctx, a[1]), bigp(ctx, a[2])
    if p.concrete != P256K:
        raise Unsupported("ModSqrt modulus")
    if x.key in PMOD:
        q, m = PMOD[x.key]
        if m == P256K:
            x = q
        # x^3 mod p + 7
    if x.concrete is not None:
        v = x.concrete % P256K
        r = pow(v, (P256K + 1) // 4, P256K)
        if r * r % P256K != v:
            return None
        return setbig(ctx, a[0], r)
    k = cube_var(x.aspoly())
    if k is None:
        k = cube_from_mod(x)
        if k is None:
            raise Unsupported("square root of something other than x^3+7")
    t = POLYATOM[k]
    if t.size() > 256:
        raise Unsupported("wide x coordinate")
    X = bv(t, 256)
    curve_facts(ctx, X)
    if ctx.branch(isres(X)):
        return setbig(ctx, a[0], BigVal(sqrt(X)))
    return None


def cube_from_mod(x):
    p = x.aspoly()
    if len(p) == 2 and p.get((), 0) == 7:
        m = [k for k in p if k][0]
        if len(m) == 1 and p[m] == 1:
            at = BigVal(POLYATOM[m[0]])
            if at.key in PMOD:
                q = PMOD[at.key][0].aspoly()
                if len(q) == 1:
                    (mm, c), = q.items()
                    if c == 1 and len(mm) == 3 and mm[0] == mm[1] == mm[2]:
                        return mm[0]
    return None


# ------------------------------------------------------------------ secp256k1
def isres(X):
    return uf("ISRES", BV256, z3.BoolSort())(X)


def sqrt(X):
    return uf("SQRT", BV256, BV256)(X)


def GXf(k):
    return uf("GX", BV256, BV256)(k)


def GYf(k):
    return uf("GY", BV256, BV256)(k)


def C256(v):
    return z3.BitVecVal(v, 256)


def curve_facts(ctx, X):
    """x^3+7 has a root exactly when ISRES; the chosen root is in 1..p-1"""
    k = ("curve", X.get_id())
    zkey(X)
    if k in ctx.done:
        return
    ctx.done.add(k)
    s = sqrt(X)
    ctx.fact(z3.Implies(isres(X), z3.And(z3.ULT(s, C256(P256K)), s != 0)))
    ctx.fact(z3.Not(isres(C256(0))))


def oncurve(ctx, X, Y):
    curve_facts(ctx, X)
    s = sqrt(X)
    return z3.And(z3.ULT(X, C256(P256K)), isres(X), z3.Or(Y == s, Y == C256(P256K) - s))


def gpoint(ctx, k):
    """coordinates of k*G for a 256-bit k below n (k=0: (0,0))"""
    k = bv(k, 256)
    gx, gy = GXf(k), GYf(k)
    key = ("g", k.get_id())
    zkey(k)
    if key not in ctx.done:
        ctx.done.add(key)
        ctx.fact(z3.Implies(z3.And(k != 0, z3.ULT(k, C256(NK))), z3.And(oncurve(ctx, gx, gy), gx != 0, gy != 0, z3.ULT(gy, C256(P256K)))))
        ctx.fact(z3.Implies(k == 0, z3.And(gx == 0, gy == 0)))
        ctx.scalars.append(k)
    return gx, gy


def reduce_n(ctx, cells):
    if len(cells) > 32:
        raise Unsupported("scalar longer than 32 bytes")
    t = cat(cells)
    if not isz(t):
        return bv(t % NK, 256)
    t = bv(t, 256)
    if ctx.entails(z3.ULT(t, C256(NK))):
        return t
    return simp(z3.If(z3.UGE(t, C256(NK)), t - C256(NK), t))


def addpoint(ctx, x1, y1, x2, y2):
    f = uf("ADDX", BV256, BV256, BV256, BV256, BV256)
    g = uf("ADDY", BV256, BV256, BV256, BV256, BV256)
    a = (x1, y1, x2, y2)
    key = ("add",) + tuple(x.get_id() for x in a)
    for x in a:
        zkey(x)
    rx, ry = f(*a), g(*a)
    if key not in ctx.done:
        ctx.done.add(key)
        inf = z3.And(rx == 0, ry == 0)
        ctx.fact(z3.Implies(z3.And(oncurve(ctx, x1, y1), oncurve(ctx, x2, y2)),
                            z3.Or(inf, z3.And(oncurve(ctx, rx, ry), rx != 0, ry != 0, z3.ULT(ry, C256(P256K))))))
        ctx.fact(z3.And(f(x2, y2, x1, y1) == rx, g(x2, y2, x1, y1) == ry))
        ctx.adds.append((x1, y1, x2, y2, rx, ry))
    z1 = z3.And(x1 == 0, y1 == 0)
    z2 = z3.And(x2 == 0, y2 == 0)
    return simp(z3.If(z1, x2, z3.If(z2, x1, rx))), simp(z3.If(z1, y2, z3.If(z2, y1, ry)))


def homomorphism(ctx):
    """instances of (a*G) + (b*G) = ((a+b) mod n)*G for the sums and scalars met so far"""
    sc = list(ctx.scalars)
    for (x1, y1, x2, y2, rx, ry) in list(ctx.adds):
        for a in sc:
            for b in sc:
                key = ("hom", rx.get_id(), a.get_id(), b.get_id())
                if key in ctx.done:
                    continue
                ctx.done.add(key)
                s = modadd(a, b)
                gx, gy = GXf(s), GYf(s)
                ok = z3.And(z3.ULT(a, C256(NK)), z3.ULT(b, C256(NK)), a != 0, b != 0,
                            x1 == GXf(a), y1 == GYf(a), x2 == GXf(b), y2 == GYf(b))
                ctx.fact(z3.Implies(ok, z3.And(rx == gx, ry == gy)))
                if ("g", s.get_id()) not in ctx.done:
                    gpoint(ctx, s)
                    ctx.scalars.pop()


def modadd(a, b):
    a, b = bv(a, 257), bv(b, 257)
    if a.get_id() > b.get_id():
        a, b = b, a
    t = simp(a + b)
    if not isz(t):
        return C256(t % NK)
    r = modn(bv(t, 257), NK)
    return bv(r, 256)


def point(ctx, x, y):
    return Tup((newbig(ctx, BigVal(x)), newbig(ctx, BigVal(y))))


def coord(ctx, v):
    b = bigp(ctx, v)
    t = b.tobv()
    if t.size() > 256:
        if ctx.entails(simp(z3.Extract(t.size() - 1, 256, t) == 0)):
            return simp(z3.Extract(255, 0, t)) if isz(simp(z3.Extract(255, 0, t))) else C256(simp(z3.Extract(255, 0, t)))
        raise Unsupported("wide coordinate")
    return bv(t, 256)


K = "(*github.com/decred/dcrd/dcrec/secp256k1/v4.KoblitzCurve)."
SEC = "github.com/decred/dcrd/dcrec/secp256k1/v4."


@model(SEC + "S256", doc="the secp256k1 curve")
def s256(ctx, a, site):
    return ctx.curve_ptr


@model(K + "Params", doc="the secp256k1 parameters")
def kparams(ctx, a, site):
    return ctx.params_ptr


def make_curve(ctx):
    """allocates the curve singletons"""
    prog = ctx.prog
    ctx.done = set()
    ctx.scalars = []
    ctx.adds = []
    cp = [t for t in prog.types if t.get("named") == "crypto/elliptic.CurveParams"]
    kc = [t for t in prog.types if t.get("named") == SEC + "KoblitzCurve"]
    vals = {"P": P256K, "N": NK, "B": 7, "Gx": GXC, "Gy": GYC}
    ctx.curve_ptr = ctx.params_ptr = None
    if cp:
        fs = []
        for f in cp[0]["fields"]:
            if f["name"] in vals:
                fs.append(newbig(ctx, vals[f["name"]]))
            elif f["name"] == "BitSize":
                fs.append(256)
            else:
                fs.append(lit("secp256k1"))
        ctx.params_ptr = Ptr(ctx.alloc(tuple(fs), cp[0]["id"]))
        if kc:
            ctx.curve_ptr = Ptr(ctx.alloc((ctx.params_ptr,), kc[0]["id"]))


@model(K + "ScalarBaseMult", doc="k*G: uninterpreted coordinates GX, GY of (k mod n); (0,0) for k = 0 mod n; on the curve, non-zero, below p otherwise")
def scalar_base(ctx, a, site):
    c = ctx.cells_of(seqof(ctx, a[1]))
    k = reduce_n(ctx, c)
    gx, gy = gpoint(ctx, k)
    return point(ctx, gx, gy)


@model(K + "Add", doc="group addition: uninterpreted, (0,0) is the identity, the sum of two curve points is a curve point or (0,0), aG+bG=((a+b) mod n)G")
def k_add(ctx, a, site):
    x1, y1, x2, y2 = [coord(ctx, v) for v in a[1:]]
    x, y = addpoint(ctx, x1, y1, x2, y2)
    return point(ctx, x, y)


@model(K + "IsOnCurve", doc="y^2 = x^3 + 7 mod p")
def k_isoncurve(ctx, a, site):
    return simp(oncurve(ctx, coord(ctx, a[1]), coord(ctx, a[2])))


@model(SEC + "ParsePubKey", doc="accepts exactly the 33-byte compressed encodings (2/3, x<p, on curve) and 65-byte uncompressed or hybrid encodings of curve points")
def parse_pubkey(ctx, a, site):
    sl = a[0]
    n = ctx.concretize(sl.len, 100)
    if n == 33:
        c = ctx.cells_of(seqof(ctx, sl))
        x = bv(cat(c[1:]), 256)
        curve_facts(ctx, x)
        ok = z3.And(z3.Or(bv(c[0], 8) == 2, bv(c[0], 8) == 3), z3.ULT(x, C256(P256K)), isres(x))
        if ctx.branch(simp(ok)):
            y = lift(ctx, x, bv(c[0], 8))
            return Tup((Ptr(ctx.alloc(Opaque("pubkey", (x, y)), None)), None))
    elif n == 65:
        c = ctx.cells_of(seqof(ctx, sl))
        x, y = bv(cat(c[1:33]), 256), bv(cat(c[33:]), 256)
        f = bv(c[0], 8)
        par = z3.ZeroExt(7, z3.Extract(0, 0, y))
        ok = z3.And(z3.Or(f == 4, f == par + 6), oncurve(ctx, x, y))
        if ctx.branch(simp(ok)):
            return Tup((Ptr(ctx.alloc(Opaque("pubkey", (x, y)), None)), None))
    return Tup((None, any_err(ctx, "invalid public key")))


def lift(ctx, x, prefix):
    """the root whose parity the prefix byte names"""
    s = sqrt(x)
    return simp(z3.If(z3.Extract(0, 0, s) == z3.Extract(0, 0, prefix), s, C256(P256K) - s))


PK = "(*" + SEC + "PublicKey)."


@model(PK + "X", PK + "Y", doc="coordinates of the parsed point")
def pk_xy(ctx, a, site):
    x, y = ctx.load(a[0]).data
    nm = site["call"]["fn"]["name"]
    return newbig(ctx, BigVal(x if nm.endswith(".X") else y))


@model(PK + "IsOnCurve", doc="parsed points are on the curve")
def pk_on(ctx, a, site):
    x, y = ctx.load(a[0]).data
    return simp(oncurve(ctx, x, y))


@model("(" + SEC + "PublicKey).SerializeCompressed", PK + "SerializeCompressed", doc="compressed encoding")
def pk_ser(ctx, a, site):
    v = ctx.load(a[0]) if isinstance(a[0], Ptr) else a[0]
    x, y = v.data
    par = simp(z3.ZeroExt(7, z3.Extract(0, 0, y)) + 2)
    return ctx.bytes_slice(BSeq(((par,) + split(x, 32),)))


@model("(" + SEC + "PublicKey).SerializeUncompressed", PK + "SerializeUncompressed", doc="uncompressed encoding")
def pk_seru(ctx, a, site):
    v = ctx.load(a[0]) if isinstance(a[0], Ptr) else a[0]
    x, y = v.data
    return ctx.bytes_slice(BSeq(((4,) + split(x, 32) + split(y, 32),)))


# scalars modulo n: a bit vector below n
MS = "(*" + SEC + "ModNScalar)."


def scalar(ctx, p):
    b = bigp(ctx, p)
    return bv(b.tobv(), 256)


def set_scalar(ctx, p, cells):
    """reduces 32 bytes; result: whether they were n or more"""
    t = bv(cat(cells), 256) if cells else C256(0)
    over = simp(z3.UGE(t, C256(NK)))
    if over is not False and ctx.entails(z3.ULT(t, C256(NK))):
        over = False
    setbig(ctx, p, BigVal(reduce_n(ctx, cells)))
    return over


@model(MS + "SetByteSlice", doc="the number spelled by at most 32 bytes modulo n; reports n or more")
def ms_setslice(ctx, a, site):
    return set_scalar(ctx, a[0], ctx.cells_of(seqof(ctx, a[1]))[:32])


@model(MS + "SetBytes", doc="the number spelled by 32 bytes modulo n; reports n or more")
def ms_setbytes(ctx, a, site):
    r = set_scalar(ctx, a[0], tuple(ctx.load(a[1])))
    return simp(z3.If(zb(r), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))


@model(MS + "Set", MS + "SetInt", doc="assignment")
def ms_set(ctx, a, site):
    if site["call"]["fn"]["name"].endswith(".Set"):
        return setbig(ctx, a[0], bigp(ctx, a[1]))
    return setbig(ctx, a[0], BigVal(bv(a[1], 32) if isz(a[1]) else a[1]))


@model(MS + "Zero", doc="assignment of 0")
def ms_zero(ctx, a, site):
    setbig(ctx, a[0], BigVal(0))


@model(MS + "IsZero", MS + "IsZeroBit", MS + "IsOdd", doc="comparison with 0, parity")
def ms_iszero(ctx, a, site):
    t = scalar(ctx, a[0])
    nm = site["call"]["fn"]["name"]
    if nm.endswith(".IsOdd"):
        return simp(z3.Extract(0, 0, t) == 1)
    r = simp(t == 0)
    return r if nm.endswith("IsZero") else simp(z3.If(zb(r), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))


@model(MS + "Equals", doc="equality")
def ms_eq(ctx, a, site):
    return simp(scalar(ctx, a[0]) == scalar(ctx, a[1]))


@model(MS + "Add", MS + "Add2", doc="sum modulo n")
def ms_add(ctx, a, site):
    x, y = (a[0], a[1]) if len(a) == 2 else (a[1], a[2])
    return setbig(ctx, a[0], BigVal(modadd(scalar(ctx, x), scalar(ctx, y))))


@model(MS + "Negate", doc="n - x, 0 for 0")
def ms_neg(ctx, a, site):
    t = scalar(ctx, a[0])
    return setbig(ctx, a[0], BigVal(z3.If(t == 0, t, C256(NK) - t)))


@model(MS + "Bytes", MS + "PutBytes", MS + "PutBytesUnchecked", MS + "PutBytesSlice", doc="32 bytes, big endian")
def ms_bytes(ctx, a, site):
    c = tuple(split(scalar(ctx, a[0]), 32))
    nm = site["call"]["fn"]["name"]
    if nm.endswith(".Bytes"):
        return c
    if nm.endswith(".PutBytes"):
        ctx.store(a[1], c)
        return None
    sl = a[1]
    ctx.require(simp(z3.UGE(bv(sl.len, 64), 32)), "room for 32 bytes", ("panic",), ctx.curpos())
    for i, x in enumerate(c):
        ctx.store(Ptr(sl.oid, sl.path + (ctx.addk(sl.off, i),)), x)


@model(SEC + "PrivKeyFromBytes", doc="the scalar of at most 32 bytes modulo n")
def priv_from(ctx, a, site):
    t = [x["id"] for x in ctx.prog.types if x.get("named") == SEC + "PrivateKey"]
    p = Ptr(ctx.alloc((BigVal(0),), t[0] if t else None))
    set_scalar(ctx, Ptr(p.oid, (0,)), ctx.cells_of(seqof(ctx, a[0]))[:32])
    return p


@model("(*" + SEC + "PrivateKey).Serialize", "(" + SEC + "PrivateKey).Serialize", doc="32 bytes, big endian")
def priv_ser(ctx, a, site):
    v = ctx.load(a[0]) if isinstance(a[0], Ptr) else a[0]
    return ctx.bytes_slice(BSeq((tuple(split(bv(v[0].tobv(), 256), 32)),)))


@model("(*" + SEC + "PrivateKey).PubKey", doc="the point of the scalar")
def priv_pub(ctx, a, site):
    v = ctx.load(a[0])
    x, y = gpoint(ctx, bv(v[0].tobv(), 256))
    return Ptr(ctx.alloc(Opaque("pubkey", (x, y)), None))


# ------------------------------------------------------------------ base58
B58A = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def b58enc(bs):
    n = int.from_bytes(bs, "big")
    s = b""
    while n:
        n, r = divmod(n, 58)
        s = B58A[r:r + 1] + s
    return b"1" * (len(bs) - len(bs.lstrip(b"\0"))) + s


@model("github.com/btcsuite/btcutil/base58.Encode", doc="base58 (injective)")
def b58_encode(ctx, a, site):
    s = seqof(ctx, a[0])
    if s.concrete is not None:
        return lit(b58enc(s.concrete))
    return op("b58", s)


@model("github.com/btcsuite/btcutil/base58.Decode", doc="Decode(Encode(b)) = b; total on all strings")
def b58_decode(ctx, a, site):
    s = ctx.norm(a[0])
    o = s.single
    if o is not None and o.kind == "b58":
        return ctx.bytes_slice(o.args[0])
    if s.concrete is not None:
        c = s.concrete
        if any(ch not in B58A for ch in c):
            return ctx.bytes_slice(EMPTYB)
        n = 0
        for ch in c:
            n = n * 58 + B58A.index(ch)
        z = len(c) - len(c.lstrip(b"1"))
        return ctx.bytes_slice(lit(b"\0" * z + n.to_bytes((n.bit_length() + 7) // 8, "big")))
    return ctx.bytes_slice(op("b58dec", s))


# ------------------------------------------------------------------ sort (concrete only)
@model("sort.Slice", "sort.SliceStable", doc="sorts by the given comparison")
def sort_slice(ctx, a, site):
    import functools
    sl = a[0].val
    less = a[1]
    if sl.oid is None:
        return None
    n = ctx.concretize(sl.len)
    o, path, off = sl.oid, sl.path, sl.off
    vals = list(ctx.slice_vals(sl))
    ctx.check_write(o, path)
    # evaluate the comparison on positions 0 and 1 of a scratch arrangement
    arr = ctx.arr(sl)
    if not isinstance(arr, tuple):
        raise Unsupported("sort")

    def put(i, v):
        c = ctx.arr(sl)
        ctx.heap[o] = ctx.update(ctx.heap[o], path, c[:off + i] + (v,) + c[off + i + 1:]) if path else c[:off + i] + (v,) + c[off + i + 1:]

    def lt(x, y):
        put(0, x)
        put(1, y)
        r = ctx.call(less.name, [0, 1], less.free)
        if isz(r):
            raise Unsupported("symbolic sort")
        return r

    def cmp(x, y):
        if lt(x, y):
            return -1
        if lt(y, x):
            return 1
        return 0
    if n > 1:
        small = vals[:]
        base = ctx.arr(sl)
        # sort works on a two-element scratch array to keep comparisons cheap
        full = ctx.heap[o]
        scratch = tuple(vals[:2])
        if not path and off == 0:
            ctx.heap[o] = scratch
        small.sort(key=functools.cmp_to_key(cmp))
        ctx.heap[o] = full
        c = base[:off] + tuple(small) + base[off + n:]
        ctx.heap[o] = ctx.update(full, path, c) if path else c
    return None


@model("sort.Strings", "slices.Sort", doc="sorts ascending")
def sort_strings(ctx, a, site):
    sl = a[0]
    if sl.oid is None:
        return None
    vals = list(ctx.slice_vals(sl))
    cs = [v.concrete if isinstance(v, BSeq) else v for v in vals]
    if any(c is None or isz(c) for c in cs):
        raise Unsupported("sort of symbolic values")
    c = ctx.arr(sl)
    order = sorted(range(len(vals)), key=lambda i: cs[i])
    ctx.check_write(sl.oid, sl.path)
    new = c[:sl.off] + tuple(vals[i] for i in order) + c[sl.off + len(vals):]
    ctx.heap[sl.oid] = ctx.update(ctx.heap[sl.oid], sl.path, new) if sl.path else new
    return None


from . import textmodels     # noqa: E402,F401
