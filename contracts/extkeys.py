"""Contracts of package bip32: public form, texts, serialization, import, setters."""
from .lib import *
from .lib import PVT, PUB
from .keys import NEWCHILD, NEWMASTER, PUBEXT, same_key

SERIALIZE = fn(B32, "Serialize", "*Key")
B58SER = fn(B32, "B58Serialize", "*Key")
STRING = fn(B32, "String", "*Key")
ISVALID = fn(B32, "IsValid", "*Key")
DESER = fn(B32, "Deserialize")
B58DESER = fn(B32, "B58Deserialize")
PUBHEX = fn(B32, "PublicKeyHex", "*Key")
PVTHEX = fn(B32, "PrivateKeyHex", "*Key")
ISPRIV = fn(B32, "IsPrivate", "*Key")
ERRZERO = B32 + ".ErrEmptyKey"


def sym_priv(ctx, valid=True):
    s = SymKey(ctx)
    s.kd0 = 0
    kp = key_ptr(ctx, s.cells())
    if valid:
        ctx.assume(simp(valid_scalar(s.kd)))
    return s, kp


def sym_pub(ctx, valid=True):
    s = SymKey(ctx)
    kp = key_ptr(ctx, s.cells())
    ctx.assume(simp(valid_pub(ctx, s.kd0, s.kd)) if valid else simp(s.kd0 != 0))
    return s, kp


@unit("pubext_priv", "K06 K10 K05 X01 X02", PUBEXT + "," + PUBHEX,
      pre="private key with scalar in 1..n-1, any other fields",
      post="public form: paired public version (Bitcoin main net if unregistered), same depth, fingerprint, child number, chain code, compressed point; PublicKeyHex is its hex",
      replay="neuter")
def pubext_priv(ctx):
    s, kp = sym_priv(ctx)
    entry(ctx)
    r = call(ctx, PUBEXT, kp)
    v = KeyView(key_cells(ctx, r))
    P = pub_of(ctx, s.kd)
    ens(ctx, "K06 K10", eqv(v.ver, paired_public(s.ver), 32), "version is the paired public version, Bitcoin main net if unregistered")
    ens(ctx, "K06", eqv(v.depth, s.depth, 8), "depth unchanged")
    ens(ctx, "K06", eqv(v.fp, s.fp, 32), "fingerprint unchanged")
    ens(ctx, "K06", eqv(v.cn, s.cn, 32), "child number unchanged")
    ens(ctx, "K06", eqv(v.cc, s.cc, 256), "chain code unchanged")
    ens(ctx, "K06", eq_cells(v.cells[45:], P), "key data is the compressed point of the scalar")
    ens(ctx, "K05", bnot(eqv(v.kd0, 0, 8)), "the public form is public")
    h = call(ctx, PUBHEX, kp)
    ens(ctx, "K06", text_eq(ctx, h, hexof(ctx, P)), "PublicKeyHex is the hex of the compressed point")
    same_key(ctx, kp, s, "K06 X01")


@unit("pubext_pub", "K06 K10 K05 X01 X02", ",".join((PUBEXT, PUBHEX, PVTHEX, ISPRIV)),
      pre="any key with a non-zero key data prefix",
      post="public form: version kept if registered, else Bitcoin main net, everything else unchanged; PublicKeyHex is the hex of the key data; PrivateKeyHex is empty",
      replay="neuter")
def pubext_pub(ctx):
    s, kp = sym_pub(ctx, valid=False)
    entry(ctx)
    r = call(ctx, PUBEXT, kp)
    v = KeyView(key_cells(ctx, r))
    ens(ctx, "K06 K10", imp(registered(s.ver, False), eqv(v.ver, s.ver, 32)), "a registered public version is kept")
    ens(ctx, "K10", eqv(v.ver, public_version_of_public(s.ver), 32), "an unregistered version becomes Bitcoin main net")
    ens(ctx, "K06 K05", eq_cells(v.cells[4:], s.cells()[4:]), "everything but the version is unchanged")
    h = call(ctx, PUBHEX, kp)
    ens(ctx, "K06", text_eq(ctx, h, hexof(ctx, s.cells()[45:])), "PublicKeyHex is the hex of the key data")
    p = call(ctx, PVTHEX, kp)
    ens(ctx, "K05", text_eq(ctx, p, lit(b"")), "a public key has no private key text")
    ens(ctx, "K05", bnot(zb(call(ctx, ISPRIV, kp))), "IsPrivate is false")
    same_key(ctx, kp, s, "K06 X01")


@unit("texts_priv", "K05 K06 X01 X02", PVTHEX + "," + ISPRIV,
      pre="any key whose key data starts with zero", post="PrivateKeyHex is the hex of the 32 private bytes; IsPrivate", replay="neuter")
def texts_priv(ctx):
    s, kp = sym_priv(ctx, valid=False)
    entry(ctx)
    p = call(ctx, PVTHEX, kp)
    ens(ctx, "K06 K05", text_eq(ctx, p, hexof(ctx, s.cells()[46:])), "PrivateKeyHex is the hex of the private key")
    ens(ctx, "K05", zb(call(ctx, ISPRIV, kp)), "IsPrivate is true")
    same_key(ctx, kp, s, "X01")


@unit("pubext_any", "X01 X02", PUBEXT + "," + PUBHEX + "," + PVTHEX,
      pre="any 78 bytes", post="no panic, no write to existing memory", replay="neuter")
def pubext_any(ctx):
    s = SymKey(ctx)
    kp = key_ptr(ctx, s.cells())
    entry(ctx)
    call(ctx, PUBEXT, kp)
    call(ctx, PUBHEX, kp)
    call(ctx, PVTHEX, kp)
    same_key(ctx, kp, s, "X01")


# ------------------------------------------------------------------ serialization
def key_valid(ctx, cells):
    """the key data is a private key in 1..n-1 or a compressed curve point"""
    v = KeyView(cells)
    kd0, kd = bv(v.kd0, 8), bv(v.kd, 256)
    return z3.Or(z3.And(kd0 == 0, valid_scalar(kd)), valid_pub(ctx, kd0, kd))


def ser82(cells):
    return tuple(cells) + dsha(tuple(cells))[:4]


@unit("serialize", "K08 X01 X02", ",".join((SERIALIZE, B58SER, STRING)),
      pre="any 78 bytes",
      post="82 bytes: the key and the first four bytes of its double SHA-256; text forms are base58 of those; the all-zero key has none",
      replay="ser")
def serialize(ctx):
    s = SymKey(ctx)
    kp = key_ptr(ctx, s.cells())
    entry(ctx)
    zero = cat(s.cells()) == 0
    bs, e = call(ctx, SERIALIZE, kp)
    t = call(ctx, B58SER, kp)
    t2 = call(ctx, STRING, kp)
    ok = errnil(ctx, e)
    ens(ctx, "K08", iff(ok, z3.Not(zero)), "refused exactly for the all-zero key")
    if ctx.branch(simp(zb(ok))):
        want = BSeq((ser82(s.cells()),))
        ens(ctx, "K08", bytes_eq(ctx, bs, want), "key bytes followed by the double SHA-256 checksum")
        ens(ctx, "K08", text_eq(ctx, t, op("b58", want)), "B58Serialize is the base58 of the 82 bytes")
        ens(ctx, "K08", text_eq(ctx, t2, op("b58", want)), "String is the base58 of the 82 bytes")
    else:
        ens(ctx, "K08", text_eq(ctx, t, lit(b"")), "no text form for the all-zero key")
        ens(ctx, "K08", text_eq(ctx, t2, lit(b"")), "no String for the all-zero key")
        ens(ctx, "K08", len_is(ctx, bs, 0), "no bytes for the all-zero key")
    same_key(ctx, kp, s, "K08 X01")


@unit("roundtrip", "K08 K09 X01 X02", ",".join((SERIALIZE, B58SER, DESER, B58DESER, ISVALID)), kind="lemma",
      pre="any 78 bytes", post="reading either serialized form gives the same key, without error exactly when the key data is valid; IsValid says the same",
      replay="ser")
def roundtrip(ctx):
    s = SymKey(ctx)
    kp = key_ptr(ctx, s.cells())
    entry(ctx)
    valid = key_valid(ctx, s.cells())
    iv = call(ctx, ISVALID, kp)
    ens(ctx, "K08 K09", iff(zb(iv), valid), "IsValid exactly for valid key data")
    bs, e = call(ctx, SERIALIZE, kp)
    ok = ctx.branch(simp(zb(errnil(ctx, e))))
    if not ok:
        ens(ctx, "K08", z3.Not(valid), "a valid key serializes")
        return
    k, e2 = call(ctx, DESER, bs)
    ens(ctx, "K08 K09", iff(errnil(ctx, e2), valid), "reading back succeeds exactly for valid key data")
    ens(ctx, "K08", imp(errnil(ctx, e2), eq_cells(key_cells(ctx, k), s.cells())), "reading back gives the same key")
    t = call(ctx, B58SER, kp)
    k, e3 = call(ctx, B58DESER, t)
    ens(ctx, "K08 K09", iff(errnil(ctx, e3), valid), "reading the text form back succeeds exactly for valid key data")
    ens(ctx, "K08", imp(errnil(ctx, e3), eq_cells(key_cells(ctx, k), s.cells())), "reading the text form back gives the same key")
    same_key(ctx, kp, s, "K08 X01")


@unit("deser82", "K09 X01 X02", DESER, pre="any 82 bytes",
      post="accepted exactly when the last four bytes are the checksum and the key data is valid; the key is then the first 78 bytes",
      replay="deser")
def deser82(ctx):
    cells = bytes_arg(ctx, "data", 82)
    sl = byte_slice(ctx, cells, 3)
    entry(ctx)
    k, e = call(ctx, DESER, sl)
    chk = eq_cells(dsha(cells[:78])[:4], cells[78:])
    ok = errnil(ctx, e)
    ens(ctx, "K09", iff(ok, z3.And(zb(chk), key_valid(ctx, cells[:78]))), "accepted exactly with a matching checksum and valid key data")
    ens(ctx, "K09", imp(ok, eq_cells(key_cells(ctx, k), cells[:78])), "the accepted key is the first 78 bytes")


@unit("deser_len", "K09 X01 X02", DESER, pre="any bytes of a length other than 82", post="an error", replay="deser")
def deser_len(ctx):
    sl, seq = any_bytes(ctx, "data")
    ctx.assume(simp(bv(sl.len, 64) != 82))
    entry(ctx)
    k, e = call(ctx, DESER, sl)
    ens(ctx, "K09", bnot(zb(errnil(ctx, e))), "a length other than 82 is refused")


@unit("b58deser", "K09 X01 X02", B58DESER, kind="contract", pre="any text",
      post="decided exactly as Deserialize decides the decoded bytes", replay="b58deser")
def b58deser(ctx):
    s = text_arg(ctx, "text")
    seq = op("b58dec", s)
    fits = ctx.branch(simp(bv(seq.length, 64) == 82))
    cells = ctx.cells_of(seq) if fits else None
    entry(ctx)
    k, e = call(ctx, B58DESER, s)
    ok = errnil(ctx, e)
    if not fits:
        ens(ctx, "K09", bnot(zb(ok)), "a decoded length other than 82 is refused")
        return
    chk = eq_cells(dsha(cells[:78])[:4], cells[78:])
    ens(ctx, "K09", iff(ok, z3.And(zb(chk), key_valid(ctx, cells[:78]))), "accepted exactly with a matching checksum and valid key data")
    ens(ctx, "K09", imp(ok, eq_cells(key_cells(ctx, k), cells[:78])), "the accepted key is the first 78 bytes")


# ------------------------------------------------------------------ lemma: CKD and N commute
class PubExtContract:
    """contract of PublicKeyExtended, as established by pubext_priv and pubext_pub"""

    def apply(self, ctx, args):
        v = KeyView(key_cells(ctx, args[0]))
        if ctx.branch(simp(bv(v.kd0, 8) == 0)):
            ctx.require(simp(valid_scalar(bv(v.kd, 256))), "precondition of PublicKeyExtended: a private key in 1..n-1", ("pre",))
            return split(paired_public(bv(v.ver, 32)), 4) + tuple(v.cells[4:45]) + pub_of(ctx, bv(v.kd, 256))
        return split(public_version_of_public(bv(v.ver, 32)), 4) + tuple(v.cells[4:])


@unit("commute", "K04", ",".join((NEWCHILD, PUBEXT)), kind="lemma", cost=100, uses=("child_priv", "child_pub", "pubext_priv", "pubext_pub"),
      pre="private key with scalar in 1..n-1 and registered version, non-hardened index",
      post="N(CKDpriv(k, i)) = CKDpub(N(k), i), and one succeeds exactly when the other does", replay="commute")
def commute(ctx):
    s, kp = sym_priv(ctx)
    idx = u32(ctx, "index")
    ctx.assume(simp(z3.ULT(idx, 1 << 31)))
    ctx.assume(registered(s.ver, True))
    entry(ctx)
    c1, e1 = call(ctx, NEWCHILD, kp, idx)
    K = call(ctx, PUBEXT, kp)
    c2, e2 = call(ctx, NEWCHILD, Ptr(ctx.alloc(K, ctx.prog.bystr[KEYT])), idx)
    homomorphism(ctx)
    ok1, ok2 = errnil(ctx, e1), errnil(ctx, e2)
    ens(ctx, "K04", iff(ok1, ok2), "one derivation succeeds exactly when the other does")
    if ctx.branch(simp(zb(ok1))):
        n = call(ctx, PUBEXT, Ptr(ctx.alloc(c1, ctx.prog.bystr[KEYT])))
        homomorphism(ctx)
        a, b = KeyView(key_cells(ctx, n)), KeyView(key_cells(ctx, c2))
        for nm, lo, hi in (("version", 0, 4), ("depth", 4, 5), ("fingerprint", 5, 9), ("child number", 9, 13), ("chain code", 13, 45), ("key data", 45, 78)):
            ens(ctx, "K04", eq_cells(a.cells[lo:hi], b.cells[lo:hi]), "same " + nm)


# ------------------------------------------------------------------ setters and getters
SETTERS = [("SetVersion", (0, 4), 4), ("SetVersionUint32", (0, 4), None)]


@unit("setversion", "X01 X02", fn(B32, "SetVersion", "*Key") + "," + fn(B32, "SetVersionUint32", "*Key") + "," + fn(B32, "GetVersion", "*Key"),
      pre="any key, any version", post="the four version bytes are replaced, nothing else changes", replay="setver")
def setversion(ctx):
    s = SymKey(ctx)
    kp = key_ptr(ctx, s.cells())
    v = u32(ctx, "version")
    entry(ctx)
    ctx.may_write = lambda c, oid, path: oid == kp.oid
    if ctx.branch(z3.Bool("which")):
        call(ctx, fn(B32, "SetVersionUint32", "*Key"), kp, v)
    else:
        call(ctx, fn(B32, "SetVersion", "*Key"), kp, split(v, 4))
    ctx.may_write = None
    c = key_cells(ctx, kp)
    ens(ctx, "X01", eq_cells(c[:4], split(v, 4)), "the version bytes are the given ones")
    ens(ctx, "X01", eq_cells(c[4:], s.cells()[4:]), "no other byte changes")
    ens(ctx, "X01", eqv(call(ctx, fn(B32, "GetVersion", "*Key"), kp), v, 32), "GetVersion returns it")


GETTERS = [("GetChainCode", 13, 45), ("GetFingerPrint", 5, 9), ("GetDepth", 4, 5), ("GetPvtKeyBytes", 46, 78), ("GetKeyBytes", 45, 78), ("GetChildNumber", 9, 13)]


@unit("getters", "K08 X01 X02", ",".join(fn(B32, n, "*Key") for n, _, _ in GETTERS), pre="any key",
      post="each getter returns its field, unchanged", replay="getters")
def getters(ctx):
    s = SymKey(ctx)
    kp = key_ptr(ctx, s.cells())
    entry(ctx)
    for n, lo, hi in GETTERS:
        r = call(ctx, fn(B32, n, "*Key"), kp)
        ens(ctx, "K08", eq_cells(r, s.cells()[lo:hi]), n + " returns its field")
    same_key(ctx, kp, s, "X01")


EXPAND = fn(B32, "ExpandPublicKey")
VALIDPRIV = fn(B32, "ValidatePrivateKey")


@unit("validpriv", "K09 X01 X02", VALIDPRIV, pre="any 32 bytes", post="an error exactly for 0 and for values not below the curve order", replay="validpriv")
def validpriv(ctx):
    k = z3.BitVec("scalar", 256)
    ctx.inputs["scalar"] = split(k, 32)
    entry(ctx)
    e = call(ctx, VALIDPRIV, split(k, 32))
    ens(ctx, "K09", iff(errnil(ctx, e), valid_scalar(k)), "accepted exactly in 1..n-1")


@unit("expand", "U04 X01 X02", EXPAND, pre="the 33-byte compressed encoding of a curve point", replay="expand",
      post="the coordinates of that point")
def expand(ctx):
    d0, x = z3.BitVec("prefix", 8), z3.BitVec("x", 256)
    cells = (d0,) + split(x, 32)
    ctx.inputs["point"] = cells
    ctx.assume(simp(valid_pub(ctx, d0, x)))
    sl = byte_slice(ctx, cells, 3)
    entry(ctx)
    rx, ry = call(ctx, EXPAND, sl)
    ens(ctx, "U04", big_is(ctx, rx, x), "the x coordinate")
    ens(ctx, "U04", big_is(ctx, ry, lift_y(ctx, x, d0)), "the y coordinate of that parity")


@unit("expand_any", "X01 X02", EXPAND, pre="any 33 bytes", replay="expand", post="no panic, no write to existing memory")
def expand_any(ctx):
    cells = bytes_arg(ctx, "point", 33)
    sl = byte_slice(ctx, cells, 3)
    entry(ctx)
    call(ctx, EXPAND, sl)


def big_is(ctx, p, v):
    """the big.Int p refers to is the 256-bit number v"""
    seq = ctx.slice_seq(ctx.call("(*math/big.Int).FillBytes", [p, ctx.bytes_slice(BSeq(((0,) * 32,)))]))
    return text_eq(ctx, seq, BSeq((split(v, 32),)))


@unit("newseed", "B08 X01 X02", fn(B32, "NewSeed"), pre="none", post="256 bytes, all from the system source, or an error", replay="newseed")
def newseed(ctx):
    entry(ctx)
    bs, e = call(ctx, fn(B32, "NewSeed"))
    if ctx.branch(simp(zb(errnil(ctx, e)))):
        rand_only(ctx, bs, 256, "B08")


def rand_only(ctx, bs, n, props):
    """a slice of n bytes, each a different byte of the random source"""
    ens(ctx, props, len_is(ctx, bs, n), "exactly the requested size")
    c = ctx.cells_of(ctx.slice_seq(bs))
    f = uf("RAND", z3.BitVecSort(16), z3.BitVecSort(16), z3.BitVecSort(8))
    seen = set()
    known = {}

    def pick(x):
        # what the outcome of the call says about a choice between values
        while isz(x) and z3.is_app_of(x, z3.Z3_OP_ITE):
            q = x.arg(0)
            k = q.get_id()
            if k not in known:
                known[k] = (q, True if ctx.entails(q) else False if ctx.entails(z3.Not(q)) else None)
            if known[k][1] is None:
                return x
            x = x.arg(1 if known[k][1] else 2)
        return x
    for x in c:
        x = pick(simp(x)) if isz(x) else x
        ok = isz(x) and z3.is_app(x) and x.decl().eq(f) and x.get_id() not in seen
        if not ok:
            break
        seen.add(x.get_id())
    ens(ctx, props, len(seen) == n, "every byte is another byte of the random source")
