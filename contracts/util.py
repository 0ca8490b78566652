"""Contracts of package util: addresses, root keys, mnemonic and seed helpers."""
from .lib import *
from .extkeys import key_valid, sym_priv, sym_pub, SERIALIZE, DESER, rand_only
from .keys import NEWMASTER, same_key

ADDRHEX = fn(UTL, "AddrHex", "KeyPath")
ADDRP2SH = fn(UTL, "AddrP2SH", "KeyPath")
ROOTSEED = fn(UTL, "RootKeyFromSeed")
HASH160 = fn(B32, "HashRipeMD160onSha256")
DBLCHK = fn(B32, "ChecksumDblSha256")


def keypath(ctx, cells):
    p = text_arg(ctx, "path")
    return (p, tuple(cells))


def eth(x, y):
    h = hash_uf("KECCAK256", 256, BSeq((split(x, 32) + split(y, 32),)))
    return split(h, 32)[12:]


def p2sh(P, ver):
    h = (bv(ver, 8),) + hash160(P)
    return op("b58", BSeq((tuple(h) + dsha(tuple(h))[:4],)))


def addr_unit(name, private):
    what = "private key with scalar in 1..n-1" if private else "public key whose key data is the compressed encoding of a curve point"

    @unit("addrhex_" + name, "U04 X01 X02", ADDRHEX, pre=what + ", any other fields, any label", replay="addrhex", cost=10,
          post="lower-case hex of the last 20 bytes of Keccak-256 of x || y, each left-padded to 32 bytes")
    def f(ctx):
        s, kp = sym_priv(ctx) if private else sym_pub(ctx)
        if private:
            x, y = gpoint(ctx, s.kd)
        else:
            x, y = s.kd, lift_y(ctx, s.kd, s.kd0)
        entry(ctx)
        t = call(ctx, ADDRHEX, keypath(ctx, s.cells()))
        ens(ctx, "U04", text_eq(ctx, t, hexof(ctx, eth(x, y))), "the 40 hex digits of the last 20 bytes of Keccak-256 of the uncompressed point")

    @unit("p2sh_" + name, "U05 X01 X02", ADDRP2SH, pre=what + ", any prefix byte", replay="p2sh", cost=10,
          post="base58 of prefix, RIPEMD160(SHA256(compressed public key)) and the four-byte checksum")
    def g(ctx):
        s, kp = sym_priv(ctx) if private else sym_pub(ctx)
        P = pub_of(ctx, s.kd) if private else (s.kd0,) + split(s.kd, 32)
        ver = z3.BitVec("prefix", 8)
        ctx.inputs["prefix"] = ver
        entry(ctx)
        t = call(ctx, ADDRP2SH, keypath(ctx, s.cells()), ver)
        ens(ctx, "U05", text_eq(ctx, t, p2sh(P, ver)), "base58 of prefix, hash of the compressed public key, checksum")


addr_unit("priv", True)
addr_unit("pub", False)


@unit("addr_any", "X01 X02", ADDRHEX + "," + ADDRP2SH, pre="any 78 bytes, any prefix", post="no panic, no write to existing memory", replay="addrhex", cost=20)
def addr_any(ctx):
    s = SymKey(ctx)
    key_ptr(ctx, s.cells())
    ver = z3.BitVec("prefix", 8)
    ctx.inputs["prefix"] = ver
    entry(ctx)
    call(ctx, ADDRHEX, keypath(ctx, s.cells()))
    call(ctx, ADDRP2SH, keypath(ctx, s.cells()), ver)


@unit("hashes", "U05 X01 X02", ",".join((HASH160, DBLCHK, fn(B32, "AddChecksumDblSha256ToBytes"))), pre="any bytes",
      post="RIPEMD160(SHA256(data)); first four bytes of the double SHA-256; data followed by those, in memory of its own", replay="hashes")
def hashes(ctx):
    sl, seq = any_bytes(ctx, "data")
    entry(ctx)
    h, e = call(ctx, HASH160, sl)
    ens(ctx, "U05", errnil(ctx, e), "no error")
    s1 = hash_uf("SHA256", 256, seq)
    ens(ctx, "U05", bytes_eq(ctx, h, BSeq((split(hash_uf("RIPEMD160", 160, BSeq((split(s1, 32),))), 20),))), "RIPEMD160 of SHA-256")
    c, e = call(ctx, DBLCHK, sl)
    chk = dsha(seq)[:4]
    ens(ctx, "U05", band(errnil(ctx, e), bytes_eq(ctx, c, BSeq((chk,)))), "first four bytes of the double SHA-256")
    d, e = call(ctx, fn(B32, "AddChecksumDblSha256ToBytes"), sl)
    ens(ctx, "U05", band(errnil(ctx, e), bytes_eq(ctx, d, seq + BSeq((chk,)))), "data followed by its checksum")
    ens(ctx, "X01", bytes_eq(ctx, sl, seq), "the argument is unchanged")


# ------------------------------------------------------------------ root key
@unit("rootseed", "U03 X01 X02", ROOTSEED, pre="any text", cost=30, replay="rootseed",
      post="never nil; without error exactly for hex text of at least 16 bytes with a valid master key, which it then is")
def rootseed(ctx):
    s = text_arg(ctx, "seed")
    entry(ctx)
    k, e = call(ctx, ROOTSEED, s)
    ok = errnil(ctx, e)
    ens(ctx, "U03", bnot(zb(ctx.isnil(k))), "the result pointer is not nil")
    seq = models.unhex(ctx, s)
    if seq is None:
        ens(ctx, "U03", bnot(zb(ok)), "text that is not hex is refused")
        return
    il, ir = halves(hmac512(tuple(b"Bitcoin seed"), seq))
    long = simp(z3.UGE(bv(seq.length, 64), 16))
    ens(ctx, "U03", iff(ok, band(long, valid_scalar(il))), "an error exactly for fewer than 16 bytes or a seed without a valid master key")
    if ctx.branch(zb(ok)):
        c = key_cells(ctx, k)
        ens(ctx, "U03", eq_cells(c, mk_cells(0x0488ade4, 0, 0, 0, ir, 0, il)), "the BIP-32 master key of the bytes")
