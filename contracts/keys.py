"""Contracts of package bip32: master keys, child derivation, public form,
serialization and import."""
from .lib import *
from .lib import PVT, PUB

NEWMASTER = fn(B32, "NewMasterKey")
NEWCHILD = fn(B32, "NewChildKey", "*Key")
PUBEXT = fn(B32, "PublicKeyExtended", "*Key")


def seed_lengths(ctx, name="seed"):
    return any_bytes(ctx, name)


@unit("newmaster", "K01 X01 X02", NEWMASTER, replay="master",
      pre="any seed bytes, of any length",
      post="I = HMAC-SHA512(\"Bitcoin seed\", seed); error and nil key exactly when IL is 0 or >= n; otherwise key = version 0488ade4, depth 0, fingerprint 0, child number 0, chain code IR, key data 00||IL")
def newmaster(ctx):
    sl, seed = any_bytes(ctx, "seed")
    entry(ctx)
    k, e = call(ctx, NEWMASTER, sl)
    I = hmac512(tuple(b"Bitcoin seed"), seed)
    il, ir = halves(I)
    ok = errnil(ctx, e)
    ens(ctx, "K01", iff(ok, valid_scalar(il)), "an error exactly when the left half of I is not in 1..n-1")
    ens(ctx, "K01", iff(ok, bnot(ctx.isnil(k))), "a key exactly when there is no error")
    if ctx.branch(zb(ok)):
        v = KeyView(key_cells(ctx, k))
        ens(ctx, "K01", eqv(v.ver, 0x0488ade4, 32), "version is 0488ade4")
        ens(ctx, "K01", eqv(v.depth, 0, 8), "depth is 0")
        ens(ctx, "K01", eqv(v.fp, 0, 32), "parent fingerprint is 0")
        ens(ctx, "K01", eqv(v.cn, 0, 32), "child number is 0")
        ens(ctx, "K01", eqv(v.cc, ir, 256), "chain code is the right half of I")
        ens(ctx, "K01", band(eqv(v.kd0, 0, 8), eqv(v.kd, il, 256)), "key data is 0 followed by the left half of I")


def child_data(P, k, idx, hardened):
    if hardened:
        return (0,) + split(k, 32) + split(idx, 4)
    return P + split(idx, 4)


class Ckd:
    """what BIP-32 says a child is: conditions of success and the fields"""

    def __init__(self, ctx, s, idx, private, hard):
        if private:
            P = pub_of(ctx, s.kd)
            I = hmac512(split(s.cc, 32), child_data(P, s.kd, idx, hard))
        else:
            P = (s.kd0,) + split(s.kd, 32)
            I = hmac512(split(s.cc, 32), P + split(idx, 4))
        il, ir = halves(I)
        self.ver, self.cn, self.cc = s.ver, idx, ir
        self.depth = simp(bv(s.depth, 8) + 1)
        self.fp = cat(hash160(P)[:4])
        self.deep = zb(eqv(s.depth, 255, 8))
        self.unreg = zb(bnot(registered(bv(s.ver, 32), private)))
        self.badil = z3.Not(valid_scalar(il))
        if private:
            self.ck = modadd(il, s.kd)
            self.none = self.ck == 0
            self.kd = (0,) + split(self.ck, 32)
        else:
            gx, gy = gpoint(ctx, il)
            x, y = addpoint(ctx, gx, gy, s.kd, lift_y(ctx, s.kd, bv(s.kd0, 8)))
            self.none = z3.And(x == 0, y == 0)
            self.kd = ser_point(x, y)
        self.fails = z3.Or(self.deep, self.unreg, self.badil, self.none)

    def cells(self):
        return mk_cells(self.ver, self.depth, self.fp, self.cn, self.cc, 0, 0)[:45] + self.kd


class NewChildContract:
    """contract of NewChildKey on valid keys, as established by child_priv and child_pub"""

    def apply(self, ctx, args):
        kp, idx = args
        v = KeyView(key_cells(ctx, kp))
        kd0 = bv(v.kd0, 8)
        private = ctx.branch(simp(kd0 == 0))
        hard = ctx.branch(simp(z3.UGE(bv(idx, 32), 1 << 31)))
        if private:
            ctx.require(simp(valid_scalar(bv(v.kd, 256))), "precondition of NewChildKey: a private key in 1..n-1", ("pre",))
        else:
            ctx.require(simp(valid_pub(ctx, kd0, bv(v.kd, 256))), "precondition of NewChildKey: a compressed curve point", ("pre",))
        if hard and not private:
            return Tup(((0,) * 78, glob(ctx, B32 + ".ErrHardenedChildPublicKey")))
        c = Ckd(ctx, v, bv(idx, 32), private, hard)
        if ctx.branch(simp(c.fails)):
            return Tup((tuple(ctx.fresh("errkey", 8) for _ in range(78)), models.any_err(ctx, "derivation")))
        return Tup((c.cells(), None))


def child_clauses(ctx, s, idx, c, v, ok, private):
    me = "K02" if private else "K03"
    ens(ctx, "K07", imp(c.deep, bnot(ok)), "no child below depth 255")
    ens(ctx, "K10", imp(c.unreg, bnot(ok)), "no child of a key with an unregistered version")
    ens(ctx, me, imp(c.badil, bnot(ok)), "a left half outside 1..n-1 is refused")
    ens(ctx, me, imp(z3.And(z3.Not(c.badil), c.none), bnot(ok)), "a zero child key is refused" if private else "the point at infinity is refused")
    ens(ctx, me + " K07 K10 K05", imp(bnot(ok), c.fails), "otherwise the derivation succeeds")
    ens(ctx, "K10", imp(ok, eqv(v.ver, s.ver, 32)), "the child keeps its parent's version")
    ens(ctx, "K07", imp(ok, eqv(v.depth, s.depth + 1, 8)), "depth is the parent's plus one")
    ens(ctx, "K07", imp(ok, eqv(v.fp, c.fp, 32)), "fingerprint is the start of RIPEMD160(SHA256(parent public key))")
    ens(ctx, "K07", imp(ok, eqv(v.cn, idx, 32)), "child number is the index, big endian")
    ens(ctx, me, imp(ok, eqv(v.cc, c.cc, 256)), "chain code is the right half of I")
    if private:
        ens(ctx, "K02 K07", imp(ok, eqv(v.kd0, 0, 8)), "the child of a private key is private")
        ens(ctx, "K02", imp(ok, eqv(v.kd, c.ck, 256)), "child scalar is (IL + k) mod n")
    else:
        ens(ctx, "K03 K05 K07", imp(ok, bnot(eqv(v.kd0, 0, 8))), "the child of a public key is public")
        ens(ctx, "K03 K05", imp(ok, eq_cells(v.cells[45:78], c.kd)), "child key is the compressed sum IL*G + parent point")


@unit("child_priv", "K02 K07 K10 X01 X02", NEWCHILD, cost=50,
      pre="private key with scalar k in 1..n-1, any version, depth, fingerprint, child number, chain code; any index",
      post="BIP-32 CKDpriv; errors exactly for depth 255, unregistered version, IL not in 1..n-1, zero child scalar",
      replay="child")
def child_priv(ctx):
    s = SymKey(ctx)
    s.kd0 = 0
    idx = u32(ctx, "index")
    kp = key_ptr(ctx, s.cells())
    ctx.assume(simp(valid_scalar(s.kd)))
    hard = ctx.branch(simp(z3.UGE(idx, 1 << 31)))
    entry(ctx)
    c, e = call(ctx, NEWCHILD, kp, idx)
    child_clauses(ctx, s, idx, Ckd(ctx, s, idx, True, hard), KeyView(key_cells(ctx, c)), errnil(ctx, e), True)
    same_key(ctx, kp, s, "K02 X01")


def same_key(ctx, kp, s, props):
    ens(ctx, props, eq_cells(key_cells(ctx, kp), s.cells()), "the receiver is unchanged")


@unit("child_pub", "K03 K05 K07 K10 X01 X02", NEWCHILD, cost=50,
      pre="public key whose key data is the compressed encoding of a curve point, any version, depth, fingerprint, child number, chain code; any index",
      post="BIP-32 CKDpub; ErrHardenedChildPublicKey and the zero key for hardened indexes; other errors exactly for depth 255, unregistered version, IL not in 1..n-1, point at infinity",
      replay="child")
def child_pub(ctx):
    s = SymKey(ctx)
    idx = u32(ctx, "index")
    kp = key_ptr(ctx, s.cells())
    ctx.assume(simp(valid_pub(ctx, s.kd0, s.kd)))
    hard = ctx.branch(simp(z3.UGE(idx, 1 << 31)))
    entry(ctx)
    c, e = call(ctx, NEWCHILD, kp, idx)
    ok = errnil(ctx, e)
    v = KeyView(key_cells(ctx, c))
    same_key(ctx, kp, s, "K03 X01")
    if hard:
        ens(ctx, "K05", is_err(ctx, e, B32 + ".ErrHardenedChildPublicKey"), "hardened index: the dedicated error")
        ens(ctx, "K05", eqv(cat(v.cells), 0, 624), "hardened index: no key")
        return
    ens(ctx, "K05", imp(bnot(ok), bnot(is_err(ctx, e, B32 + ".ErrHardenedChildPublicKey"))), "the dedicated error is for hardened indexes only")
    child_clauses(ctx, s, idx, Ckd(ctx, s, idx, False, False), v, ok, False)


@unit("child_any", "K05 X01 X02", NEWCHILD, cost=60, replay="child",
      pre="any 78 bytes, any index", post="no panic, no write to existing memory; a public key has no hardened child")
def child_any(ctx):
    s = SymKey(ctx)
    idx = u32(ctx, "index")
    kp = key_ptr(ctx, s.cells())
    entry(ctx)
    c, e = call(ctx, NEWCHILD, kp, idx)
    ok = errnil(ctx, e)
    v = KeyView(key_cells(ctx, c))
    hp = z3.And(s.kd0 != 0, z3.UGE(idx, 1 << 31))
    ens(ctx, "K05", imp(hp, is_err(ctx, e, B32 + ".ErrHardenedChildPublicKey")), "hardened child of a public key: the dedicated error")
    ens(ctx, "K05", imp(hp, eqv(cat(v.cells), 0, 624)), "hardened child of a public key: no key")
    ens(ctx, "K05", imp(z3.And(zb(ok), s.kd0 != 0), bnot(eqv(v.kd0, 0, 8))), "no child of a public key is private")
    same_key(ctx, kp, s, "X01")
