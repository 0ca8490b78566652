"""Contracts of VersionBytes entries."""
from engine import textmodels as tm
from .lib import *
from .tables import SLIP132
from .paths import WHITE, SLASH, H31

NAMES = ["IsValid", "IsRegistered", "PurposeVal", "CoinVal", "PurposeValFull", "CoinValFull", "PvtKeyFlagBytes", "PubKeyFlagBytes"]
METH = {n: fn(B32, n, "VersionBytes") for n in NAMES}
SPELLED = dfa.full(r"m/[0-9]{1,8}'/[0-9]{1,8}'")
SHORT = dfa.full(r"m/[0-9]{0,8}'/[0-9]{0,8}'")
SHAPE = dfa.full(r"m/[0-9]*'/[0-9]*'")


def version_entry(ctx):
    """arbitrary entry; its path text without white space"""
    fs = {f["name"]: f for f in struct(ctx, B32 + ".VersionBytes")}
    raw = text_arg(ctx, "path")
    pvt, pub = u32(ctx, "pvtflag"), u32(ctx, "pubflag")
    have = {"Coin": op("atom", "coin"), "PvtKeyFlag": pvt, "PvKeyPrefix": op("atom", "pvtprefix"), "PubKeyFlag": pub,
            "PubKeyPrefix": op("atom", "pubprefix"), "AddrEncodings": NILS, "Path": raw}
    v = tuple(have[n] if n in have else ctx.zero(fs[n]["type"]) for n in fs)
    return v, tm.erase(ctx, raw, WHITE), pvt, pub


def struct(ctx, name):
    t = ctx.prog.types[ctx.prog.bystr[name]]
    while t["kind"] == "named":
        t = ctx.prog.types[t["under"]]
    return t["fields"]


@unit("versionvals", "K12 X01 X02", ",".join(METH.values()), pre="any version entry: any flags, any path text", replay="versionbytes",
      post="purpose and coin type are the numbers the path spells, the full variants 2^31 more; other paths are an error; flag bytes are the big-endian flags; registered exactly for the paths of the registry")
def versionvals(ctx):
    v, s, pvt, pub = version_entry(ctx)
    spelled = tm.in_lang(ctx, s, SPELLED)
    short = spelled or tm.in_lang(ctx, s, SHORT)
    shape = short or tm.in_lang(ctx, s, SHAPE)
    num = {j: tm.parse_digits(ctx, tm.erase(ctx, ctx.norm(tm.comp(ctx, s, SLASH, j)), frozenset(b"'"))) for j in (1, 2)} if shape else {1: None, 2: None}
    entry(ctx)
    for n, f in (("PvtKeyFlagBytes", pvt), ("PubKeyFlagBytes", pub)):
        ens(ctx, "K12", eqv(cat(call(ctx, METH[n], v)), f, 32), n + " is the flag, big endian")
    for n, j, add in (("PurposeVal", 1, 0), ("CoinVal", 2, 0), ("PurposeValFull", 1, H31), ("CoinValFull", 2, H31)):
        x, e = call(ctx, METH[n], v)
        ok = errnil(ctx, e)
        if spelled:
            ens(ctx, "K12", ok, n + ": a path m/purpose'/coin' of up to eight digits each is accepted")
        elif not shape:
            ens(ctx, "K12", bnot(zb(ok)), n + ": a path of another shape is an error")
        if (ctx.branch(zb(ok)) if isz(ok) else ok):
            c = num[j]
            if c is None:
                ens(ctx, "K12", False, n + ": a component without digits is an error")
            else:
                ens(ctx, "K12", z3.And(z3.ULT(bv(c, tm.NW), H31), eqv(x, z3.Extract(31, 0, bv(c, tm.NW)) + add, 32)), n + " is the number the path spells" + (" plus 2^31" if add else ""))
    iv = call(ctx, METH["IsValid"], v)
    ens(ctx, "K12", imp(iv, shape), "IsValid only for paths m/purpose'/coin'")
    if spelled:
        ens(ctx, "K12", iv, "IsValid for m/purpose'/coin' of up to eight digits each")


@unit("versionreg", "K12 X01 X02", METH["IsRegistered"], pre="any version entry", post="registered exactly for the paths of the registry", replay="versionbytes")
def versionreg(ctx):
    v, s, pvt, pub = version_entry(ctx)
    entry(ctx)
    r = call(ctx, METH["IsRegistered"], v)
    m = glob(ctx, B32 + ".HDVersionBytesSlice")
    fs = [f["name"] for f in struct(ctx, B32 + ".VersionBytes")]
    want = False
    for d in ctx.slice_vals(m):
        want = bor(want, text_eq(ctx, s, d[fs.index("Path")]))
    ens(ctx, "K12", iff(zb(r), zb(want)), "registered exactly for the paths of the registry")
