"""Registries built by package initialisation: version bytes (SLIP-0132), coins
(SLIP-0044), word lists (BIP-39).  The verifier executes the initialisation of
the code and the statements are decided on the values it leaves behind."""
import random
from engine import textmodels
from engine.execu import NoMerge
from .lib import *
from .lib import PVT, PUB
from .tables import SLIP132, COIN_ROWS, LANGS, words
from .extkeys import ser82, SERIALIZE, B58SER

INIT32 = B32 + ".init"


def gmap(ctx, name):
    """entries of a global map: [(key, value)]"""
    m = glob(ctx, name)
    if m.oid is None:
        return []
    v = ctx.heap[m.oid]
    return [(k if not isinstance(k, BSeq) else k.concrete, x) for k, x in v.d.values()]


def st(b):
    return b.concrete.decode("utf8", "surrogateescape") if isinstance(b, BSeq) else b


def structs(ctx, sl, fields):
    """slice of structs as dicts"""
    if sl.oid is None:
        return []
    return [dict(zip(fields, v)) for v in ctx.slice_vals(sl)]


def fieldnames(ctx, tname):
    t = ctx.prog.types[ctx.prog.bystr[tname]]
    while t["kind"] == "named":
        t = ctx.prog.types[t["under"]]
    return [f["name"] for f in t["fields"]]


def entries(ctx, sl):
    fs = fieldnames(ctx, B32 + ".VersionBytes")
    out = []
    for d in structs(ctx, sl, fs):
        enc = [st(x) for x in ctx.slice_vals(d["AddrEncodings"])] if d["AddrEncodings"].oid is not None else []
        out.append((st(d["Coin"]), d["PvtKeyFlag"], st(d["PvKeyPrefix"]), d["PubKeyFlag"], st(d["PubKeyPrefix"]), tuple(enc), st(d["Path"])))
    return out


def num2(path):
    """purpose and coin type of a two-level path"""
    p = path.split("/")
    return int(p[1].rstrip("'")), int(p[2].rstrip("'"))


def check_registry(ctx, order):
    """all statements about one state of the version registry; yields (name, ok)"""
    bag = lambda l: sorted(map(repr, l))
    HD = entries(ctx, glob(ctx, B32 + ".HDVersionBytesSlice"))
    maps = {n: {k: entries(ctx, v) for k, v in gmap(ctx, B32 + "." + n)} for n in
            ("PvtFlagToHDBytesSlice", "PubFlagToHDBytesSlice", "PurposeToHDBytesSlice", "PurposeFullToHDBytesSlice", "CoinTypeToHDBytesSlice")}
    paths = {k.decode(): entries(ctx, v) for k, v in gmap(ctx, B32 + ".PathToHDBytesSlice")}
    yield "every registered private version has exactly one public version, equal to the SLIP-0132 pair", \
        set(maps["PvtFlagToHDBytesSlice"]) == set(PVT) and all({e[3] for e in b} == PVT[k] and {e[1] for e in b} == {k} for k, b in maps["PvtFlagToHDBytesSlice"].items())
    yield "every registered public version has exactly one private version, equal to the SLIP-0132 pair", \
        set(maps["PubFlagToHDBytesSlice"]) == set(PUB) and all({e[1] for e in b} == PUB[k] and {e[3] for e in b} == {k} for k, b in maps["PubFlagToHDBytesSlice"].items())
    keyf = {"PvtFlagToHDBytesSlice": lambda e: e[1], "PubFlagToHDBytesSlice": lambda e: e[3],
            "PurposeToHDBytesSlice": lambda e: num2(e[6])[0], "PurposeFullToHDBytesSlice": lambda e: num2(e[6])[0] + (1 << 31),
            "CoinTypeToHDBytesSlice": lambda e: num2(e[6])[1]}
    for n, f in keyf.items():
        want = {}
        for e in HD:
            want.setdefault(f(e), []).append(e)
        yield n + " holds every entry under its own key and nothing else", \
            {k: bag(v) for k, v in maps[n].items() if v} == {k: bag(v) for k, v in want.items()}
    want = {}
    for e in HD:
        want.setdefault(e[6], []).append(e)
    yield "PathToHDBytesSlice holds every entry under its own path and nothing else", {k: bag(v) for k, v in paths.items() if v} == {k: bag(v) for k, v in want.items()}
    rows = {(r["pvt"], r["pub"], r["path"]) for r in SLIP132}
    have = {(e[1], e[3], e[6]) for e in HD}
    yield "every row of SLIP-0132 is registered", all(r in have if r[2].startswith("m/") else r[:2] in {h[:2] for h in have} for r in rows)
    yield "every entry is a row of SLIP-0132", HD != [] and all(h in rows or h[:2] + ("-",) in rows for h in have)


@unit("registry", "K10", INIT32, kind="evaluation", cost=10,
      pre="the state package initialisation leaves behind when maps are iterated in source order or reversed",
      post="the version registry is SLIP-0132, consistent in all its indexes", replay="registry")
def registry_unit(ctx):
    ctx.restore(ctx.session.concrete)
    for nm, ok in check_registry(ctx, "source order"):
        ens(ctx, "K10", bool(ok), nm + " (source order)")
    ctx.session.reinit(ctx, lambda l: l[::-1])
    for nm, ok in check_registry(ctx, "reversed"):
        ens(ctx, "K10", bool(ok), nm + " (reversed order)")
    ctx.restore(ctx.session.base)


# ------------------------------------------------------------------ independence of the iteration order
INDEXES = ("PvtFlagToHDBytesSlice", "PubFlagToHDBytesSlice", "PurposeToHDBytesSlice", "PurposeFullToHDBytesSlice", "CoinTypeToHDBytesSlice")


class Shape(Exception):
    """the initialisation is not of the form the inductive argument is about"""


def image(ctx):
    """what the package variables of bip32 hold"""
    out = {}
    for n in sorted(ctx.prog.globals):
        if ctx.prog.globals[n]["pkg"] == B32:
            v = ctx.heap[ctx.globals[n]]
            out[n] = v
            if isinstance(v, MapRef) and v.oid is not None:
                m = ctx.heap[v.oid]
                out[n + " (map)"] = tuple(sorted((repr(k), id(x)) for k, (_, x) in m.d.items())) if isinstance(m, MapVal) else m
    return out


def same_image(a, b):
    return a.keys() == b.keys() and all(a[k] is b[k] or (isinstance(a[k], tuple) and isinstance(b[k], tuple) and a[k] == b[k]) for k in a)


def loop_function(ctx):
    """the one initialisation function whose work depends on the order of a map"""
    ctx.range_log = log = []
    try:
        ctx.session.reinit(ctx, lambda l: l)
    finally:
        ctx.range_log = None
    fs = {f for f, _, n in log if n > 1}
    if not fs:
        return None
    if len(fs) > 1 or len([1 for f, _, n in log if n > 1]) > 1:
        raise Shape("several iterations over maps")
    f = ctx.prog.funcs[fs.pop()]
    if not f.name.startswith(B32 + ".init#") or f.params:
        raise Shape("the iteration is not in an initialisation function")
    body = {}
    for h, l in f.heads.items():
        for i in f.blocks[h]["instrs"]:
            if i["op"] == "Next":
                body[h] = l
    if len(body) != 1:
        raise Shape("several loops over maps")
    (h, loop), = body.items()
    if ctx.phis_of(f, h):
        raise Shape("variables carried around the loop")
    for k, b in enumerate(f.blocks):
        for i in b["instrs"]:
            if k not in loop and i["op"] in ("Alloc", "MakeMap", "MakeSlice", "MakeChan", "Go", "Defer"):
                raise Shape("memory of the function outlives an iteration")
    return f


def run_with(ctx, f, pick):
    pr, ctx.protected = ctx.protected, 0
    ctx.map_order = pick
    try:
        ctx.run(f, [])
    finally:
        ctx.protected = pr
        ctx.map_order = "ins"


def arbitrary_registry(ctx, HD):
    """any content of the slice and the indexes: what earlier iterations left"""
    t = ctx.prog.types[ctx.prog.globals[HD]["type"]]
    while t["kind"] in ("named", "pointer"):
        t = ctx.prog.types[t["under"] if t["kind"] == "named" else t["elem"]]

    def unreadable(c, j):
        raise Shape("an iteration reads what earlier ones stored")

    def some(name, k):
        n = z3.BitVec("len!%s" % k, 64)
        ctx.assume(simp(z3.ULT(n, 1 << 40)))
        o = ctx.alloc(SymSeq(SpecSeq(name, unreadable), n), ("arr", t["elem"]))
        r = SliceOrNil(o, (), 0, n, None)
        r.nilcond = simp(n == 0)
        return r
    ghosts = {}

    def ghost(nm, k):
        if (nm, k) not in ghosts:
            ghosts[nm, k] = some(("old", nm, k), "%s!%s" % (nm, k))
        return ghosts[nm, k]
    for nm in INDEXES:
        g = B32 + "." + nm
        ref = ctx.heap[ctx.globals[g]]
        if not isinstance(ref, MapRef):
            raise Shape("an index is not a map")

        def lookup(c, k, nm=nm):
            mk = c.mapkey(k)
            if mk is None:
                raise Shape("an index is looked up under an unknown key")
            v = ghost(nm, mk)
            return v, bnot(v.nilcond)
        ctx.heap[ref.oid] = SymMap(nm, lookup)
    hd = ghost("HD", 0)
    ctx.heap[ctx.globals[HD]] = hd
    return ghosts


def appended(ctx, old, new):
    """what was added to a slice of arbitrary content, None if something else happened to it"""
    if new.oid is None:
        return [] if old.oid is None else None
    c = ctx.heap[new.oid]
    if old.oid is None:
        return entries(ctx, new)
    if new is old:
        return []
    if not isinstance(c, SymSeq) or c.spec is not ctx.heap[old.oid].spec or c.m is not ctx.heap[old.oid].m or c.over or c.total is not None or new.off != 0 or \
            not ctx.entails(simp(bv(new.len, 64) == bv(c.used(), 64))):
        return None
    fs = fieldnames(ctx, B32 + ".VersionBytes")
    o = ctx.alloc(c.ext, ctx.otype[new.oid])
    return entries(ctx, SliceV(o, (), 0, len(c.ext), len(c.ext)))


def one_step(ctx, f, paths, k):
    """one iteration, for the k-th path, on an arbitrary registry: only appends, under the entries' own keys"""
    HD = B32 + ".HDVersionBytesSlice"
    ghosts = arbitrary_registry(ctx, HD)
    hd0 = ctx.heap[ctx.globals[HD]]
    before = image(ctx)
    run_with(ctx, f, (lambda l: [l[k]]) if k is not None else (lambda l: []))
    after = image(ctx)
    mine = {HD} | {B32 + "." + n + " (map)" for n in INDEXES}
    if not same_image({a: b for a, b in before.items() if a not in mine}, {a: b for a, b in after.items() if a not in mine}):
        return "another package variable changes"
    bag = lambda l: sorted(map(repr, l))
    want = paths[k] if k is not None else []
    add = appended(ctx, hd0, after[HD])
    if add is None or bag(add) != bag(want):
        return "the list of entries gains other entries than those of the path"
    keyf = (lambda e: e[1], lambda e: e[3], lambda e: num2(e[6])[0], lambda e: num2(e[6])[0] + (1 << 31), lambda e: num2(e[6])[1])
    for nm, kf in zip(INDEXES, keyf):
        m = after[B32 + "." + nm + " (map)"]
        if not isinstance(m, SymMap) or m.name != nm:
            return nm + " is replaced"
        last = {}
        for kk, v in m.writes:
            mk = ctx.mapkey(kk)
            if mk is None:
                return nm + " is written under an unknown key"
            last[mk] = v
        byk = {}
        for e in want:
            byk.setdefault(kf(e), []).append(e)
        for key in set(last) | set(byk):
            if key not in last:
                return nm + " does not gain an entry"
            old = ghosts.get((nm, key))
            if old is None:
                return nm + " is overwritten"
            add = appended(ctx, old, last[key])
            if add is None or bag(add) != bag(byk.get(key, [])):
                return nm + " gains other entries than those with its key"
    return ""


@unit("registry_step", "K10", INIT32, kind="lemma", cost=30,
      pre="any content of the list of entries and of the five indexes; any one path of the table of paths",
      post="the iteration for the path appends its entries to the list, appends each of them under its own key in each index, and changes nothing else: "
           "so, by induction, the registry is the same up to the order of its lists whatever order the table is iterated in",
      replay="registry")
def registry_step(ctx):
    m = ctx
    m.restore(m.session.concrete)
    why = ""
    try:
        f = loop_function(m)
        if f is None:
            ens(m, "K10", True, "the registry does not depend on the order of iteration: no map of several entries is iterated while it is built")
            m.restore(m.session.base)
            return
        # before the loop: the initialisation with every iteration left out
        m.session.reinit(m, lambda l: [])
        base = image(m)
        empty = not entries(m, glob(m, B32 + ".HDVersionBytesSlice")) and all(gmap(m, B32 + "." + n) == [] for n in INDEXES)
        paths = [entries(m, v) for _, v in gmap(m, B32 + ".PathToHDBytesSlice")]
        st0 = m.snap()
        run_with(m, f, lambda l: [])
        if not empty or not same_image(base, image(m)):
            raise Shape("the registry is not built by the loop alone")
        for k in [None] + list(range(len(paths))):
            m.restore(st0)
            outs = m.explore(lambda k=k: one_step(m, f, paths, k))
            bad = sorted({r for _, r in outs if r}) if outs else ["no path"]
            if bad:
                why = bad[0] + (" (path %d)" % k if k is not None else "")
                break
        m.restore(st0)
    except (Shape, Unsupported, NoMerge, Panic, KeyError, AttributeError, TypeError, IndexError) as e:
        why = "%s" % (e,) or type(e).__name__
    if not why:
        for k in range(len(paths)):
            ens(m, "K10", True, "the iteration for path %d appends its entries under their own keys and changes nothing else" % k)
        ens(m, "K10", True, "without iterations nothing is built")
    else:
        bounded_orders(m, why)
    m.restore(m.session.base)


def bounded_orders(ctx, why):
    import os
    n = 120 if os.environ.get("VERIF_TIER", "quick") == "quick" else 600
    ctx.notes.append("BOUNDED, not proved: independence of the registry from the order of map iteration (%s); tried instead: every path first, and %d random orders" % (why, n))
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
    orders = [("entry %d first" % i, (lambda i: lambda l: l[i % len(l):i % len(l) + 1] + l[:i % len(l)] + l[i % len(l) + 1:] if l else l)(i)) for i in range(1, 16)]
    for i in range(n):
        def f(l, s=rnd.random()):
            l = list(l)
            random.Random(s).shuffle(l)
            return l
        orders.append(("random order %d" % i, f))
    for nm, f in orders:
        ctx.session.reinit(ctx, f)
        for what, ok in check_registry(ctx, nm):
            ens(ctx, "K10", bool(ok), what + " (%s)" % nm)


B58A = models.B58A.decode()


def prefix_of(ver, n):
    """the first n base58 characters shared by all 82-byte strings starting with the version, or None"""
    lo, hi = ver << 624, ((ver + 1) << 624) - 1
    a, b = models.b58enc(lo.to_bytes(82, "big")).decode(), models.b58enc(hi.to_bytes(82, "big")).decode()
    # base58 of a fixed number of bytes is monotone for a fixed number of digits
    if len(a) != len(b) or a[:n] != b[:n]:
        return None
    return a[:n]


@unit("prefixes", "K11", INIT32, kind="lemma", uses=("serialize",),
      pre="every registered entry; any 78-byte key with its private (public) version",
      post="the text form starts with the documented prefix: all 82-byte strings between version||00.. and version||ff.. have base58 texts of one length, "
           "which are then ordered like the strings, and the smallest and the largest start with the prefix", replay="prefix")
def prefixes(ctx):
    ctx.restore(ctx.session.concrete)
    seen = set()
    for e in entries(ctx, glob(ctx, B32 + ".HDVersionBytesSlice")):
        if e in seen:
            continue
        seen.add(e)
        ens(ctx, "K11", len(e[2]) == 4 and prefix_of(e[1], 4) == e[2], "%s %s: private version %08x serializes as %s..." % (e[0], e[6], e[1], e[2]))
        ens(ctx, "K11", len(e[4]) == 4 and prefix_of(e[3], 4) == e[4], "%s %s: public version %08x serializes as %s..." % (e[0], e[6], e[3], e[4]))
    ens(ctx, "K11", len(seen) > 0, "there are registered entries")
    ctx.restore(ctx.session.base)


# ------------------------------------------------------------------ coins
COINVALID = fn(B44, "IsValid", "Coin")


def coins(ctx, sl):
    fs = fieldnames(ctx, B44 + ".Coin")
    return [(d["Type"], d["PathComponent"], st(d["Symbol"]), st(d["Name"])) for d in structs(ctx, sl, fs)]


def coinv(ctx, v):
    fs = fieldnames(ctx, B44 + ".Coin")
    d = dict(zip(fs, v))
    return (d["Type"], d["PathComponent"], st(d["Symbol"]), st(d["Name"]))


@unit("coins", "C01", B44 + ".init", kind="evaluation", cost=10,
      pre="the state package initialisation leaves behind", post="every registered coin is valid, is a SLIP-0044 row, and is found under its keys; every map entry is a registered coin with that key",
      replay="coins")
def coins_unit(ctx):
    ctx.restore(ctx.session.concrete)
    raw = ctx.slice_vals(glob(ctx, B44 + ".RegCoins"))
    C = coins(ctx, glob(ctx, B44 + ".RegCoins"))
    reg = set(C)
    ens(ctx, "C01", len(C) > 0, "there are registered coins")
    types = {k: coinv(ctx, v) for k, v in gmap(ctx, B44 + ".RegBip44CoinsTypeToValMap")}
    paths = {k: coinv(ctx, v) for k, v in gmap(ctx, B44 + ".RegBip44CoinsPathCompToValMap")}
    names = {k.decode("utf8", "surrogateescape"): coinv(ctx, v) for k, v in gmap(ctx, B44 + ".RegBip44CoinsNameToValMap")}
    rows = {}
    for r in COIN_ROWS:
        rows.setdefault(r["path"], []).append((r["symbol"], r["name"]))
    for v, c in zip(raw, C):
        t, p, s, n = c
        d = "%s (%d)" % (n, t)
        ok = call(ctx, COINVALID, v)
        ens(ctx, "C01", ok if isz(ok) else bool(ok), "registered coin is valid: " + d)
        ens(ctx, "C01", bool((s.strip() or n.strip()) and t < 1 << 31 and p == t + (1 << 31)), "registered coin has matching type and path component: " + d)
        ens(ctx, "C01", (s, " ".join(n.split())) in [(a, " ".join(b.split())) for a, b in rows.get(p, [])], "registered coin is a row of SLIP-0044: " + d)
        ens(ctx, "C01", types.get(t) is not None and types[t][0] == t and types[t] in reg and (types[t] == c or C.count(c) > 1 or [x[0] for x in C].count(t) > 1), "found under its type: " + d)
        ens(ctx, "C01", paths.get(p) is not None and paths[p][1] == p and (paths[p] == c or [x[1] for x in C].count(p) > 1), "found under its path component: " + d)
        ens(ctx, "C01", names.get(n) is not None and names[n][3] == n, "found under its name: " + d)
    for k, c in types.items():
        ens(ctx, "C01", c in reg and c[0] == k, "lookup by type gives a registered coin of that type: %d" % k)
    for k, c in paths.items():
        ens(ctx, "C01", c in reg and c[1] == k, "lookup by path component gives a registered coin with it: %x" % k)
    for k, c in names.items():
        ens(ctx, "C01", c in reg and c[3] == k, "lookup by name gives a registered coin of that name: " + k)
    ctx.restore(ctx.session.base)


BLANK = textmodels.BLANK


@unit("coinvalid", "C01 X02 X01", ",".join((COINVALID, fn(B44, "String", "Coin"), fn(B44, "StringForMD", "Coin"))),
      pre="any coin value", post="valid exactly with a non-blank name or symbol, type below 2^31 and path component type + 2^31", replay="coinvalid")
def coinvalid(ctx):
    name, sym = text_arg(ctx, "name"), text_arg(ctx, "symbol")
    t, p = u32(ctx, "type"), u32(ctx, "path")
    fs = fieldnames(ctx, B44 + ".Coin")
    d = {"Type": t, "PathComponent": p, "Symbol": sym, "Name": name}
    bn, bs = ctx.in_lang(name, BLANK), ctx.in_lang(sym, BLANK)
    entry(ctx)
    v = call(ctx, COINVALID, tuple(d[f] for f in fs))
    want = band(not (bn and bs), simp(z3.And(z3.ULT(t, 1 << 31), p == t + (1 << 31))))
    ens(ctx, "C01", iff(zb(v), zb(want)), "exactly the coins with a name or symbol, a type below 2^31 and a matching path component")
    call(ctx, fn(B44, "String", "Coin"), tuple(d[f] for f in fs))
    call(ctx, fn(B44, "StringForMD", "Coin"), tuple(d[f] for f in fs))


# ------------------------------------------------------------------ word lists
@unit("wordlists", "B06", ",".join((WL + ".init", B39 + ".init")), kind="evaluation", cost=5,
      pre="the state package initialisation leaves behind", post="each shipped list is the official BIP-39 list; the English one is active", replay="wordlists")
def wordlists(ctx):
    ctx.restore(ctx.session.concrete)
    for lang in LANGS:
        got = [st(x) for x in ctx.slice_vals(glob(ctx, WL + "." + lang))]
        want = words(lang)
        ens(ctx, "B06", len(got) == 2048, lang + ": 2048 words")
        ens(ctx, "B06", len(set(got)) == len(got), lang + ": pairwise distinct")
        ens(ctx, "B06", all(w and not any(ch.isspace() for ch in w) for w in got), lang + ": no word is empty or has white space")
        bad = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), None)
        ens(ctx, "B06", got == want, lang + ": the words of the official file in order" + ("" if bad is None else " (word %d)" % bad))
    act = [st(x) for x in ctx.slice_vals(call(ctx, fn(B39, "GetWordList"), shared=True))]
    ens(ctx, "B06", act == words("English"), "the active list is the English one")
    ctx.restore(ctx.session.base)
