"""Trusted contracts of strings, strconv, regexp, unicode.  Symbolic text is an
opaque term with a regular language known on the path; the operations below
return terms whose defining equations are the documented behaviour."""
import re
import z3
from .terms import *
from . import dfa
from .execu import *
from .models import model, MODELS, err, any_err, seqof, repeat

UNISPACE = "\t\n\v\f\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"
ASPACE = b"\t\n\v\f\r "
WORDCOUNTS = (12, 15, 18, 21, 24)


def strtid(ctx):
    return ctx.prog.bystr["string"]


def str_slice(ctx, vals):
    return ctx.new_slice(vals, strtid(ctx), None)


def seq_slice(ctx, spec, m):
    o = ctx.alloc(SymSeq(spec, m), ("arr", strtid(ctx)))
    return SliceV(o, (), 0, m, None)


def text(bs):
    return bs.decode("utf8", "surrogateescape")


def unt(s):
    return s.encode("utf8", "surrogateescape")


# ------------------------------------------------------------------ part languages
def partlang(ctx, p):
    if isinstance(p, tuple):
        if any(isz(x) for x in p):
            return None
        return dfa.lit(bytes(p))
    return ctx.getlang(p)


def lacks(ctx, p, chars):
    """the part certainly contains none of the bytes"""
    if isinstance(p, tuple):
        for x in p:
            if isz(x):
                if not ctx.entails(z3.And(*[x != c for c in chars])):
                    return False
            elif x in chars:
                return False
        return True
    if p.kind in ("W", "field"):
        return all(c in ASPACE for c in chars)
    key = ("lacks", ctx.getlang(p).key, chars)
    r = _LK.get(key)
    if r is None:
        r = _LK[key] = ctx.getlang(p).inter(dfa.search("[" + "".join("\\x%02x" % c for c in sorted(chars)) + "]")).empty()
    return r


_LK = {}


def concat_lang(ctx, s):
    """over-approximated language of a composite string, None if not expressible"""
    n = dfa.NFA()
    cur = [n.new()]
    start = cur[0]
    for p in s.parts:
        L = partlang(ctx, p)
        if L is None:
            return None
        if len(L.rows) > 400:
            return None
        base = [n.new() for _ in L.rows]
        sub = L._nfa()
        for i in range(len(L.rows)):
            for cs, d in sub.tr[i]:
                n.tr[base[i]].append((cs, base[d]))
        for c in cur:
            n.eps[c].append(base[0])
        cur = [base[i] for i in range(len(L.rows)) if L.acc[i]]
    return n.dfa([start], cur)


# ------------------------------------------------------------------ removing characters
def erase(ctx, s, chars):
    """delete every byte of the set"""
    s = ctx.norm(s)
    if isinstance(chars, bytes):
        chars = frozenset(chars)
    out = []
    for p in s.parts:
        if isinstance(p, tuple):
            for x in p:
                if isz(x):
                    if ctx.entails(z3.And(*[x != c for c in chars])):
                        out.append((x,))
                        continue
                    if ctx.branch(simp(z3.Or(*[x == c for c in chars]))):
                        continue
                    out.append((x,))
                elif x not in chars:
                    out.append((x,))
            continue
        if lacks(ctx, p, chars):
            out.append(p)
            continue
        gone = chars
        if p.kind == "erase":
            if chars <= p.args[1]:
                out.append(p)
                continue
            # one deletion after the other: the order does not matter
            gone, p = chars | p.args[1], p.args[0].single
        L = ctx.getlang(p)
        gone = frozenset(c for c in gone if not lacks(ctx, p, frozenset((c,))))
        E = L.erase(gone)
        if E.minlen() == 0 and E.maxlen() == 0:
            continue
        # at most a fixed suffix removed
        o = Op("erase", BSeq((p,)), gone)
        if o.key not in ctx.lang:
            ctx.lang[o.key] = E
        sized(ctx, o)
        out.append(o)
    return BSeq(out)


def sized(ctx, o):
    """what the language of a text on this path says about its length (the
    language is a fact of the path, so its bounds must not be facts of the text)"""
    L = ctx.lang[o.key]
    k = ("sized", o.key)
    if ctx.hw.get(k) == L.key:
        return
    ctx.hw[k] = L.key
    lo, hi = L.minlen(), L.maxlen()
    n = o.length
    if isz(n):
        if lo == hi:
            ctx.assume(simp(n == lo))
        else:
            if lo:
                ctx.assume(simp(z3.ULE(lo, n)))
            if hi is not None:
                ctx.assume(simp(z3.ULE(n, hi)))


# ------------------------------------------------------------------ split / join
def comp_at(s, sep):
    """j-th part of an opaque string split at sep"""
    def at(ctx, j):
        return comp(ctx, s, sep, j)
    return at


def comp(ctx, s, sep, j):
    o = s.single
    if o is not None and o.kind == "joinrep" and o.args[1] == sep:
        base, _, b, x = o.args
        c = simp(bv(j, 64) == bv(b, 64)) if isz(j) or isz(b) else j == b
        if ctx.branch(c) if isz(c) else c:
            return x
        return comp(ctx, base, sep, j)
    L = ctx.getlang(o)
    ch = sep.concrete[0]
    key = (L.key, ch)
    if not isz(j) and j == 0:
        P = part_lang(L, ch, 0)
    else:
        if isz(j) and not ctx.entails(simp(bv(j, 64) != 0)):
            if ctx.branch(simp(bv(j, 64) == 0)):
                return comp(ctx, s, sep, 0)
        P = part_lang(L, ch, 1)
    q = Op("comp", s, sep, j)
    cur = ctx.lang.get(q.key)
    ctx.lang[q.key] = P if cur is None else (P if P.key == cur.key else cur.inter(P))
    sized(ctx, q)
    return BSeq((q,))


_PL = {}


def part_lang(L, ch, k):
    key = (L.key, ch, k)
    r = _PL.get(key)
    if r is None:
        a, b = L.split_langs(ch)
        _PL[(L.key, ch, 0)] = a
        _PL[(L.key, ch, 1)] = b
        r = _PL[key]
    return r


def ncomp(ctx, s, sep):
    o = s.single
    if o is not None and o.kind == "joinrep" and o.args[1] == sep:
        return ncomp(ctx, o.args[0], sep)
    n = uf("NCOMP", BS, BS, BV64)(s.bs(), sep.bs())
    k = ("ncomp", s.key, sep.key)
    if k not in ctx.done:
        ctx.done.add(k)
        ctx.fact(z3.And(z3.ULE(z3.BitVecVal(1, 64), n), z3.ULE(n, MAXLEN)))
    if sep.concrete and len(sep.concrete) == 1:
        c = ctx.getlang(o).count_char(sep.concrete[0])
        if c is not None:
            ctx.assume(simp(n == c + 1))
            return c + 1
    return n


def split(ctx, s, sep):
    """strings.Split"""
    s, sep = ctx.norm(s), ctx.norm(sep)
    c, p = s.concrete, sep.concrete
    if p is None or p == b"":
        if c is not None and p == b"":
            return str_slice(ctx, [lit(unt(ch)) for ch in text(c)])
        raise Unsupported("Split separator")
    if c is not None:
        return str_slice(ctx, [lit(x) for x in c.split(p)])
    if len(p) != 1:
        raise Unsupported("Split by a longer separator")
    ch = p[0]
    o = s.single
    if o is not None:
        if ctx.getlang(o).inter(dfa.contains(p)).empty() and o.kind != "joinrep":
            return str_slice(ctx, [s])
        n = ncomp(ctx, s, sep)
        sp = SpecSeq(("split", s.key, ch), comp_at(s, sep), s)
        if not isz(n) and n <= 64:
            return str_slice(ctx, [sp.at(ctx, j) for j in range(n)])
        return seq_slice(ctx, sp, n)
    cur, out = [], []
    for q in s.parts:
        if isinstance(q, tuple):
            for x in q:
                if isz(x):
                    if ctx.branch(simp(x == ch)):
                        x = ch
                if not isz(x) and x == ch:
                    out.append(BSeq(cur))
                    cur = []
                else:
                    cur.append((x,))
        elif lacks(ctx, q, frozenset([ch])):
            cur.append(q)
        else:
            raise Unsupported("Split of composite text")
    out.append(BSeq(cur))
    return str_slice(ctx, out)


@model("strings.Split", doc="the maximal separator-free parts, in order")
def strings_split(ctx, a, site):
    return split(ctx, a[0], a[1])


@model("strings.SplitN", "strings.Cut", doc="not modelled symbolically")
def strings_splitn(ctx, a, site):
    if len(a) == 3:
        s, p, n = ctx.norm(a[0]).concrete, ctx.norm(a[1]).concrete, a[2]
        if s is None or not p or isz(n):
            if isz(n) or n < 1 << 63:
                raise Unsupported("SplitN")
            return split(ctx, a[0], a[1])
        if n >= 1 << 63:
            return split(ctx, a[0], a[1])
        if n == 0:
            return NILS
        return str_slice(ctx, [lit(x) for x in s.split(p, n - 1)])
    s, p = ctx.norm(a[0]).concrete, ctx.norm(a[1]).concrete
    if s is None or p is None:
        raise Unsupported("Cut")
    x, f, y = s.partition(p)
    return Tup((lit(x), lit(y), bool(f)))


@model("strings.Join", doc="concatenation with separators")
def strings_join(ctx, a, site):
    sl, sep = a[0], ctx.norm(a[1])
    if sl.oid is None:
        return EMPTYB
    c = ctx.arr(sl)
    if isinstance(c, SymSeq) and isz(sl.len):
        return join_sym(ctx, sl, c, sep)
    vals = ctx.slice_vals(sl)
    out = []
    for i, v in enumerate(vals):
        if i:
            out.append(sep)
        out.append(ctx.norm(v))
    return BSeq(out)


def join_sym(ctx, sl, c, sep):
    nm = c.spec.name if c.spec is not None else None
    if nm and nm[0] == "split" and not c.ext and (isz(sl.off) or sl.off == 0) and sep.concrete == bytes([nm[2]]) and ctx.same(sl.len, c.m):
        s = c.spec.src
        for b, x in c.over:
            if not all(lacks(ctx, p, frozenset(sep.concrete)) for p in ctx.norm(x).parts):
                raise Unsupported("Join of text containing the separator")
            bz = simp(bv(b, 64) == 0) if isz(b) else b == 0
            L = None
            o = Op("joinrep", s, sep, b, ctx.norm(x))
            first = ctx.branch(bz) if isz(bz) else bz
            xl = concat_lang(ctx, ctx.norm(x))
            if first and xl is not None:
                L = cat_langs(xl, dfa.full("(" + re.escape(sep.concrete.decode()).replace("/", "/") + r"[\x00-\xff]*)?"))
            elif xl is not None:
                # no part of the original but the replaced one is new
                al = alphabet(ctx.getlang(s.single)) | alphabet(xl) | {sep.concrete[0]}
                L = dfa.charset(al)
            if L is not None:
                cur = ctx.lang.get(o.key)
                ctx.lang[o.key] = L if cur is None else cur.inter(L)
            s = BSeq((o,))
        return s
    raise Unsupported("Join of a symbolic sequence")


def joined_lang(ctx, o, L):
    """whether a text with one part replaced is in L, as far as the languages of the text, of the
    new part and of the parts beside it settle that for every such text (None otherwise)"""
    base, sep, b, x = o.args
    D, X = ctx.getlang(base.single), concat_lang(ctx, x)
    if base.single.kind == "joinrep" or X is None or len(D.rows) * len(L.rows) > 400:
        return None
    n, ch = ncomp(ctx, base, sep), sep.concrete[0]
    says = lambda f, c: ctx.entails(simp(f(bv(c, 64))))
    at = lambda j: ctx.getlang(comp(ctx, base, sep, j).single)
    head, rest = part_lang(D, ch, 0), part_lang(D, ch, 1)
    # (language of the part before, whether that is the first one); it may be one of several
    if isz(b):
        pre, prev = [], simp(b - 1)
        if not says(lambda v: b != v, 0):
            pre.append((None, True))
        if not says(lambda v: b != v, 1):
            pre.append((head, True))
        if not says(lambda v: z3.ULE(b, v), 1):
            pre.append((at(prev) if not pre else rest, False))
    else:
        pre = [(None, True)] if b == 0 else [(at(b - 1), b == 1)]
    nxt, nb = [], simp(bv(b, 64) + 1)
    if not says(lambda v: nb != v, n):
        nxt.append(None)
    if not says(lambda v: z3.UGE(nb, v), n):
        nxt.append(at(nb) if not nxt else rest)
    old = at(b) if not isz(b) or len(pre) == 1 else head.union(rest)
    r = [dfa.replaced_part(D, L, ch, p, f, old, X, q) for p, f in pre for q in nxt]
    return True if all(y for y, _ in r) else False if all(x for _, x in r) else None


def cat_langs(a, b):
    n = dfa.NFA()
    xa = [n.new() for _ in a.rows]
    xb = [n.new() for _ in b.rows]
    for L, x in ((a, xa), (b, xb)):
        sub = L._nfa()
        for i in range(len(L.rows)):
            for cs, d in sub.tr[i]:
                n.tr[x[i]].append((cs, x[d]))
    for i in range(len(a.rows)):
        if a.acc[i]:
            n.eps[xa[i]].append(xb[0])
    return n.dfa([xa[0]], [xb[i] for i in range(len(b.rows)) if b.acc[i]])


def alphabet(L):
    live = L.live()
    r = set()
    for s in live:
        for c in range(256):
            if L.rows[s][c] in live:
                r.add(c)
    return frozenset(r)


# ------------------------------------------------------------------ fields / trim
def unifields(c):
    out, cur = [], ""
    for ch in text(c):
        if ch in UNISPACE:
            if cur:
                out.append(unt(cur))
            cur = ""
        else:
            cur += ch
    if cur:
        out.append(unt(cur))
    return out


def nospace_part(ctx, p):
    if isinstance(p, tuple):
        return all(not isz(x) and x > 32 and x < 0x80 for x in p)
    return p.kind in ("W", "field", "dec", "hex", "b58", "sdec")


def nfields(ctx, s):
    n = uf("NF", BS, BV64)(s.bs())
    k = ("nf", s.key)
    if k not in ctx.done:
        ctx.done.add(k)
        ctx.fact(z3.ULE(n, MAXLEN))
    return n


def fields(ctx, s):
    s = ctx.norm(s)
    c = s.concrete
    if c is not None:
        return str_slice(ctx, [lit(x) for x in unifields(c)])
    if s.single is None or nospace_part(ctx, s.single):
        out, cur = [], []
        for p in s.parts:
            if isinstance(p, tuple):
                for x in p:
                    if isz(x) or x >= 0x80:
                        raise Unsupported("Fields of symbolic bytes")
                    if x in ASPACE:
                        if cur:
                            out.append(BSeq(cur))
                        cur = []
                    else:
                        cur.append((x,))
            elif nospace_part(ctx, p):
                cur.append(p)
            else:
                raise Unsupported("Fields of composite text")
        if cur:
            out.append(BSeq(cur))
        return str_slice(ctx, out)
    n = nfields(ctx, s)
    for k in WORDCOUNTS:
        if ctx.branch(simp(n == k)):
            return str_slice(ctx, [op("field", s, j) for j in range(k)])
    sp = SpecSeq(("fields", s.key), lambda c2, j, s=s: op("field", s, j))
    return seq_slice(ctx, sp, n)


@model("strings.Fields", doc="the maximal runs of non-white-space (spec functions NF, field)")
def strings_fields(ctx, a, site):
    return fields(ctx, a[0])


@model("strings.FieldsFunc", doc="Fields for unicode.IsSpace")
def strings_fieldsfunc(ctx, a, site):
    if isinstance(a[1], FuncV) and a[1].name == "unicode.IsSpace":
        return fields(ctx, a[0])
    raise Unsupported("FieldsFunc")


@model("unicode.IsSpace", doc="Unicode white space")
def unicode_isspace(ctx, a, site):
    if isz(a[0]):
        return simp(z3.Or(*[bv(a[0], 32) == ord(c) for c in UNISPACE]))
    return a[0] < 0x110000 and chr(a[0]) in UNISPACE


# nothing but white space
BLANK = dfa.full("(" + "|".join("".join("\\x%02x" % b for b in ch.encode("utf8")) for ch in UNISPACE) + ")*")


@model("strings.TrimSpace", doc="without leading and trailing white space")
def strings_trimspace(ctx, a, site):
    s = ctx.norm(a[0])
    c = s.concrete
    if c is not None:
        return lit(unt(text(c).strip(UNISPACE)))
    parts = list(s.parts)

    def edge(parts, first):
        while parts:
            i = 0 if first else -1
            p = parts[i]
            if isinstance(p, tuple):
                x = p[i]
                if isz(x) or x >= 0x80:
                    return False
                if x in ASPACE:
                    q = p[1:] if first else p[:-1]
                    if q:
                        parts[i] = q
                    else:
                        parts.pop(i)
                    continue
                return True
            L = ctx.getlang(p)
            if p.kind in ("W", "field"):
                return True
            if L.minlen() > 0 and not (alphabet(L) & (frozenset(ASPACE) | frozenset(range(0x80, 256)))):
                return True
            return False
        return True
    if edge(parts, True) and edge(parts, False):
        return BSeq(parts)
    if s.single is not None:
        if ctx.in_lang(s, BLANK):
            return EMPTYB
        o = Op("trim", s)
        if o.key not in ctx.lang:
            ctx.lang[o.key] = dfa.full(r"[\x00-\xff]+").diff(BLANK)
        ctx.assume(z3.And(z3.UGE(bv(o.length, 64), 1), z3.ULE(bv(o.length, 64), bv(s.length, 64)), z3.ULE(bv(s.length, 64), MAXLEN)))
        return BSeq((o,))
    return op("trim", s)


# ------------------------------------------------------------------ predicates
def quote(bs):
    return "".join("\\x%02x" % b for b in bs)


def lang_test(f):
    def g(ctx, a, site):
        s, p = ctx.norm(a[0]), ctx.norm(a[1]).concrete
        if p is None:
            raise Unsupported("symbolic pattern text")
        return f(ctx, s, p)
    return g


def in_lang(ctx, s, L):
    s = ctx.norm(s)
    c = s.concrete
    if c is not None:
        return L.matches(c)
    if s.single is not None:
        r = joined_lang(ctx, s.single, L) if s.single.kind == "joinrep" else None
        return ctx.in_lang(s, L) if r is None else r
    k = concat_lang(ctx, s)
    if k is not None:
        if k.inter(L).empty():
            return False
        if k.diff(L).empty():
            return True
    p = uf("inlang_%x" % (hash(L.key) & 0xffffffffff), BS, z3.BoolSort())(s.bs())
    return ctx.branch(p)


MODELS["strings.Contains"] = lang_test(lambda ctx, s, p: in_lang(ctx, s, dfa.contains(p)))
MODELS["strings.HasPrefix"] = lang_test(lambda ctx, s, p: in_lang(ctx, s, dfa.has_prefix(p)))
MODELS["strings.HasSuffix"] = lang_test(lambda ctx, s, p: in_lang(ctx, s, dfa.has_suffix(p)))


@model("strings.ContainsRune", "strings.ContainsAny", doc="as documented")
def strings_containsrune(ctx, a, site):
    if isinstance(a[1], BSeq):
        p = ctx.norm(a[1]).concrete
        if p is None or any(b >= 128 for b in p):
            raise Unsupported("ContainsAny")
        if not p:
            return False
        return in_lang(ctx, a[0], dfa.search("[" + quote(p) + "]"))
    if isz(a[1]) or a[1] >= 128:
        raise Unsupported("ContainsRune")
    return in_lang(ctx, a[0], dfa.contains(bytes([a[1]])))


def chop(ctx, s, suf):
    """remove a suffix known to be there"""
    s = ctx.norm(s)
    parts = list(s.parts)
    if parts and isinstance(parts[-1], tuple) and len(parts[-1]) >= len(suf):
        parts[-1] = parts[-1][:-len(suf)]
        return BSeq(parts)
    o = s.single
    if o is None:
        raise Unsupported("suffix of composite text")
    L = ctx.getlang(o).chop_suffix_lang(suf)
    # the only occurrence of the character: same as erasing it
    if len(suf) == 1 and ctx.getlang(o).count_char(suf[0]) == 1:
        return erase(ctx, s, frozenset(suf))
    r = s
    for i in range(len(suf)):
        q = Op("chop", r, lang=None)
        r = BSeq((q,))
    ctx.lang[q.key] = L
    return r


@model("strings.TrimSuffix", doc="as documented")
def strings_trimsuffix(ctx, a, site):
    s, p = ctx.norm(a[0]), ctx.norm(a[1]).concrete
    if p is None:
        raise Unsupported("TrimSuffix")
    if not p or not in_lang(ctx, s, dfa.has_suffix(p)):
        return s
    if s.concrete is not None:
        return lit(s.concrete[:-len(p)])
    return chop(ctx, s, p)


@model("strings.CutSuffix", doc="as documented")
def strings_cutsuffix(ctx, a, site):
    s, p = ctx.norm(a[0]), ctx.norm(a[1]).concrete
    if p is None:
        raise Unsupported("CutSuffix")
    if not in_lang(ctx, s, dfa.has_suffix(p)):
        return Tup((s, False))
    if s.concrete is not None:
        return Tup((lit(s.concrete[:len(s.concrete) - len(p)]), True))
    return Tup((chop(ctx, s, p) if p else s, True))


@model("strings.TrimPrefix", doc="as documented")
def strings_trimprefix(ctx, a, site):
    s, p = ctx.norm(a[0]), ctx.norm(a[1]).concrete
    if p is None:
        raise Unsupported("TrimPrefix")
    if not p or not in_lang(ctx, s, dfa.has_prefix(p)):
        return s
    c = s.concrete
    if c is not None:
        return lit(c[len(p):])
    if s.parts and isinstance(s.parts[0], tuple) and len(s.parts[0]) >= len(p):
        return BSeq((s.parts[0][len(p):],) + s.parts[1:])
    raise Unsupported("TrimPrefix")


@model("strings.TrimRight", "strings.TrimLeft", "strings.Trim", doc="as documented (concrete, or a single trailing mark)")
def strings_trimright(ctx, a, site):
    s, p = ctx.norm(a[0]), ctx.norm(a[1]).concrete
    nm = site["call"]["fn"]["name"] if site else ""
    c = s.concrete
    if p is None:
        raise Unsupported("Trim")
    if c is not None and all(b < 128 for b in p):
        return lit({"t": c.rstrip(p), "T": c.lstrip(p), "m": c.strip(p)}["t" if nm.endswith("Right") else "T" if nm.endswith("Left") else "m"])
    if s.single is not None and not nm.endswith("Left"):
        L = ctx.getlang(s.single)
        ch = frozenset(p)
        cs = [L.count_char(x) for x in p]
        if all(x == 0 for x in cs):
            return s
        if len(p) == 1:
            only_end = L.diff(dfa.full(r"[^%s]*[%s]*" % (quote(p), quote(p)))).empty()
            if only_end:
                return erase(ctx, s, ch)
    raise Unsupported("Trim")


@model("strings.ReplaceAll", "strings.Replace", doc="as documented")
def strings_replaceall(ctx, a, site):
    s, old, new = ctx.norm(a[0]), ctx.norm(a[1]).concrete, ctx.norm(a[2])
    if old is None:
        raise Unsupported("ReplaceAll")
    n = a[3] if len(a) > 3 else None
    if n is not None and (isz(n) or (n < 1 << 63 and n != 0)):
        if s.concrete is not None and not isz(n) and new.concrete is not None and old:
            return lit(s.concrete.replace(old, new.concrete, n))
        if s.single is not None and len(old) == 1 and not isz(n) and n >= 1:
            c = ctx.getlang(s.single).count_char(old[0])
            if c is None or c > n:
                raise Unsupported("Replace with a limit")
        else:
            raise Unsupported("Replace with a limit")
    elif n == 0:
        return s
    if s.concrete is not None and new.concrete is not None and old:
        return lit(s.concrete.replace(old, new.concrete))
    if len(old) == 1:
        if new.concrete == b"":
            return erase(ctx, s, frozenset(old))
        if all(lacks(ctx, p, frozenset(old)) for p in s.parts):
            return s
    raise Unsupported("ReplaceAll")


@model("strings.Map")
def strings_map(ctx, a, site):
    """func returning -1 on white space and the rune itself otherwise"""
    raise Unsupported("strings.Map")


@model("strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndex", "strings.LastIndexByte", doc="as documented (concrete)")
def strings_index(ctx, a, site):
    s = ctx.norm(a[0]).concrete
    p = a[1]
    nm = site["call"]["fn"]["name"]
    if isinstance(p, BSeq):
        p = ctx.norm(p).concrete
    elif not isz(p):
        p = bytes([p]) if p < 128 else chr(p).encode()
    else:
        p = None
    if s is not None and p is not None and not nm.endswith("Any"):
        r = s.rfind(p) if "Last" in nm else s.find(p)
        return r % (1 << 64)
    if p is not None and len(p) == 1 and not nm.endswith("Any"):
        x = ctx.norm(a[0])
        if not in_lang(ctx, x, dfa.contains(p)):
            return (1 << 64) - 1
        o = x.single
        if o is not None and ctx.getlang(o).diff(dfa.full(r"[^%s]*[%s]" % (quote(p), quote(p)))).empty():
            return simp(bv(x.length, 64) - 1)
    raise Unsupported("Index")


@model("strings.Count", doc="as documented")
def strings_count(ctx, a, site):
    s, p = ctx.norm(a[0]), ctx.norm(a[1]).concrete
    if p is None or p == b"":
        raise Unsupported("Count")
    if s.concrete is not None:
        return s.concrete.count(p)
    if len(p) == 1 and s.single is not None:
        c = ctx.getlang(s.single).count_char(p[0])
        if c is not None:
            return c
        return simp(bv(ncomp(ctx, s, lit(p)), 64) - 1)
    raise Unsupported("Count")


@model("strings.ToLower", "strings.ToUpper", doc="case mapping")
def strings_lower(ctx, a, site):
    s = ctx.norm(a[0])
    up = site["call"]["fn"]["name"].endswith("Upper")
    c = s.concrete
    if c is not None and all(b < 128 for b in c):
        return lit(c.upper() if up else c.lower())
    if not up and all(not isinstance(p, tuple) and p.kind in ("hex", "dec") or isinstance(p, tuple) and all(not isz(x) and not 65 <= x <= 90 and x < 128 for x in p) for p in s.parts):
        return s
    return op("upper" if up else "lower", s)


@model("strings.EqualFold", doc="equal up to case")
def strings_equalfold(ctx, a, site):
    x, y = ctx.norm(a[0]), ctx.norm(a[1])
    if x.concrete is not None and y.concrete is not None:
        return text(x.concrete).lower() == text(y.concrete).lower()
    return uf("equalfold", BS, BS, z3.BoolSort())(x.bs(), y.bs())


@model("strings.Compare", doc="-1, 0, 1")
def strings_compare(ctx, a, site):
    lt, gt = ctx.str_less(a[0], a[1]), ctx.str_less(a[1], a[0])
    return ite(lt, (1 << 64) - 1, ite(gt, 1, 0, 64), 64)


# ------------------------------------------------------------------ numbers
NW = 72      # width of the saturating value of a digit string


def numval(ctx, o):
    """value of a non-empty digit string (saturating at 2^70), as BV of NW bits"""
    if o.kind == "dec":
        return bv(o.args[0], NW)
    v = uf("NUM", BS, z3.BitVecSort(NW))(o.bs())
    k = ("num", o.key)
    if k not in ctx.done:
        ctx.done.add(k)
        ctx.fact(z3.ULE(v, 1 << 70))
    m = ctx.getlang(o).maxlen()
    if m is not None and m <= 20:
        ctx.assume(simp(z3.ULE(v, 10 ** m - 1)))
    return v


def parse_digits(ctx, s):
    """None (not a digit string), int or BV(NW)"""
    s = ctx.norm(s)
    c = s.concrete
    if c is not None:
        if c and all(48 <= b <= 57 for b in c):
            return min(int(c), 1 << 70)
        return None
    if in_lang(ctx, s, dfa.DIGITS):
        o = s.single
        if o is None:
            raise Unsupported("number spelled by composite text")
        return numval(ctx, o)
    return None


def signed_digits(ctx, s):
    """(negative, value) or None"""
    v = parse_digits(ctx, s)
    if v is not None:
        return False, v
    c = ctx.norm(s).concrete
    if c is not None:
        if c[:1] in (b"+", b"-") and c[1:].isdigit():
            return c[:1] == b"-", min(int(c[1:]), 1 << 70)
        return None
    if in_lang(ctx, s, dfa.full(r"[+-]\d+")):
        raise Unsupported("signed numbers")
    return None


@model("strconv.Atoi", doc="value of an optionally signed digit string that fits int, else an error")
def strconv_atoi(ctx, a, site):
    return Tup(parse_int(ctx, a[0], 64))


def parse_int(ctx, s, bits):
    r = signed_digits(ctx, s)
    if r is None:
        return 0, any_err(ctx)
    neg, v = r
    lim = (1 << (bits - 1)) if neg else (1 << (bits - 1)) - 1
    M = (1 << 64) - 1
    if not isz(v):
        if v > lim:
            return (-lim if neg else lim) & M, any_err(ctx)
        return (-v if neg else v) & M, None
    if ctx.branch(simp(z3.ULE(v, lim))):
        return simp(z3.Extract(63, 0, v)), None
    return lim, any_err(ctx)


@model("strconv.ParseUint", doc="value of a digit string that fits the given size, else an error and the largest value")
def strconv_parseuint(ctx, a, site):
    base, bits = a[1], a[2]
    if isz(base) or isz(bits) or base not in (10, 0) or bits > 64:
        raise Unsupported("ParseUint base")
    bits = bits or 64
    if base == 0:
        c = ctx.norm(a[0]).concrete
        if c is None:
            raise Unsupported("ParseUint base")
        from .models import go_int
        v = go_int(c, 0) if c[:1] not in (b"+", b"-") else None
    else:
        v = parse_digits(ctx, a[0])
    if v is None:
        return Tup((0, any_err(ctx)))
    lim = (1 << bits) - 1
    if not isz(v):
        return Tup((v, None)) if v <= lim else Tup((lim, any_err(ctx)))
    if ctx.branch(simp(z3.ULE(v, lim))):
        return Tup((simp(z3.Extract(63, 0, v)), None))
    return Tup((lim, any_err(ctx)))


@model("strconv.ParseInt", doc="as Atoi with a size")
def strconv_parseint(ctx, a, site):
    base, bits = a[1], a[2]
    if isz(base) or isz(bits) or base != 10 or bits > 64:
        raise Unsupported("ParseInt base")
    return Tup(parse_int(ctx, a[0], bits or 64))


def dec_text(ctx, v, w, signed):
    if not isz(v):
        if signed and v >> (w - 1):
            v -= 1 << w
        return lit(str(v))
    x = bv(v, w)
    if signed and not ctx.branch(simp(x >= 0)):
        return op("sdec", x)
    return op("dec", bv(x, 64))


@model("strconv.Itoa", doc="decimal text")
def strconv_itoa(ctx, a, site):
    return dec_text(ctx, a[0], 64, True)


@model("strconv.FormatUint", doc="decimal text")
def strconv_formatuint(ctx, a, site):
    if isz(a[1]) or a[1] != 10:
        if not isz(a[0]) and a[1] == 16:
            return lit("%x" % a[0])
        raise Unsupported("FormatUint base")
    return dec_text(ctx, a[0], 64, False)


@model("strconv.FormatInt", doc="decimal text")
def strconv_formatint(ctx, a, site):
    if isz(a[1]) or a[1] != 10:
        raise Unsupported("FormatInt base")
    return dec_text(ctx, a[0], 64, True)


@model("strconv.Quote", doc="quoted text")
def strconv_quote(ctx, a, site):
    return op("fmt", ctx.fresh("fmt", "bool").decl().name())


# ------------------------------------------------------------------ regexp
@model("regexp.MustCompile", doc="compiles; panics on an invalid pattern")
def re_mustcompile(ctx, a, site):
    p = ctx.norm(a[0]).concrete
    if p is None:
        raise Unsupported("symbolic pattern")
    return Ptr(ctx.alloc(Regex(p.decode()), None))


@model("regexp.Compile", doc="compiles")
def re_compile(ctx, a, site):
    return Tup((re_mustcompile(ctx, a, site), None))


def rx(ctx, p):
    r = ctx.load(p)
    if not isinstance(r, Regex):
        raise Unsupported("regexp")
    return r.pattern


def re_search(ctx, s, pat):
    if re.search(r"\\x[89a-fA-F]", pat):
        raise Unsupported("character beyond ASCII in a pattern")
    L = dfa.search(pat)
    if dfa.rune_sensitive(pat) and not in_lang(ctx, s, dfa.UTF8):
        # what a byte that is no character matches is not described
        return ctx.branch(uf("BADUTF8!" + pat, BS, z3.BoolSort())(ctx.norm(s).bs()))
    return in_lang(ctx, s, L)


@model("(*regexp.Regexp).MatchString", doc="membership in the regular language")
def re_match(ctx, a, site):
    return re_search(ctx, a[1], rx(ctx, a[0]))


@model("(*regexp.Regexp).Match", doc="membership in the regular language")
def re_matchb(ctx, a, site):
    return re_search(ctx, seqof(ctx, a[1]), rx(ctx, a[0]))


@model("regexp.MatchString", doc="membership in the regular language")
def re_match2(ctx, a, site):
    p = ctx.norm(a[0]).concrete
    if p is None:
        raise Unsupported("symbolic pattern")
    return Tup((re_search(ctx, a[1], p.decode()), None))


@model("(*regexp.Regexp).ReplaceAllString", "(*regexp.Regexp).ReplaceAllLiteralString", doc="replaces every match (single-character classes)")
def re_replace(ctx, a, site):
    pat = rx(ctx, a[0])
    new = ctx.norm(a[2]).concrete
    plus = pat[:-1] if pat.endswith("+") else pat
    cs = dfa.pattern_of_charset(plus)
    c = ctx.norm(a[1]).concrete
    if cs is None or new is None:
        raise Unsupported("ReplaceAllString of " + pat)
    if new == b"":
        return erase(ctx, a[1], cs)
    raise Unsupported("ReplaceAllString")


@model("strings.NewReplacer", doc="deletion of single characters")
def new_replacer(ctx, a, site):
    v = [ctx.norm(x).concrete for x in ctx.slice_vals(a[0])]
    if len(v) % 2:
        ctx.require(False, "NewReplacer: even argument count", ("panic",), ctx.curpos())
        raise PathEnd()
    if any(x is None for x in v) or any(len(x) != 1 or x[0] >= 128 for x in v[::2]) or any(v[1::2]):
        raise Unsupported("NewReplacer")
    return Ptr(ctx.alloc(Opaque("replacer", frozenset(x[0] for x in v[::2])), None))


@model("(*strings.Replacer).Replace", doc="deletion of single characters")
def replacer_replace(ctx, a, site):
    return erase(ctx, a[1], ctx.load(a[0]).data)


@model("(*regexp.Regexp).String", doc="the pattern")
def re_string(ctx, a, site):
    return lit(rx(ctx, a[0]))


# ------------------------------------------------------------------ unicode, others
@model("unicode.IsDigit", "unicode.IsNumber", doc="ASCII digits (other runes unsupported)")
def unicode_isdigit(ctx, a, site):
    r = a[0]
    if isz(r):
        if not ctx.entails(simp(z3.ULT(bv(r, 32), 128))):
            raise Unsupported("unicode.IsDigit")
        return simp(z3.And(z3.UGE(bv(r, 32), 48), z3.ULE(bv(r, 32), 57)))
    return 48 <= r <= 57 if r < 128 else chr(r).isdecimal()


@model("slices.Contains")
def slices_contains(ctx, a, site):
    r = False
    for v in ctx.slice_vals(a[0]):
        r = bor(r, ctx.val_eq(v, a[1]))
    return r


@model("slices.Reverse")
def slices_reverse(ctx, a, site):
    sl = a[0]
    vals = ctx.slice_vals(sl)
    for i, v in enumerate(reversed(vals)):
        ctx.store(Ptr(sl.oid, sl.path + (ctx.addk(sl.off, i),)), v)


@model("text substr")
def text_substr(ctx, x, lo, hi):
    """s[:len(s)-k] where the dropped suffix is known"""
    x = ctx.norm(x)
    o = x.single
    if o is None or (isz(lo) or lo != 0) or not isz(hi):
        return None
    L = ctx.getlang(o)
    for k in (1, 2):
        if ctx.entails(simp(bv(hi, 64) == bv(x.length, 64) - k)):
            if k == 1:
                # last byte known and unique?
                for ch in alphabet(L):
                    if L.diff(dfa.has_suffix(bytes([ch]))).empty():
                        return chop(ctx, x, bytes([ch]))
    return None


@model("text index")
def text_index(ctx, x, k):
    """s[len(s)-1] compared with a known character: fork on the last byte's language"""
    o = x.single
    if o is None:
        return None
    L = ctx.getlang(o)
    if L.maxlen() is not None and L.maxlen() <= 40:
        return None
    for ch in b"'hH":
        pass
    last = isz(k) and ctx.entails(simp(bv(k, 64) == bv(x.length, 64) - 1))
    first = not isz(k) and k == 0
    if not (last or first):
        return None
    cs = set()
    live = L.live()
    if last:
        for s in live:
            for c in range(256):
                if L.acc[L.rows[s][c]]:
                    cs.add(c)
    else:
        cs = {c for c in range(256) if L.rows[0][c] in live}
    if len(cs) > 40:
        return None
    cs = sorted(cs)
    groups = [[c for c in cs if not 48 <= c <= 57]]
    for c in cs:
        if 48 <= c <= 57:
            continue
        D = dfa.has_suffix(bytes([c])) if last else dfa.has_prefix(bytes([c]))
        if ctx.in_lang(x, D):
            return c
    digs = [c for c in cs if 48 <= c <= 57]
    if len(digs) == 1:
        return digs[0]
    b = uf("edgebyte_%d" % (1 if last else 0), BS, z3.BitVecSort(8))(o.bs())
    ctx.assume(z3.And(z3.UGE(b, digs[0]), z3.ULE(b, digs[-1])))
    return b


@model("map lookup symbolic")
def map_lookup_symbolic(ctx, m, k, t):
    """lookup of a symbolic key in a known map: one guarded case per entry"""
    if not m.d:
        return ctx.zero(t["elem"]), False
    items = list(m.d.values())
    if len(items) > 4096:
        raise Unsupported("lookup in a large map")
    conds = [ctx.val_eq(kk, k, t["key"]) for kk, v in items]
    found = bor(*conds)
    if isz(found):
        found = simp(found)
    et = ctx.prog.types[t["elem"]]
    z = ctx.zero(t["elem"])
    if et["kind"] == "slice":
        cases = [(zb(c), v) for c, (kk, v) in zip(conds, items) if c is not False and v.oid is not None]
        return ctx.merged_slice(cases, et["elem"]), found
    if et["kind"] == "pointer":
        for c, (kk, v) in zip(conds, items):
            if (ctx.branch(c) if isz(c) else c):
                return v, True
        return z, False
    if len(items) > 300 and et["kind"] not in ("basic",):
        raise Unsupported("symbolic lookup in a large map")
    r = z
    for c, (kk, v) in zip(conds, items):
        if c is False:
            continue
        r = ctx.merge(zb(c), v, r, t["elem"], True)
    return r, found


@model("os.WriteFile", "log.Fatal", "log.Fatalf", "log.Println", "log.Printf", "(embed.FS).ReadFile")
def dev_only(ctx, a, site):
    raise Unsupported("input/output")


@model("(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
       doc="no effect on values; no deadlock is assumed")
def mutex(ctx, a, site):
    return None


@model("sync.Once.Do")
def once(ctx, a, site):
    raise Unsupported("sync")
