"""Regular languages over bytes: Go regexp subset -> canonical minimal DFA.

Used to decide facts about text arguments (which strings a regular expression
accepts, what their components look like) for all strings at once.
"""
import functools
import re

ALL = frozenset(range(256))
DIGIT = frozenset(range(48, 58))
SPACE = frozenset(b"\t\n\f\r ")
WORD = frozenset(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- parser
class _P:
    def __init__(self, s):
        self.s = s
        self.i = 0
        self.end_anchor = False

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def alt(self):
        br = [self.cat()]
        while self.peek() == "|":
            self.i += 1
            br.append(self.cat())
        return br[0] if len(br) == 1 else ("alt", br)

    def cat(self):
        out = []
        while self.peek() not in (None, "|", ")"):
            out.append(self.rep())
        return ("cat", out)

    def rep(self):
        a = self.atom()
        while self.peek() in ("*", "+", "?", "{"):
            c = self.peek()
            if c == "{":
                j = self.s.find("}", self.i)
                body = self.s[self.i + 1:j] if j > 0 else ""
                parts = body.split(",")
                if not parts[0].isdigit() or len(parts) > 2 or (len(parts) == 2 and parts[1] and not parts[1].isdigit()):
                    raise Unsupported("repetition " + body)
                lo = int(parts[0])
                hi = lo if len(parts) == 1 else (int(parts[1]) if parts[1] else None)
                self.i = j + 1
            else:
                lo, hi = {"*": (0, None), "+": (1, None), "?": (0, 1)}[c]
                self.i += 1
            if self.peek() == "?":      # lazy: same language
                self.i += 1
            a = ("rep", a, lo, hi)
        return a

    def esc(self):
        c = self.s[self.i]
        self.i += 1
        m = {"d": DIGIT, "D": ALL - DIGIT, "s": SPACE, "S": ALL - SPACE, "w": WORD, "W": ALL - WORD,
             "n": frozenset(b"\n"), "t": frozenset(b"\t"), "r": frozenset(b"\r"), "f": frozenset(b"\f"), "v": frozenset(b"\v")}
        if c in m:
            return m[c]
        if c == "x":
            h = self.s[self.i:self.i + 2]
            self.i += 2
            return frozenset([int(h, 16)])
        if c.isalnum():
            raise Unsupported("escape \\" + c)
        return frozenset(c.encode())

    def atom(self):
        c = self.s[self.i]
        self.i += 1
        if c == "(":
            if self.s.startswith("?:", self.i):
                self.i += 2
            elif self.s.startswith("?P<", self.i) or self.s.startswith("?<", self.i):
                self.i = self.s.index(">", self.i) + 1
            elif self.peek() == "?":
                raise Unsupported("group flags")
            a = self.alt()
            if self.peek() != ")":
                raise Unsupported("unbalanced")
            self.i += 1
            return a
        if c == "[":
            neg = False
            if self.peek() == "^":
                neg = True
                self.i += 1
            st = set()
            first = True
            while True:
                c = self.peek()
                if c is None:
                    raise Unsupported("class")
                if c == "]" and not first:
                    self.i += 1
                    break
                first = False
                if self.s.startswith("[:", self.i):
                    j = self.s.index(":]", self.i)
                    name = self.s[self.i + 2:j]
                    cl = {"digit": DIGIT, "space": SPACE | {11}, "word": WORD,
                          "alpha": WORD - DIGIT - {95}, "alnum": WORD - {95}}.get(name)
                    if cl is None:
                        raise Unsupported(name)
                    st |= cl
                    self.i = j + 2
                    continue
                self.i += 1
                if c == "\\":
                    e = self.esc()
                    if len(e) != 1:
                        st |= e
                        continue
                    lo = next(iter(e))
                else:
                    if ord(c) > 127:
                        raise Unsupported("non-ascii class")
                    lo = ord(c)
                if self.peek() == "-" and self.i + 1 < len(self.s) and self.s[self.i + 1] != "]":
                    self.i += 1
                    c2 = self.s[self.i]
                    self.i += 1
                    if c2 == "\\":
                        hi = next(iter(self.esc()))
                    else:
                        hi = ord(c2)
                    st |= set(range(lo, hi + 1))
                else:
                    st.add(lo)
            return ("set", (ALL - st) if neg else frozenset(st))
        if c == ".":
            return ("set", ALL - {10})
        if c == "\\":
            if self.peek() in ("A", "z"):
                k = self.peek()
                self.i += 1
                return ("bol",) if k == "A" else ("eol",)
            return ("set", self.esc())
        if c == "^":
            return ("bol",)
        if c == "$":
            return ("eol",)
        if c in "*+?":
            raise Unsupported("dangling repetition")
        bs = c.encode()
        return ("cat", [("set", frozenset([b])) for b in bs])


# ---------------------------------------------------------------- NFA
class NFA:
    def __init__(self):
        self.eps = []
        self.tr = []

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def build(self, t):
        k = t[0]
        if k == "set":
            a, b = self.new(), self.new()
            self.tr[a].append((t[1], b))
            return a, b
        if k == "cat":
            a = self.new()
            cur = a
            for x in t[1]:
                s, e = self.build(x)
                self.eps[cur].append(s)
                cur = e
            return a, cur
        if k == "alt":
            a, b = self.new(), self.new()
            for x in t[1]:
                s, e = self.build(x)
                self.eps[a].append(s)
                self.eps[e].append(b)
            return a, b
        if k == "rep":
            _, x, lo, hi = t
            a = self.new()
            cur = a
            for _ in range(lo):
                s, e = self.build(x)
                self.eps[cur].append(s)
                cur = e
            b = self.new()
            if hi is None:
                s, e = self.build(x)
                self.eps[cur].append(s)
                self.eps[e].append(s)
                self.eps[e].append(b)
                self.eps[cur].append(b)
            else:
                self.eps[cur].append(b)
                for _ in range(hi - lo):
                    s, e = self.build(x)
                    self.eps[cur].append(s)
                    cur = e
                    self.eps[cur].append(b)
            return a, b
        raise Unsupported("anchor inside expression")

    def closure(self, ss):
        st = list(ss)
        seen = set(ss)
        while st:
            x = st.pop()
            for y in self.eps[x]:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return frozenset(seen)

    def dfa(self, starts, accs):
        accs = set(accs)
        s0 = self.closure(starts)
        ids = {s0: 0}
        order = [s0]
        rows = []
        i = 0
        while i < len(order):
            cur = order[i]
            i += 1
            byc = [set() for _ in range(256)]
            for q in cur:
                for (cs, d) in self.tr[q]:
                    for c in cs:
                        byc[c].add(d)
            cache = {}
            row = []
            for c in range(256):
                fs = frozenset(byc[c])
                r = cache.get(fs)
                if r is None:
                    cl = self.closure(fs)
                    r = ids.get(cl)
                    if r is None:
                        r = ids[cl] = len(order)
                        order.append(cl)
                    cache[fs] = r
                row.append(r)
            rows.append(row)
        return DFA(rows, [bool(accs & s) for s in order]).minimal()


class DFA:
    __slots__ = ("rows", "acc", "key", "_h")

    def __init__(self, rows, acc):
        self.rows = rows
        self.acc = acc
        self.key = None
        self._h = None

    # minimal + canonical numbering
    def minimal(self):
        n = len(self.rows)
        # compress alphabet: columns with identical content
        cols = {}
        rep = []
        cmap = []
        for c in range(256):
            col = tuple(r[c] for r in self.rows)
            if col not in cols:
                cols[col] = len(rep)
                rep.append(c)
            cmap.append(cols[col])
        part = [1 if a else 0 for a in self.acc]
        while True:
            sig = {}
            new = []
            for s in range(n):
                k = (part[s],) + tuple(part[self.rows[s][c]] for c in rep)
                new.append(sig.setdefault(k, len(sig)))
            if len(set(new)) == len(set(part)):
                part = new
                break
            part = new
        repstate = {}
        for s in range(n):
            repstate.setdefault(part[s], s)
        num = {part[0]: 0}
        order = [part[0]]
        rows = []
        i = 0
        while i < len(order):
            s = repstate[order[i]]
            i += 1
            row = []
            for c in range(256):
                p = part[self.rows[s][c]]
                if p not in num:
                    num[p] = len(order)
                    order.append(p)
                row.append(num[p])
            rows.append(tuple(row))
        d = DFA(rows, [self.acc[repstate[p]] for p in order])
        d.key = (tuple(d.rows), tuple(d.acc))
        d._h = hash(d.key)
        return d

    def __eq__(self, o):
        return isinstance(o, DFA) and self.key == o.key

    def __hash__(self):
        return self._h

    def _prod(self, o, f):
        ids = {(0, 0): 0}
        order = [(0, 0)]
        rows = []
        i = 0
        while i < len(order):
            a, b = order[i]
            i += 1
            ra, rb = self.rows[a], o.rows[b]
            row = []
            for c in range(256):
                k = (ra[c], rb[c])
                if k not in ids:
                    ids[k] = len(order)
                    order.append(k)
                row.append(ids[k])
            rows.append(row)
        return DFA(rows, [f(self.acc[a], o.acc[b]) for a, b in order]).minimal()

    def inter(self, o):
        return _prodc(self, o, "and")

    def diff(self, o):
        return _prodc(self, o, "diff")

    def union(self, o):
        return _prodc(self, o, "or")

    def empty(self):
        return not any(self.acc)      # minimal: all states reachable

    def subset(self, o):
        return self.diff(o).empty()

    def live(self):
        """states from which an accepting state is reachable"""
        n = len(self.rows)
        pre = [set() for _ in range(n)]
        for s, r in enumerate(self.rows):
            for d in set(r):
                pre[d].add(s)
        st = [s for s in range(n) if self.acc[s]]
        seen = set(st)
        while st:
            for p in pre[st.pop()]:
                if p not in seen:
                    seen.add(p)
                    st.append(p)
        return seen

    def matches(self, bs):
        s = 0
        for b in bs:
            s = self.rows[s][b]
        return self.acc[s]

    def shortest(self, limit=1):
        """some shortest accepted words"""
        live = self.live()
        out = []
        if 0 not in live:
            return out
        cur = [(0, b"")]
        seen = {}
        while cur and len(out) < limit:
            nxt = []
            for s, w in cur:
                if self.acc[s]:
                    out.append(w)
                    if len(out) >= limit:
                        return out
            for s, w in cur:
                byd = {}
                pref = list(b"0179m/'a ") + list(range(256))
                for c in pref:
                    d = self.rows[s][c]
                    if d in live and d not in byd:
                        byd[d] = c
                for d, c in byd.items():
                    if seen.get(d, 0) < limit:
                        seen[d] = seen.get(d, 0) + 1
                        nxt.append((d, w + bytes([c])))
            cur = nxt
        return out

    def maxlen(self):
        """longest accepted word, None if unbounded"""
        live = self.live()
        if 0 not in live:
            return 0
        memo = {}
        onst = set()

        def go(s):
            if s in onst:
                return None
            if s in memo:
                return memo[s]
            onst.add(s)
            best = 0 if self.acc[s] else -1
            for d in set(self.rows[s]):
                if d in live:
                    r = go(d)
                    if r is None:
                        onst.discard(s)
                        return None
                    best = max(best, r + 1)
            onst.discard(s)
            memo[s] = best
            return best
        return go(0)

    def minlen(self):
        w = self.shortest(1)
        return len(w[0]) if w else 0

    def _nfa(self):
        n = NFA()
        for _ in self.rows:
            n.new()
        live = self.live()
        for s, r in enumerate(self.rows):
            by = {}
            for c in range(256):
                if r[c] in live:
                    by.setdefault(r[c], set()).add(c)
            for d, cs in by.items():
                n.tr[s].append((frozenset(cs), d))
        return n

    def erase(self, chars):
        """image under deleting every char of the set"""
        n = self._nfa()
        for s in range(len(n.tr)):
            new = []
            for cs, d in n.tr[s]:
                if cs & chars:
                    n.eps[s].append(d)
                if cs - chars:
                    new.append((cs - chars, d))
            n.tr[s] = new
        return n.dfa([0], [s for s in range(len(self.rows)) if self.acc[s]])

    def count_char(self, ch):
        """number of occurrences of ch if it is the same in every word, else None"""
        live = self.live()
        if 0 not in live:
            return 0
        cnt = {0: 0}
        st = [0]
        while st:
            s = st.pop()
            for c in range(256):
                d = self.rows[s][c]
                if d in live:
                    v = cnt[s] + (1 if c == ch else 0)
                    if d not in cnt:
                        cnt[d] = v
                        st.append(d)
                    elif cnt[d] != v:
                        return None
        vs = {cnt[s] for s in cnt if self.acc[s]}
        return vs.pop() if len(vs) == 1 else None

    def split_langs(self, ch):
        """Languages of the parts when words are split at every ch:
        dict pos -> DFA for pos = 0 and 'rest' (any later part); for exact
        positions call part_lang."""
        return self.part_lang(ch, lambda k: k == 0), self.part_lang(ch, lambda k: k >= 1)

    def part_lang(self, ch, want, cap=8):
        """language of parts whose (capped) index satisfies want"""
        live = self.live()
        if 0 not in live:
            return EMPTY
        # reachable (state, idx) at part starts
        starts = {(0, 0)}
        st = [(0, 0)]
        seen = {(0, 0)}
        while st:
            s, k = st.pop()
            for c in range(256):
                d = self.rows[s][c]
                if d not in live:
                    continue
                if c == ch:
                    e = (d, min(k + 1, cap))
                    if e not in starts:
                        starts.add(e)
                else:
                    e = (d, k)
                if e not in seen:
                    seen.add(e)
                    st.append(e)
        n = NFA()
        for _ in self.rows:
            n.new()
        accs = set()
        for s, r in enumerate(self.rows):
            if s not in live:
                continue
            by = {}
            for c in range(256):
                if r[c] in live:
                    if c == ch:
                        accs.add(s)
                    else:
                        by.setdefault(r[c], set()).add(c)
            for d, cs in by.items():
                n.tr[s].append((frozenset(cs), d))
            if self.acc[s]:
                accs.add(s)
        ss = [s for (s, k) in starts if want(k)]
        if not ss:
            return EMPTY
        return n.dfa(ss, accs)

    def chop_suffix_lang(self, suf):
        """{w : w+suf in L}"""
        acc = []
        for s in range(len(self.rows)):
            q = s
            for b in suf:
                q = self.rows[q][b]
            acc.append(self.acc[q])
        return DFA([list(r) for r in self.rows], acc).minimal()


@functools.lru_cache(maxsize=4096)
def _prodc(a, b, op):
    f = {"and": lambda x, y: x and y, "or": lambda x, y: x or y, "diff": lambda x, y: x and not y}[op]
    return a._prod(b, f)


def _from_tree(t):
    n = NFA()
    s, e = n.build(t)
    return n.dfa([s], [e])


SIGMA = _from_tree(("rep", ("set", ALL), 0, None))
EMPTY = DFA([[0] * 256], [False]).minimal()


@functools.lru_cache(maxsize=1024)
def full(pattern):
    """language of the pattern matched against the whole string"""
    p = _P(pattern)
    t = p.alt()
    if p.i != len(p.s):
        raise Unsupported("regexp")
    return _from_tree(t)


UTF8SEQ = ("alt", [("cat", [("set", frozenset(range(lo, hi + 1))) for lo, hi in q]) for q in (
    ((0xc2, 0xdf), (0x80, 0xbf)),
    ((0xe0, 0xe0), (0xa0, 0xbf), (0x80, 0xbf)),
    ((0xe1, 0xec), (0x80, 0xbf), (0x80, 0xbf)),
    ((0xed, 0xed), (0x80, 0x9f), (0x80, 0xbf)),
    ((0xee, 0xef), (0x80, 0xbf), (0x80, 0xbf)),
    ((0xf0, 0xf0), (0x90, 0xbf), (0x80, 0xbf), (0x80, 0xbf)),
    ((0xf1, 0xf3), (0x80, 0xbf), (0x80, 0xbf), (0x80, 0xbf)),
    ((0xf4, 0xf4), (0x80, 0x8f), (0x80, 0xbf), (0x80, 0xbf)))])


def _runes(t):
    """(tree with the sets of runes spelled in UTF-8, whether there was a set
    with runes beyond ASCII).  A set holds either all of those or none."""
    if t[0] == "set":
        hi = frozenset(b for b in t[1] if b >= 0x80)
        if not hi:
            return t, False
        if len(hi) == 1:
            return t, False         # a byte of a literal character
        if len(hi) != 128:
            raise Unsupported("class with some of the non-ASCII characters")
        return ("alt", [("set", t[1] - hi), UTF8SEQ]), True
    if t[0] in ("cat", "alt"):
        rs = [_runes(x) for x in t[1]]
        return (t[0], [r for r, _ in rs]), any(w for _, w in rs)
    if t[0] == "rep":
        r, w = _runes(t[1])
        return ("rep", r, t[2], t[3]), w
    return t, False


@functools.lru_cache(maxsize=1024)
def search(pattern):
    """strings in which Go's MatchString finds a match (anchors honoured)"""
    return _search(pattern)[0]


def rune_sensitive(pattern):
    """whether what search says holds of valid UTF-8 only"""
    return _search(pattern)[1]


@functools.lru_cache(maxsize=1024)
def _search(pattern):
    if re.search(r"\\x[89a-fA-F]", pattern):
        wide = None
    else:
        wide = True
    p = _P(pattern)
    t = p.alt()
    if p.i != len(p.s):
        raise Unsupported("regexp")
    sens = False
    if wide:
        t, sens = _runes(t)

    def branch(t):
        items = t[1] if t[0] == "cat" else [t]
        items = list(items)
        bol = eol = False
        while items and items[0] == ("bol",):
            bol = True
            items.pop(0)
        while items and items[-1] == ("eol",):
            eol = True
            items.pop()
        any_ = ("rep", ("set", ALL), 0, None)
        return ("cat", ([] if bol else [any_]) + items + ([] if eol else [any_]))
    brs = t[1] if t[0] == "alt" else [t]
    return _from_tree(("alt", [branch(b) for b in brs])), sens


@functools.lru_cache(maxsize=4096)
def lit(bs):
    return _from_tree(("cat", [("set", frozenset([b])) for b in bs]))


@functools.lru_cache(maxsize=1024)
def contains(bs):
    any_ = ("rep", ("set", ALL), 0, None)
    return _from_tree(("cat", [any_] + [("set", frozenset([b])) for b in bs] + [any_]))


@functools.lru_cache(maxsize=1024)
def has_suffix(bs):
    any_ = ("rep", ("set", ALL), 0, None)
    return _from_tree(("cat", [any_] + [("set", frozenset([b])) for b in bs]))


@functools.lru_cache(maxsize=1024)
def has_prefix(bs):
    any_ = ("rep", ("set", ALL), 0, None)
    return _from_tree(("cat", [("set", frozenset([b])) for b in bs] + [any_]))


def charset(chars):
    return _from_tree(("rep", ("set", frozenset(chars)), 0, None))


UTF8 = _from_tree(("rep", ("alt", [("set", frozenset(range(128))), UTF8SEQ]), 0, None))
NOSPACE = charset(ALL - SPACE)
DIGITS = full(r"\d+")
DIGITS0 = full(r"\d*")


def single_chars(d):
    """if the language is a set of one-byte words, that set"""
    if d.maxlen() != 1 or d.acc[0]:
        return None
    return frozenset(c for c in range(256) if d.acc[d.rows[0][c]])


def pattern_of_charset(pattern):
    """the set of single bytes a (non-anchored) pattern denotes, or None"""
    try:
        return single_chars(full(pattern))
    except Unsupported:
        return None


def replaced_part(D, L, ch, prev, first, part, new, nxt):
    """Texts P a ch c ch b S of D, split at ch, whose part c is replaced by x:
    (the new text is always in L, the new text is never in L).
    prev: language of a, None when c is the very first part; first: a is the first part;
    part: language of c; new: language of x (free of ch); nxt: language of b, None when c is
    the last part."""
    s0 = {(0, 0)}

    def free(src, rows):
        """states after ch-free words"""
        seen, st = set(src), list(src)
        while st:
            s = st.pop()
            for c in range(256):
                if c != ch:
                    e = tuple(r[x][c] for r, x in zip(rows, s))
                    if e not in seen:
                        seen.add(e)
                        st.append(e)
        return seen
    live = D.live()
    if prev is not None:
        if not first:
            seen, st, s0 = {(0, 0)}, [(0, 0)], set()
            while st:
                d, l = st.pop()
                for c in range(256):
                    e = (D.rows[d][c], L.rows[l][c])
                    if e[0] not in live:
                        continue
                    if c == ch:
                        s0.add(e)
                    if e not in seen:
                        seen.add(e)
                        st.append(e)
        after = free({(d, l, 0) for d, l in s0}, (D.rows, L.rows, prev.rows))
        s0 = {(D.rows[d][ch], L.rows[l][ch]) for d, l, a in after if prev.acc[a]}
    pairs = set()
    for d0, l0 in s0:
        ds = {d for d, c in free({(d0, 0)}, (D.rows, part.rows)) if part.acc[c] and d in live}
        ls = {l for l, x in free({(l0, 0)}, (L.rows, new.rows)) if new.acc[x]}
        pairs |= {(d, l) for d in ds for l in ls}
    ends = set()
    if nxt is None:
        ends = pairs
    else:
        mid = free({(D.rows[d][ch], L.rows[l][ch], 0) for d, l in pairs}, (D.rows, L.rows, nxt.rows))
        ends = {(d, l) for d, l, b in mid if nxt.acc[b]}
        tail = {(D.rows[d][ch], L.rows[l][ch]) for d, l in ends}
        st = list(tail)
        while st:
            d, l = st.pop()
            for c in range(256):
                e = (D.rows[d][c], L.rows[l][c])
                if e[0] in live and e not in tail:
                    tail.add(e)
                    st.append(e)
        ends |= tail
    ends = [l for d, l in ends if D.acc[d]]
    return all(L.acc[l] for l in ends), not any(L.acc[l] for l in ends)
