"""Reference tables: copies of the published SLIP-0132 and SLIP-0044 tables and of
the BIP-39 word lists kept under /verif/contracts/data, never read from /repo."""
import os
import re

D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data")


def _slip132():
    out = []
    for l in open(os.path.join(D, "slip-0132.md")):
        m = re.match(r"(\S.*?)\s+`0x([0-9a-f]{8})` - `(\w+)`\s+`0x([0-9a-f]{8})` - `(\w+)`\s+(.*?)\s+(m/\S+|-)\s*$", l)
        if m:
            out.append(dict(coin=m[1], pub=int(m[2], 16), pubp=m[3], pvt=int(m[4], 16), pvtp=m[5], enc=m[6], path=m[7]))
    return out


def _slip44():
    out = []
    for l in open(os.path.join(D, "slip-0044.md")):
        f = [x.strip() for x in l.rstrip("\n").split("|")]
        if len(f) >= 5 and f[1].isdigit():
            out.append(dict(type=int(f[1]), path=int(f[2], 16), symbol=f[3], name=" ".join(x for x in f[4:] if x)))
    return out


SLIP132 = _slip132()
COIN_ROWS = _slip44()
LANGS = ["ChineseSimplified", "ChineseTraditional", "Czech", "English", "French", "Italian", "Japanese", "Korean", "Portuguese", "Spanish"]


def words(lang):
    return open(os.path.join(D, lang + ".txt"), encoding="utf8").read().split("\n")[:-1]
