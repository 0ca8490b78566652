"""One verification session: the program, its evaluated package initialisation,
and the state every function is verified from."""
import os
import z3
from .terms import *
from . import models
from .execu import *
from .interp import Machine, short, INLINED
from .program import Program, MOD

B32, B39, B44, UTL, WL = MOD + "bip32", MOD + "bip39", MOD + "bip44", MOD + "util", MOD + "bip39/wordlists"
INITIALISED = ("github.com/btcsuite/btcutil/base58",)
EAGER = ("crypto/rand.Reader",)


def machine(prog, order="ins"):
    m = Machine(prog, models.MODELS)
    m.map_order = order
    m.globals = {}
    for n in sorted(prog.globals):
        g = prog.globals[n]
        if g["pkg"].startswith("github.com/mearaj/bips") or g["pkg"] in INLINED:
            m.globals[n] = m.alloc(m.zero(g["type"]), g["type"])
    for n in EAGER:
        if n in prog.globals:
            m.globals_oid(n)
    models.make_curve(m)
    run_init(m)
    return m


def run_init(m):
    m.init_mode = True
    m.tag = "package initialisation"
    for p in m.prog.packages:
        if p["path"].startswith("github.com/mearaj/bips") or p["path"] in INITIALISED:
            f = m.prog.funcs.get(p["path"] + ".init")
            if f is not None:
                m.run(f, [])
    m.init_mode = False
    # errors created during initialisation are distinct, never-changing values
    m.protected = m.nextoid
    m.instrs = 0


def elem_type(m, t):
    """element type of a backing array; the type of named struct types resolved"""
    if isinstance(t, tuple):
        t = t[1]
    elif t is not None:
        d = m.prog.types[t]
        while d["kind"] == "named":
            d = m.prog.types[d["under"]]
        t = d.get("elem") if d["kind"] in ("array", "slice") else None
    while t is not None and m.prog.types[t]["kind"] == "named":
        t = m.prog.types[t]["under"]
    return t


def permute(m, pkg):
    """the order in which a registry map was iterated while the indexes were built
    is unspecified: an element of an index slice is any one of its elements"""
    for n, oid in m.globals.items():
        if not n.startswith(pkg + "."):
            continue
        v = m.heap[oid]
        slices = []
        if isinstance(v, MapRef) and v.oid is not None and isinstance(m.heap[v.oid], MapVal):
            slices = [x for _, x in m.heap[v.oid].d.values() if isinstance(x, SliceV)]
        for sl in slices:
            if sl.oid is None or isz(sl.len) or sl.len < 2 or sl.path or sl.off != 0:
                continue
            c = m.heap[sl.oid]
            t = elem_type(m, m.otype[sl.oid])
            if t is None:
                continue
            if not isinstance(c, tuple) or m.prog.types[t]["kind"] != "struct":
                continue
            el = c[:sl.len]
            out = []
            for j in range(sl.len):
                ch = z3.BitVec("order!%d!%d" % (sl.oid, j), 8)
                r = list(el[0])
                for k in range(1, len(el)):
                    for i, f in enumerate(m.prog.types[t]["fields"]):
                        if isinstance(r[i], Opaque):
                            continue
                        try:
                            r[i] = m.merge(ch == k, el[k][i], r[i], f["type"])
                        except (NoMerge, Unsupported):
                            r[i] = Opaque("order-dependent", None)
                out.append(tuple(r))
            m.heap[sl.oid] = tuple(out) + c[sl.len:]


class Session:
    def __init__(self, prog=None, order="ins"):
        self.prog = prog or Program.load()
        self.m = machine(self.prog, order)
        m = self.m
        m.session = self
        m.heap, m.otype = m.heap.freeze(), m.otype.freeze()
        self.concrete = m.snap()
        permute(m, B32)
        m.heap, m.otype = m.heap.freeze(), m.otype.freeze()
        m.protected = m.nextoid
        self.base = m.snap()

    def reinit(self, m, order):
        """run the initialisation of package bip32 again with another map iteration order"""
        m.restore(self.concrete)
        for n in sorted(self.prog.globals):
            g = self.prog.globals[n]
            if g["pkg"] == B32:
                m.heap[m.globals[n]] = m.zero(g["type"])
        m.map_order = order
        m.init_mode = True
        try:
            m.run(self.prog.funcs[B32 + ".init"], [])
        finally:
            m.init_mode = False
            m.map_order = "ins"

    def gval(self, name):
        return self.m.heap[self.m.globals[name]]
