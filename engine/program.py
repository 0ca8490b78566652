"""Loads the SSA dump of the current source tree."""
import base64
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GO = "/opt/veriftools/go1.23.12/bin"
MOD = "github.com/mearaj/bips/"
INLINE = "encoding/binary,github.com/btcsuite/btcd/chaincfg/chainhash,slices,cmp,maps,unicode/utf8,github.com/btcsuite/btcutil/base58"
INTS = {"int": (64, True), "int8": (8, True), "int16": (16, True), "int32": (32, True), "int64": (64, True),
        "uint": (64, False), "uint8": (8, False), "uint16": (16, False), "uint32": (32, False),
        "uint64": (64, False), "uintptr": (64, False), "byte": (8, False), "rune": (32, True),
        "untyped int": (64, True), "untyped rune": (32, True)}


def goenv(extra_path=None):
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", CGO_ENABLED="1")
    e.setdefault("HOME", "/root")
    if extra_path:
        e["PATH"] = extra_path + ":" + e["PATH"]
    return e


def build_frontend():
    out = os.path.join(VERIF, "bin", "frontend")
    src = os.path.join(VERIF, "frontend", "main.go")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    r = subprocess.run(["go", "build", "-o", tmp, "."], cwd=os.path.join(VERIF, "frontend"),
                       env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("cannot build the SSA front end:\n" + r.stdout)
    os.replace(tmp, out)
    return out


class Func:
    def __init__(self, d):
        self.name = d["name"]
        self.pkg = d.get("pkg", "")
        self.params = d["params"] or []
        self.freevars = d["freevars"] or []
        self.results = d["results"]
        self.blocks = d["blocks"] or []
        self.exported = d.get("exported", False)
        self.synthetic = d.get("synthetic", "")
        self.pos = d.get("pos", "")
        self.parent = d.get("parent")
        self.recover = d.get("recover")
        for b in self.blocks:
            b["preds"] = b["preds"] or []
            b["succs"] = b["succs"] or []
            b["instrs"] = b["instrs"] or []
        self._ipdom = None
        self._heads = None

    def dominates(self, a, b):
        while b != -1:
            if a == b:
                return True
            b = self.blocks[b]["idom"]
        return False

    @property
    def heads(self):
        """loop heads -> set of blocks of the loop"""
        if self._heads is None:
            h = {}
            for b in self.blocks:
                for s in b["succs"]:
                    if self.dominates(s, b["i"]):
                        body = h.setdefault(s, {s})
                        st = [b["i"]]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x)
                                st.extend(self.blocks[x]["preds"])
            self._heads = h
        return self._heads

    def loop_exit(self, head):
        """block where all exits of the loop have met (-1: only at the end)"""
        b = self.ipdom[head]
        while b != -1 and b in self.heads[head]:
            b = self.ipdom[b]
        return b

    def inner_loop(self, blk):
        """blocks of the innermost loop around a block (None: no loop)"""
        best = None
        for h, body in self.heads.items():
            if blk in body and (best is None or len(body) < len(best)):
                best = body
        return best

    @property
    def ipdom(self):
        """immediate post-dominator of every block (-1: function exit)"""
        if self._ipdom is None:
            n = len(self.blocks)
            EXIT = n
            succ = {i: (list(self.blocks[i]["succs"]) or [EXIT]) for i in range(n)}
            full = set(range(n + 1))
            pd = {i: set(full) for i in range(n)}
            pd[EXIT] = {EXIT}
            ch = True
            while ch:
                ch = False
                for i in reversed(range(n)):
                    s = set.intersection(*[pd[x] for x in succ[i]]) | {i}
                    if s != pd[i]:
                        pd[i] = s
                        ch = True
            self._ipdom = {}
            for i in range(n):
                cands = pd[i] - {i}
                best = -1
                for c in cands:
                    if c != EXIT and all(c == d or d in pd[c] for d in cands):
                        best = c
                self._ipdom[i] = best
        return self._ipdom


class Program:
    def __init__(self, d):
        self.types = d["types"]
        self.funcs = {f["name"]: Func(f) for f in d["functions"]}
        self.globals = d["globals"]
        self.packages = d["packages"]
        self.bystr = {t["str"]: t["id"] for t in self.types}

    @staticmethod
    def load(repo=None):
        fe = build_frontend()
        r = subprocess.run([fe, "-dir", repo or REPO, "-inline", INLINE, "./bip32", "./bip39/...", "./bip44", "./util"],
                           env=goenv(GO), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode != 0:
            raise RuntimeError("front end failed (does the tree build?):\n" + r.stderr[-4000:])
        return Program(json.loads(r.stdout))

    def t(self, tid):
        return self.types[tid]

    def int_info(self, tid):
        t = self.types[tid]
        if t["kind"] == "basic":
            return INTS.get(t["basic"])
        return None

    def is_string(self, tid):
        t = self.types[tid]
        return t["kind"] == "basic" and t["basic"] in ("string", "untyped string")

    def is_bool(self, tid):
        t = self.types[tid]
        return t["kind"] == "basic" and t["basic"] in ("bool", "untyped bool")

    def is_byte_slice(self, tid):
        t = self.types[tid]
        return t["kind"] == "slice" and self.int_info(t["elem"]) == (8, False)

    def tid(self, s):
        return self.bystr[s]


def const_bytes(b64):
    return base64.b64decode(b64)
