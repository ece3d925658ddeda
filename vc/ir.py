"""Loading of the IR that tool/extract.cpp emits (one JSON file per translation unit)."""
import json


class Ty:
    __slots__ = ("k", "n", "args", "to", "const", "w", "s", "len", "root", "key")

    def __init__(self, k, n=None, args=(), to=None, const=False, w=0, s=1, len_=None, root=False):
        self.k, self.n, self.args, self.to, self.const = k, n, tuple(args), to, const
        self.w, self.s, self.len, self.root = w, s, len_, root
        self.key = self._key()

    def _key(self):
        if self.k == "rec":
            return "rec:%s<%s>" % (self.n, ",".join(a.key for a in self.args))
        if self.k in ("ptr", "ref", "arr"):
            return "%s(%s)" % (self.k, self.to.key)
        if self.k == "int":
            return "int%d%s" % (self.w, "s" if self.s else "u")
        if self.k == "enum":
            return "enum:" + (self.n or "")
        if self.k == "val":
            return "val:%s" % self.n
        return self.k

    def __repr__(self):
        return self.key

    def noref(self):
        return self.to.noref() if self.k == "ref" else self

    def isrec(self, *names):
        return self.k == "rec" and self.n in names


INT = Ty("int", w=32, s=1)
SIZE = Ty("int", w=64, s=0)
BOOL = Ty("bool")
DOUBLE = Ty("double", w=64)
VOID = Ty("void")
STR = Ty("rec", "std::basic_string")


class Program:
    def __init__(self):
        self.funcs = {}      # sig -> function
        self.byname = {}     # qualified name -> [sig]
        self.recs = {}       # type key -> record
        self.recname = {}    # qualified name -> record
        self.globals = {}

    def load(self, path):
        d = json.load(open(path))
        raw = d["types"]
        memo = {}

        def mk(i):
            if i in memo:
                return memo[i]
            o = raw[i]
            k = o["k"]
            to = mk(o["to"]) if "to" in o else None
            args = [mk(a) for a in o.get("a", [])]
            if k == "fnptr":
                to = None
            n = o.get("n")
            if k == "val":
                n = str(o.get("v"))
            t = Ty(k, n, args, to, bool(o.get("c")), o.get("w", 0), o.get("s", 1), o.get("len"), bool(o.get("r")))
            memo[i] = t
            return t

        TKEYS = {"t", "nt", "ct", "ret", "cls"}

        def fix(x, parent=None):
            if isinstance(x, list):
                for y in x:
                    fix(y)
            elif isinstance(x, dict):
                for kk, v in list(x.items()):
                    if (kk in TKEYS or kk == "b") and isinstance(v, int):
                        x[kk] = mk(v)
                    elif kk == "ps":
                        x[kk] = [mk(a) for a in v]
                    elif isinstance(v, (dict, list)):
                        fix(v)

        for f in d["funcs"]:
            fix(f)
            if f["sig"] in self.funcs:
                continue
            self.funcs[f["sig"]] = f
            self.byname.setdefault(f["q"], []).append(f["sig"])
        for r in d["recs"]:
            fix(r)
            for b in r["bases"]:
                pass
            if r["t"].key not in self.recs:
                self.recs[r["t"].key] = r
                self.recname.setdefault(r["q"], r)
        for g in d["globals"]:
            fix(g)
            if g["q"] not in self.globals or ("init" in g and "init" not in self.globals[g["q"]]):
                self.globals[g["q"]] = g
        return self
