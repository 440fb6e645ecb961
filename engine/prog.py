"""Loads the JSON produced by the extractor and resolves types."""
import json


class Ty:
    __slots__ = ("id", "k", "s", "const", "j", "prog", "_rec")

    def __init__(self, prog, i, j):
        self.prog, self.id, self.j = prog, i, j
        self.k = j["k"]
        self.s = j["s"]
        self.const = j.get("const", False)

    def to(self):
        return self.prog.ty(self.j["to"])

    def el(self):
        return self.prog.ty(self.j["el"])

    def rec(self):
        return self.prog.recs[self.j["r"]]

    def deref(self):
        return self.to() if self.k == "ref" else self

    @property
    def is_ptr(self):
        return self.k in ("ptr", "nullptr")

    def __repr__(self):
        return "Ty(%s)" % self.s


class Rec:
    def __init__(self, prog, i, j):
        self.prog, self.id, self.j = prog, i, j
        self.name = j["name"]
        self.own = j.get("own", False)

    def targ(self, n):
        a = self.j.get("targs", [])
        if n >= len(a):
            return None
        x = a[n]
        if isinstance(x, int):
            return self.prog.ty(x)
        return x

    def bases(self):
        return [self.prog.ty(b).rec() for b in self.j.get("bases", [])]

    def fields(self):
        """(name, ty, declaring record, init expr) for all fields incl. bases"""
        out = []
        own = {f["n"] for f in self.j.get("fields", [])}
        for b in self.bases():
            # a base-class field hidden by a field of the same name keeps a qualified name (no function under contract uses it)
            out += [((d.name + "::" + n) if n in own else n, t, d, i) for (n, t, d, i) in b.fields()]
        for f in self.j.get("fields", []):
            out.append((f["n"], self.prog.ty(f["t"]), self, f.get("init")))
        return out

    def is_a(self, name):
        return self.name == name or any(b.is_a(name) for b in self.bases())


class Fn:
    def __init__(self, prog, j):
        self.prog, self.j = prog, j
        self.id = j["id"]
        self.qn = j["qn"]
        self.sig = j["sig"]
        self.loc = j["loc"]
        self.own = j.get("own", False)
        self.body = j.get("body")
        self.params = j["params"]
        self.ctor = j.get("ctor", False)
        self.spec = j.get("spec")
        self.name = self.qn.split("::")[-1]
        self.static = j.get("static", False)

    @property
    def ret(self):
        return self.prog.ty(self.j["ret"])

    @property
    def cls(self):
        return self.prog.recs[self.j["cls"]] if "cls" in self.j else None

    def ptys(self):
        return [self.prog.ty(p["t"]) for p in self.params]

    def __repr__(self):
        return "Fn(%s)" % self.sig[:80]


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = [Ty(self, i, j) for i, j in enumerate(d["types"])]
        self.recs = [Rec(self, i, j) for i, j in enumerate(d["recs"])]
        self.enums = d["enums"]
        self.globs = d["globs"]
        self.fns = [Fn(self, j) for j in d["fns"]]
        self.overriders = {}
        for f in self.fns:
            for o in f.j.get("ovr", []):
                self.overriders.setdefault(o, []).append(f)

    def ty(self, i):
        return self.types[i]

    def find(self, qn, pred=None, body=True):
        r = [f for f in self.fns if f.qn == qn and (not body or f.body is not None) and (pred is None or pred(f))]
        return r

    def enum(self, suffix):
        for e in self.enums:
            if e["name"] == suffix or e["name"].endswith("::" + suffix):
                return e["vals"]
        raise KeyError(suffix)

    def enum_of(self, ty):
        return self.enums[ty.j["e"]]
