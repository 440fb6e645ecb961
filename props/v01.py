"""V01: array views.

A view of n elements over storage s starting at element o reads and writes exactly s[o..o+n).  Every contract below is
checked for an arbitrary storage, offset and length; frames are stated element by element: every element of every storage
involved is given a value, so nothing outside the view may change."""
from contract import *

NS = "CppAD::cg::"
CLS = NS + "ArrayView<double>::"
ALLC = [NS + "ArrayView<double>::", NS + "ArrayView<const double>::"]
MAX = 2 ** 62
ASSUME = ["copying between views over overlapping parts of one storage is specified for a destination that starts at or before the source (the loop copies forward)"]


def q(*names):
    return [p + n for n in names for p in ALLC]


def mkview(ex, st, ty, nm, el=None, root=None):
    """an arbitrary view: storage, offset, length"""
    rec = ty.rec()
    elty = [t for (n, t, d, i) in rec.fields() if n == "_data"][0].to()
    if root is None:
        root = ("t", fresh_id())
        st.vars[root] = Tree("vec", None, {"len": z3.Int(nm + ".storage"), "el": ex.sorts.fresh(elty, nm + ".el", (I,))})
    off, n = z3.Int(nm + ".off"), z3.Int(nm + ".len")
    return Tree("rec", ty, {"_data": Ref(root).i(off), "_length": n}), root, off, n


class View:
    """what a view value denotes in a state"""

    def __init__(self, c, st, v):
        d = v["_data"]
        self.n = v["_length"]
        self.d = d
        if isinstance(d, Ref) and d.root[0] != "h" and d.acc and d.acc[-1][0] == "i":
            self.sref = Ref(d.root, d.acc[:-1])
            self.off = d.acc[-1][1]
            self.st = c.ex.read(st, self.sref)
        else:
            self.sref = None

    def at(self, i):
        return X.tselect_(self.st["el"], self.off + i)

    def ok(self):
        return [self.off >= 0, self.n >= 0, self.off + self.n <= self.st["len"], self.st["len"] < MAX]


def same_storage(a, b):
    return a.sref is not None and b.sref is not None and X.refeq(a.sref, b.sref)


class V(Contract):
    """method of a view"""
    alias = False
    inline_in = staticmethod(lambda ex, fn: True)   # calls between these functions are checked against their bodies

    def make_arg(self, ex, st, fn, n, t):
        if t.deref().k == "rec" and t.deref().rec().name == NS + "ArrayView":
            v, _, _, _ = mkview(ex, st, t.deref(), "x", root=self.root_ if self.alias else None)
            r = ("t", fresh_id())
            st.vars[r] = v
            return Ref(r)
        return None

    def make_this_st(self, ex, st, fn):
        tt = [t for t in ex.prog.types if t.k == "rec" and t.j["r"] == fn.cls.id][0]
        v, self.root_, _, _ = mkview(ex, st, tt, "this")
        return v

    def view(self, c, st=None):
        return View(c, st or c.st0, c.ex.read(st or c.st0, c.this))

    def pre(self, c):
        return self.view(c).ok() + self.more(c)

    def more(self, c):
        return []

    def unchanged(self, c):
        """the view itself and its storage"""
        a, b = self.view(c), self.view(c, c.st1)
        return [("view unchanged", z3.And(a.n == b.n, z3.BoolVal(same_storage(a, b)), a.off == b.off)), ("storage unchanged", z3.And(a.st["len"] == b.st["len"], a.st["el"] == b.st["el"]))]


class Size(V):
    """size queries"""
    qn = q("size", "max_size", "empty")

    def post(self, c):
        n = self.view(c).n
        return [("answer", c.rv() == (n == 0 if c.fn.name == "empty" else n))] + self.unchanged(c)


def isat(c, r, v, i):
    """r refers to element i of view v"""
    if not (isinstance(r, Ref) and r.acc and r.acc[-1][0] == "i" and X.refeq(Ref(r.root, r.acc[:-1]), v.sref)):
        return z3.BoolVal(False)
    return r.acc[-1][1] == v.off + i


class Elem(V):
    """element access"""
    qn = q("operator[]", "at", "front", "back")

    def idx(self, c):
        v = self.view(c)
        return {"front": z3.IntVal(0), "back": v.n - 1}.get(c.fn.name, None) if not c.args else c.o(0)

    def more(self, c):
        v = self.view(c)
        if c.fn.name == "at":
            return []
        return [self.idx(c) < v.n, v.n > 0]

    def throw_when(self, c):
        return c.o(0) >= self.view(c).n if c.fn.name == "at" else None

    def post(self, c):
        return [("refers to the element", isat(c, c.ret, self.view(c), self.idx(c)))] + self.unchanged(c)


class Ptr(V):
    """first / one past the last element"""
    qn = q("data", "begin", "end", "cbegin", "cend")

    def post(self, c):
        v = self.view(c)
        return [("position", isat(c, c.ret, v, v.n if c.fn.name in ("end", "cend") else z3.IntVal(0)))] + self.unchanged(c)


class Sub(V):
    """sub-views"""
    qn = q("head", "tail", "segment")

    def more(self, c):
        v = self.view(c)
        return [c.o(0) <= v.n] if c.fn.name != "segment" else [c.o(0) < v.n, c.o(0) + c.o(1) <= v.n]

    def post(self, c):
        v = self.view(c)
        r = View(c, c.st1, c.rv())
        n = c.o(0) if c.fn.name != "segment" else c.o(1)
        s = {"head": z3.IntVal(0), "tail": v.n - c.o(0), "segment": c.o(0)}[c.fn.name]
        return [("length", r.n == n), ("starts at the right element of the same storage", isat(c, r.d, v, s))] + self.unchanged(c)


class Fill(V):
    """fill"""
    qn = [CLS + "fill"]

    def post(self, c):
        a, b = self.view(c), self.view(c, c.st1)
        return [("view unchanged", z3.And(a.n == b.n, z3.BoolVal(same_storage(a, b)), a.off == b.off)),
                ("exactly the viewed elements are set", forall(I, lambda k: imp(inr(k, a.st["len"]), z3.Select(b.st["el"], k) == z3.If(inr(k, a.off + a.n, a.off), c.o(0), z3.Select(a.st["el"], k)))))]


class Copy(V):
    """copy of the values of another view or vector"""
    qn = [CLS + "operator="]
    deep = False

    def select(self, fn):
        return self.alias is False or fn.ptys()[0].deref().rec().name == NS + "ArrayView"

    def src(self, c, st):
        v = c.ex.read(st, c.args[0])
        if "_data" in v.f:
            w = View(c, st, v)
            return w, w.n, w.at
        return None, v["len"], lambda i: X.tselect_(v["el"], i)

    def more(self, c):
        w, n, at = self.src(c, c.st0)
        return (w.ok() if w is not None else []) + ([self.view(c).off <= w.off] if self.alias else [])

    def throw_when(self, c):
        return self.src(c, c.st0)[1] != self.view(c).n

    def post(self, c):
        a, b = self.view(c), self.view(c, c.st1)
        w, n, at = self.src(c, c.st0)
        out = [("view unchanged", z3.And(a.n == b.n, z3.BoolVal(same_storage(a, b)), a.off == b.off)),
               ("exactly the viewed elements are set", forall(I, lambda k: imp(inr(k, a.st["len"]), z3.Select(b.st["el"], k) == z3.If(inr(k, a.off + a.n, a.off), at(k - a.off), z3.Select(a.st["el"], k)))))]
        if not self.alias:
            w2, n2, at2 = self.src(c, c.st1)
            out.append(("source unchanged", z3.And(n2 == n, forall(I, lambda k: imp(inr(k, n), at2(k) == at(k))))))
        return out

    def post_throw(self, c):
        a, b = self.view(c), View(c, c.st1, c.ex.read(c.st1, c.this))
        return [("nothing copied when sizes differ", b.st["el"] == a.st["el"])]

    def cands(self, L):
        c = L.ex.ctx
        a = self.view(c)
        w, n, at = self.src(c, c.st0)
        out = []
        for r in L.ints():
            out.append(("elements copied so far", lambda st, r=r: forall(I, lambda k: imp(inr(k, a.st["len"]), z3.Select(c.ex.read(st, a.sref)["el"], k) == z3.If(inr(k, a.off + st.vars[r], a.off), at(k - a.off), z3.Select(a.st["el"], k))))))
        return out


class CopyAlias(Copy):
    """copy between overlapping views of one storage"""
    alias = True


class Swap(V):
    """swap of two views"""
    qn = [CLS + "swap"]

    def pre(self, c):
        return self.view(c).ok() + View(c, c.st0, c.o(0)).ok()

    def post(self, c):
        a, b = self.view(c), View(c, c.st0, c.o(0))
        a1, b1 = self.view(c, c.st1), View(c, c.st1, c.n(0))
        return [("views exchanged", z3.And(a1.n == b.n, b1.n == a.n, isat(c, a1.d, b, z3.IntVal(0)), isat(c, b1.d, a, z3.IntVal(0)))),
                ("elements unchanged", z3.And(a1.st["el"] == b.st["el"], b1.st["el"] == a.st["el"]))]


class New(Contract):
    """creation of a view"""
    qn = q("ArrayView")
    inline_in = staticmethod(lambda ex, fn: True)

    def select(self, fn):
        return fn.spec != "move"

    def make_arg(self, ex, st, fn, n, t):
        if t.k == "ptr" and t.to().k == "void":
            return z3.IntVal(0)
        if t.deref().k == "rec" and t.deref().rec().name == NS + "ArrayView":
            v, _, _, _ = mkview(ex, st, t.deref(), "x")
            r = ("t", fresh_id())
            st.vars[r] = v
            return Ref(r)
        return None

    def kind(self, c):
        if not c.args:
            return "empty"
        t = c.fn.ptys()[0]
        if t.k == "ptr":
            return "ptr"
        return "view" if t.deref().rec().name == NS + "ArrayView" else "vec"

    def pre(self, c):
        k = self.kind(c)
        if k == "ptr":
            return [c.o(1) <= c.ex.read(c.st0, Ref(c.args[0].root))["len"], c.o(1) < MAX]
        return View(c, c.st0, c.o(0)).ok() if k == "view" else []

    def post(self, c):
        k = self.kind(c)
        r = View(c, c.st1, c.ex.read(c.st1, c.this))
        if k == "empty":
            return [("no elements", r.n == 0)]
        if k == "ptr":
            return [("length", r.n == c.o(1)), ("starts at the given element", z3.And(z3.BoolVal(X.refeq(r.sref, Ref(c.args[0].root))), r.off == 0))]
        if k == "view":
            w = View(c, c.st0, c.o(0))
            return [("length", r.n == w.n), ("same elements", isat(c, r.d, w, z3.IntVal(0)))]
        if r.sref is None:   # null pointer: only for a container without elements
            return [("length", r.n == c.o(0)["len"]), ("no elements", r.n == 0)]
        return [("length", r.n == c.o(0)["len"]), ("views the container's elements", z3.BoolVal(X.refeq(r.sref, c.args[0]))), ("starts at the first element", r.off == 0)]


SPECS = [Size(), Elem(), Ptr(), Sub(), Fill(), Copy(), CopyAlias(), Swap(), New()]
