"""Symbolic values.

A value is a z3 term (scalar), or a Tree (struct / container) whose leaves are z3 terms, or one of the
non-liftable python-level values (Ref, Iter, Lam, StrV).  A Tree can be *lifted* by an index sort: every leaf of
sort S becomes an Array(I,S); selecting / storing maps over the leaves.  vector<T> is {len, el(lifted T)},
set<K> is {dom: K->Bool}, map<K,V> is {dom, val(lifted V)}, unique_ptr<T> is {has, val}.
"""
import z3

I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()
Str = z3.DeclareSort("Str")
_pairs = {}


class Unsupported(Exception):
    pass


_cnt = [0]


def fresh_id():
    _cnt[0] += 1
    return _cnt[0]


def fconst(name, sort):
    return z3.Const("%s!%d" % (name, fresh_id()), sort)


def isz(x):
    return isinstance(x, z3.ExprRef)


class Tree:
    __slots__ = ("kind", "ty", "f")

    def __init__(self, kind, ty, f):
        self.kind, self.ty, self.f = kind, ty, f  # kind: rec vec set map opt

    def __getitem__(self, k):
        return self.f[k]

    def with_(self, **kw):
        d = dict(self.f)
        d.update(kw)
        return Tree(self.kind, self.ty, d)

    def withk(self, k, v):
        d = dict(self.f)
        d[k] = v
        return Tree(self.kind, self.ty, d)

    def __repr__(self):
        return "%s%s" % (self.kind, self.f)


class Ref:
    """an lvalue, or (as an rvalue) a pointer to it. root: ('v',frame,id) ('t',n) ('g',id) ('h',ptr)"""
    __slots__ = ("root", "acc")

    def __init__(self, root, acc=()):
        self.root, self.acc = root, tuple(acc)

    def f(self, name, cls=None):
        return Ref(self.root, self.acc + (("f", name, cls),))

    def i(self, idx):
        return Ref(self.root, self.acc + (("i", idx),))

    def k(self, key):
        return Ref(self.root, self.acc + (("k", key),))

    def o(self):
        return Ref(self.root, self.acc + (("o",),))

    def __repr__(self):
        return "Ref(%s,%s)" % (self.root, self.acc)


class Iter:
    """iterator. kind 'vec': pos (Int) into cont; 'set'/'map': key + end flag; rev: reverse vector iterator"""
    __slots__ = ("kind", "cont", "pos", "end", "rev")

    def __init__(self, kind, cont, pos, end=None, rev=False):
        self.kind, self.cont, self.pos, self.end, self.rev = kind, cont, pos, end, rev

    def __repr__(self):
        return "Iter(%s,%s,%s,%s)" % (self.kind, self.cont, self.pos, self.end)


class Lam:
    __slots__ = ("fn", "caps", "this", "frame")

    def __init__(self, fn, caps, this, frame):
        self.fn, self.caps, self.this, self.frame = fn, caps, this, frame


class FnV:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class StrV:
    """string as a python-level concatenation of parts: str literals or ('tag', payload...) atoms"""
    __slots__ = ("parts",)

    def __init__(self, parts=()):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] = out[-1] + p
            elif p == "":
                continue
            else:
                out.append(p)
        self.parts = tuple(out)

    def __add__(self, o):
        return StrV(self.parts + o.parts)

    def lit(self):
        if not self.parts:
            return ""
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    def __repr__(self):
        return "StrV" + repr(self.parts)


def tmap(fn, t, *ts):
    if isz(t):
        return fn(t, *ts)
    if isinstance(t, Tree):
        return Tree(t.kind, t.ty, {k: tmap(fn, v, *[u.f[k] for u in ts]) for k, v in t.f.items()})
    raise Unsupported("lift of %r" % (t,))


def tleaves(t, path=()):
    if isz(t):
        yield path, t
    elif isinstance(t, Tree):
        for k, v in t.f.items():
            yield from tleaves(v, path + (k,))
    else:
        yield path, t


def tset(t, path, v):
    if not path:
        return v
    return t.withk(path[0], tset(t.f[path[0]], path[1:], v))


def tget(t, path):
    for p in path:
        t = t.f[p]
    return t


def tselect(t, i):
    return tmap(lambda a: z3.Select(a, i), t)


def tstore(t, i, v):
    return tmap(lambda a, x: store1(a, i, coerce(x, a.sort().range())), t, v)


def coerce(x, sort):
    if not isz(x):
        raise Unsupported("store of non-term %r" % (x,))
    if x.sort() == sort:
        return x
    if sort == R and x.sort() == I:
        return z3.ToReal(x)
    if sort == I and x.sort() == B:
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    if sort == B and x.sort() == I:
        return x != 0
    raise Unsupported("sort mismatch %s vs %s" % (x.sort(), sort))


def tconst(t, sort):
    """lift a value to a constant array over sort"""
    return tmap(lambda a: z3.K(sort, a), t)


def teq(a, b):
    """equality of two values of the same shape as a z3 Bool (containers: extensional on leaves)"""
    if isz(a) and isz(b):
        if a.sort() != b.sort():
            a = coerce(a, b.sort())
        return a == b
    if isinstance(a, Tree) and isinstance(b, Tree):
        return z3.And([teq(a.f[k], b.f[k]) for k in a.f] or [z3.BoolVal(True)])
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.root == b.root and len(a.acc) == len(b.acc):
            cs = []
            for x, y in zip(a.acc, b.acc):
                if x[0] != y[0]:
                    return z3.BoolVal(False)
                if x[0] in ("i", "k"):
                    cs.append(teq(x[1], y[1]))
                elif x != y:
                    return z3.BoolVal(False)
            return z3.And(cs) if cs else z3.BoolVal(True)
        return z3.BoolVal(False)
    raise Unsupported("equality of %r and %r" % (a, b))


class Sorts:
    """maps program types to value trees"""

    def __init__(self, prog, heap_classes=(), opaque=()):
        self.prog = prog
        self.heap = set(heap_classes)
        self.opaque = dict(opaque)  # class name -> z3 sort

    def cname(self, ty):
        return ty.rec().name

    def kind(self, ty):
        if ty.k != "rec":
            return None
        n = ty.rec().name
        return STL.get(n)

    def is_heap(self, ty):
        return ty.k == "rec" and any(ty.rec().is_a(h) for h in self.heap)

    def key_sort(self, ty):
        s = self.scalar(ty)
        if s is not None:
            return s
        if self.kind(ty) == "pair":
            a, b = ty.rec().targ(0), ty.rec().targ(1)
            sa, sb = self.key_sort(a), self.key_sort(b)
            k = (str(sa), str(sb))
            if k not in _pairs:
                d = z3.Datatype("Pair_%s_%s" % (str(sa).replace(" ", ""), str(sb).replace(" ", "")))
                d.declare("mkpair", ("first", sa), ("second", sb))
                _pairs[k] = d.create()
            return _pairs[k]
        raise Unsupported("key type %s" % ty.s)

    def to_key(self, ty, v):
        if isz(v):
            return v
        if isinstance(v, Tree) and v.kind == "rec" and self.kind(ty) == "pair":
            s = self.key_sort(ty)
            return s.mkpair(self.to_key(ty.rec().targ(0), v["first"]), self.to_key(ty.rec().targ(1), v["second"]))
        raise Unsupported("key value %r" % (v,))

    def from_key(self, ty, k):
        if self.scalar(ty) is not None:
            return k
        if self.kind(ty) == "pair":
            s = self.key_sort(ty)
            return Tree("rec", ty, {"first": self.from_key(ty.rec().targ(0), s.first(k)), "second": self.from_key(ty.rec().targ(1), s.second(k))})
        raise Unsupported("key type %s" % ty.s)

    def scalar(self, ty):
        k = ty.k
        if k in ("int", "enum", "ptr", "nullptr", "fn"):
            return I
        if k == "bool":
            return B
        if k == "float":
            return R
        if k == "ref":
            return None
        if k == "rec":
            n = ty.rec().name
            if n in self.opaque:
                return self.opaque[n]
            if n.startswith("std::") and ("basic_string" in n or "basic_ostringstream" in n):
                return Str
        return None

    def fresh(self, ty, name, dims=(), st=None):
        """fresh unconstrained tree of type ty, lifted by dims"""
        s = self.scalar(ty)
        if s is not None:
            for d in reversed(dims):
                s = z3.ArraySort(d, s)
            return fconst(name, s)
        k = self.kind(ty)

        def leaf(nm, s):
            for d in reversed(dims):
                s = z3.ArraySort(d, s)
            return fconst(nm, s)
        if ty.k == "arr":
            return Tree("vec", ty, {"len": leaf(name + ".len", I), "el": self.fresh(ty.el(), name + ".el", tuple(dims) + (I,))})
        if k == "vec":
            el = ty.rec().targ(0)
            return Tree("vec", ty, {"len": leaf(name + ".len", I), "el": self.fresh(el, name + ".el", tuple(dims) + (I,))})
        if k == "set":
            ks = self.key_sort(ty.rec().targ(0))
            return Tree("set", ty, {"dom": leaf(name + ".dom", z3.ArraySort(ks, B))})
        if k == "map":
            ks = self.key_sort(ty.rec().targ(0))
            return Tree("map", ty, {"dom": leaf(name + ".dom", z3.ArraySort(ks, B)), "val": self.fresh(ty.rec().targ(1), name + ".val", tuple(dims) + (ks,))})
        if k == "opt":
            return Tree("opt", ty, {"has": leaf(name + ".has", B), "val": self.fresh(ty.rec().targ(0), name + ".val", dims)})
        if k == "pair":
            return Tree("rec", ty, {"first": self.fresh(ty.rec().targ(0), name + ".first", dims), "second": self.fresh(ty.rec().targ(1), name + ".second", dims)})
        if k is None and ty.k == "rec" and "fields" in ty.rec().j:
            d = {}
            for (n, t, decl, init) in ty.rec().fields():
                if t.k == "ref":
                    d[n] = None
                    continue
                try:
                    d[n] = self.fresh(t, name + "." + n, dims)
                except Unsupported:
                    d[n] = Opaque(n)
            return Tree("rec", ty, d)
        raise Unsupported("fresh of type %s (%s)" % (ty.s, ty.k))

    def default(self, ty):
        """value-initialised value"""
        s = self.scalar(ty)
        if s is not None:
            if s == I:
                return z3.IntVal(0)
            if s == B:
                return z3.BoolVal(False)
            if s == R:
                return z3.RealVal(0)
            if s == Str:
                return StrV(())
            return fconst("dflt", s)
        k = self.kind(ty)
        if k == "vec" or ty.k == "arr":
            el = ty.el() if ty.k == "arr" else ty.rec().targ(0)
            n = 0
            if ty.k == "arr":
                n = ty.j.get("n", 0)
            elif ty.rec().name == "std::array":
                n = ty.rec().targ(1)["int"]
            return Tree("vec", ty, {"len": z3.IntVal(n), "el": self.lift_default(el)})
        if k == "set":
            return Tree("set", ty, {"dom": z3.K(self.key_sort(ty.rec().targ(0)), z3.BoolVal(False))})
        if k == "map":
            ks = self.key_sort(ty.rec().targ(0))
            try:
                v = tconst(self.default(ty.rec().targ(1)), ks)
            except Unsupported:
                v = self.fresh(ty.rec().targ(1), "mapval", (ks,))
            return Tree("map", ty, {"dom": z3.K(ks, z3.BoolVal(False)), "val": v})
        if k == "opt":
            return Tree("opt", ty, {"has": z3.BoolVal(False), "val": self.fresh(ty.rec().targ(0), "opt")})
        if k == "pair":
            return Tree("rec", ty, {"first": self.default(ty.rec().targ(0)), "second": self.default(ty.rec().targ(1))})
        if ty.k == "rec" and "fields" in ty.rec().j:
            return Tree("rec", ty, {n: self.default(t) for (n, t, d, i) in ty.rec().fields()})
        if ty.k == "rec" and ty.rec().name.startswith(("std::", "__gnu_cxx::")):
            return Opaque(ty.rec().name)
        raise Unsupported("default of %s" % ty.s)

    def lift_default(self, el):
        v = self.default(el)
        try:
            return tconst(v, I)
        except Unsupported:
            return self.fresh(el, "el", (I,))



def store1(a, i, x):
    """Store(a, i, x), which is a itself when x is a[i]"""
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and z3.eq(x.arg(0), a) and z3.eq(x.arg(1), i):
        return a
    return z3.Store(a, i, x)


class Opaque:
    """a field whose type has no model; reading it is unsupported"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n


STL = {
    "std::vector": "vec", "CppAD::vector": "vec", "std::array": "vec", "std::initializer_list": "vec", "std::valarray": "vec",
    "std::set": "set", "std::map": "map", "std::pair": "pair", "std::unique_ptr": "opt", "std::deque": "vec", "std::list": "vec",
    "std::unordered_set": "set", "std::unordered_map": "map",
    "__gnu_cxx::__normal_iterator": "iter", "std::_Rb_tree_const_iterator": "iter", "std::_Rb_tree_iterator": "iter",
    "std::_Bit_iterator": "iter", "std::_Bit_const_iterator": "iter", "std::reverse_iterator": "iter", "std::move_iterator": "iter",
}
