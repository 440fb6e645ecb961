"""M01: storage of arrays inside the shared temporary array (ArrayIdCompresser<double>).

State: F = _freeArrayStartSpace (start -> end), E = _freeArrayEndSpace (end -> start), cnt = _idArrayCount (one more
than the size of the shared array).  A cell x is free when some range of F contains it; cells below cnt-1 which are not
free belong to arrays not yet released (that is what the representation invariant and these contracts preserve)."""
from contract import *
import stl

NS = "CppAD::cg::"
CLS = NS + "ArrayIdCompresser<double>::"
CHV = NS + "CodeHandlerVector"
MAX = 2 ** 63
ASSUME = ["isSameArrayElement (a heuristic comparing remembered argument pointers) only reads its operands; its answer is unconstrained",
          "the caller's bound: the temporary array passed to the constructor has room for every array (cnt-1+n <= maxArraySize)"]


def SORTS(P):
    return ((NS + "OperationNode", NS + "CodeHandler", CHV),)


class S:
    """free-space state"""

    def __init__(self, t):
        self.F, self.E = t["_freeArrayStartSpace"], t["_freeArrayEndSpace"]
        self.cnt, self.tmp = t["_idArrayCount"], t["_tmpArrayValues"]

    def inF(self, s):
        return z3.Select(self.F["dom"], s)

    def inE(self, s):
        return z3.Select(self.E["dom"], s)

    def end(self, s):
        return z3.Select(self.F["val"], s)

    def start(self, e):
        return z3.Select(self.E["val"], e)

    def free(self, x):
        return exists(I, lambda s: z3.And(self.inF(s), s <= x, x <= self.end(s)))

    def inv(self, c):
        cd = stl.setfn(c.ex, "card", I)
        return [("size of the shared array", self.cnt >= 1),
                ("free ranges lie within the shared array", forall(I, lambda s: imp(self.inF(s), z3.And(s >= 0, s <= self.end(s), self.end(s) + 1 <= self.cnt - 1)))),
                ("every free range is found by its end", forall(I, lambda s: imp(self.inF(s), z3.And(self.inE(self.end(s)), self.start(self.end(s)) == s)))),
                ("every range found by its end is free", forall(I, lambda e: imp(self.inE(e), z3.And(self.inF(self.start(e)), self.end(self.start(e)) == e)))),
                ("free ranges are disjoint", forall([I, I], lambda s, t: imp(z3.And(self.inF(s), self.inF(t), s < t), self.end(s) < t))),
                ("as many starts as ends", cd(self.F["dom"]) == cd(self.E["dom"]))]


class Nodes:
    """the heap fields the compresser reads"""

    def __init__(self, c):
        self.c = c
        ex = c.ex
        P = ex.prog
        on, chv = ex.find_rec(NS + "OperationNode"), ex.find_rec(CHV)
        g = lambda cls, f: ex.heap_get(c.st0, ex.field_ty(cls, f)[1], f, ex.field_ty(cls, f)[0])
        self.args, self.info, self.op = g(on, "arguments_"), g(on, "info_"), g(on, "operation_")
        self.h, self.pos = g(on, "handler_"), g(on, "pos_")
        self.data = g(chv, "data_")
        self.vh = g(ex.find_rec(NS + "CodeHandlerVectorSync"), "handler_")
        v = ex.read_raw(c.st0, c.this, "_varId")
        self.v = v
        for e in P.enums:
            if e["name"] == NS + "CGOpCode":
                self.AE = e["vals"]["ArrayElement"]

    def nargs(self, p):
        return sel(self.args["len"], p)

    def argop(self, p, i):
        return sel(self.args["el"]["operation_"], p, i)

    def id(self, p):
        return sel(self.data["el"], self.v, sel(self.pos, p))

    def known(self, p):
        """node managed by the handler of the id table, with an entry in it"""
        return z3.And(p > 0, sel(self.h, p) == sel(self.vh, self.v), sel(self.pos, p) >= 0, sel(self.pos, p) < sel(self.data["len"], self.v), sel(self.pos, p) != 2 ** 64 - 1)

    def iselem(self, p, i):
        o = self.argop(p, i)
        return z3.And(o != 0, sel(self.op, o) == self.AE)

    def cell(self, p, i):
        """cell of the shared array which argument i of p (an array element) is read from"""
        o = self.argop(p, i)
        return self.id(self.argop(o, z3.IntVal(0))) - 1 + sel(self.info["el"], o, z3.IntVal(0))


class M(Contract):
    def make_this(self, ex, fn):
        tt = [t for t in ex.prog.types if t.k == "rec" and t.j["r"] == fn.cls.id][0]
        return ex.sorts.fresh(tt, "this").withk("_varId", z3.Int("varId"))

    def setup(self, c):
        return [z3.Int("varId") > 0]


def keeps(o, n, lo, hi):
    pass


class Reserve(M):
    """storage for a new array"""
    qn = CLS + "reserveArraySpace"
    cost = 50

    def pre(self, c):
        s, N = S(c.to()), Nodes(c)
        a = c.args[0].root[1]
        n = N.nargs(a)
        return s.inv(c) + [s.cnt - 1 + n <= s.tmp["len"], s.tmp["len"] < MAX, forall(I, lambda i: imp(z3.And(inr(i, n), N.iselem(a, i)),
            z3.And(N.nargs(N.argop(a, i)) > 0, sel(N.info["len"], N.argop(a, i)) > 0, N.known(N.argop(N.argop(a, i), z3.IntVal(0))),
                   N.id(N.argop(N.argop(a, i), z3.IntVal(0))) > 0, N.cell(a, i) >= 0, sel(N.info["el"], N.argop(a, i), z3.IntVal(0)) >= 0, N.cell(a, i) < s.cnt - 1)), lambda i: [N.argop(a, i)])]

    def cands(self, L):
        c = L.ex.ctx
        s, N = S(c.to()), Nodes(c)
        a = c.args[0].root[1]
        n = N.nargs(a)
        out = []
        # cells the new array must not use
        for r in [r for r, v in L.st0.vars.items() if isinstance(v, Tree) and v.kind == "set"]:
            if L.is_mod(r):
                for k in L.ints():
                    out.append(("all element cells collected", lambda st, r=r, k=k: forall(I, lambda i: imp(z3.And(inr(i, st.vars[k]), N.iselem(a, i)), z3.Select(st.vars[r]["dom"], N.cell(a, i))))))
            else:
                for it in L.iters():
                    out.append(("candidate range fits", lambda st, r=r, it=it: z3.Implies(z3.Not(st.vars[it].end), z3.And(s.inF(st.vars[it].pos), s.end(st.vars[it].pos) - st.vars[it].pos + 1 >= n,
                        forall(I, lambda k: imp(z3.Select(st.vars[r]["dom"], k), z3.Not(z3.And(st.vars[it].pos <= k, k <= s.end(st.vars[it].pos)))))))))
                    for jt in L.iters():
                        if jt is not it:
                            out.append(("without a candidate every range seen is unusable", lambda st, r=r, it=it, jt=jt: z3.Implies(st.vars[it].end, forall(I, lambda q: imp(z3.And(s.inF(q), z3.Or(st.vars[jt].end, q > st.vars[jt].pos)),
                                z3.Or(s.end(q) - q + 1 < n, exists(I, lambda k: z3.And(z3.Select(st.vars[r]["dom"], k), q <= k, k <= s.end(q)))))))))
        return out

    def post(self, c):
        s, t, N = S(c.to()), S(c.tn()), Nodes(c)
        a = c.args[0].root[1]
        n, b = N.nargs(a), c.rv()
        R = lambda x: z3.And(b <= x, x < b + n)
        big = n > 0
        return [("an empty array gets no space", imp(n == 0, z3.And(b == 0, t.cnt == s.cnt, t.F["dom"] == s.F["dom"], t.E["dom"] == s.E["dom"])))] + t.inv(c) + [
            ("the total size does not shrink", t.cnt >= s.cnt),
            ("the range lies within the reported total size", imp(big, z3.And(b >= 0, b + n <= t.cnt - 1))),
            ("no live cell is handed out", imp(big, forall(I, lambda x: imp(z3.And(R(x), x < s.cnt - 1), s.free(x))))),
            ("the new range is not free afterwards", imp(big, forall(I, lambda q: imp(t.inF(q), z3.Or(t.end(q) < b, q >= b + n))))),
            ("live cells stay live", forall(I, lambda q: imp(t.inF(q), exists(I, lambda p: z3.And(s.inF(p), p <= q, t.end(q) <= s.end(p)))))),
            ("no element the new array is built from is inside its range", imp(big, forall(I, lambda i: imp(z3.And(inr(i, n), N.iselem(a, i)), z3.Not(R(N.cell(a, i)))))))]


class Release(M):
    """release of an array"""
    qn = CLS + "addFreeArraySpace"

    def pre(self, c):
        s, N = S(c.to()), Nodes(c)
        a = c.args[0].root[1]
        n, b = N.nargs(a), N.id(a) - 1
        return s.inv(c) + [N.known(a), b >= 0, b + n <= s.cnt - 1, s.cnt < MAX, forall(I, lambda q: imp(z3.And(s.inF(q), n > 0), z3.Or(s.end(q) < b, q >= b + n)))]

    def post(self, c):
        s, t, N = S(c.to()), S(c.tn()), Nodes(c)
        a = c.args[0].root[1]
        n, b = N.nargs(a), N.id(a) - 1
        return t.inv(c) + [("total size unchanged", t.cnt == s.cnt),
                ("only the released range becomes free", forall([I, I], lambda q, x: imp(z3.And(t.inF(q), q <= x, x <= t.end(q)), z3.Or(z3.And(b <= x, x < b + n), s.free(x))))),
                ("the released range becomes free", forall(I, lambda x: imp(z3.And(b <= x, x < b + n), t.free(x)))),
                ("free cells stay free", forall([I, I], lambda q, x: imp(z3.And(s.inF(q), q <= x, x <= s.end(q)), t.free(x))))]


class Count(M):
    """reported size"""
    qn = CLS + "getIdCount"

    def post(self, c):
        return [("returns the count", c.rv() == c.to("_idArrayCount"))]


class New(Contract):
    """empty storage"""
    qn = CLS + "ArrayIdCompresser"

    def pre(self, c):
        return [c.o(1) < MAX]

    def post(self, c):
        t = S(c.tn())
        return t.inv(c) + [("nothing allocated", t.cnt == 1), ("room for the given number of elements", t.tmp["len"] == c.o(1)), ("no free ranges", forall(I, lambda x: z3.And(z3.Not(t.inF(x)), z3.Not(t.inE(x)))))]


class Same(Contract):
    """heuristic comparison"""
    qn = CLS + "isSameArrayElement"
    assumed = True


SPECS = [Reserve(), Release(), Count(), New(), Same()]
