"""P01: detected index patterns (SectionedIndexPattern::detectLinearSections, IndexPattern::detect, Plane2DIndexPattern).

EV(p, x) is what a linear pattern evaluates to; a map of sections denotes, at x, the section with the largest start <= x."""
import arith
from contract import *

NS = "CppAD::cg::"
ASSUME = ["index values and differences fit in 63 bits (machine integers treated as mathematical integers)",
          "a sectioned pattern means, at x, its section with the largest start <= x (as generated code implements it, property C02)",
          "a pointer value is never reused for another object"]


def SORTS(P):
    return ((NS + "LinearIndexPattern", NS + "IndexPattern", NS + "SectionedIndexPattern", NS + "Random1DIndexPattern", NS + "RandomIndexPattern", NS + "Plane2DIndexPattern", NS + "Random2DIndexPattern"),)


class Pat:
    """heap of patterns in a state"""

    def __init__(self, ex, st):
        self.ex, self.st = ex, st
        self.lip = ex.find_rec(NS + "LinearIndexPattern")
        self.xo, self.dy, self.dx, self.b = [self.g(self.lip, f) for f in ("xOffset_", "dy_", "dx_", "b_")]
        self.LIN = self.lip.id

    def g(self, cls, f):
        t, d = self.ex.field_ty(cls, f)
        return self.ex.heap_get(self.st, d, f, t)

    def ev(self, p, x):
        t = self.ex.field_ty(self.lip, "xOffset_")[0]
        return self.ex.mul(self.ex.idiv(x - self.xo[p], self.dx[p], t), self.dy[p]) + self.b[p]

    def evu(self, p, x):
        """the same for dx > 0, x >= xOffset"""
        d = arith.udiv if self.ex.opts.get("uf") else (lambda a, b: a / b)
        return self.ex.mul(d(x - self.xo[p], self.dx[p]), self.dy[p]) + self.b[p]

    def up(self, p):
        return z3.And(X.DYN(p) == self.LIN, self.dx[p] > 0, self.xo[p] >= 0)

    def evv(self, p, x):
        """the same for dx == 1, xOffset == 0"""
        return self.ex.mul(x, self.dy[p]) + self.b[p]

    def simple(self, p):
        return z3.And(X.DYN(p) == self.LIN, self.dx[p] == 1, self.xo[p] == 0)


SetI = z3.ArraySort(I, B)
LAST = z3.Function("last_start", SetI, I, I)      # the largest t in the set with 0 <= t <= x, or -1


def last_axioms():
    D, x, t = z3.Const("D", SetI), z3.Int("x"), z3.Int("t")
    F = lambda vs, b, *p: z3.ForAll(vs, b, patterns=[z3.MultiPattern(*p) if len(p) > 1 else p[0]])
    st = z3.Store(D, t, True)
    return [F([D, x], z3.Or(LAST(D, x) == -1, z3.And(D[LAST(D, x)], 0 <= LAST(D, x), LAST(D, x) <= x)), LAST(D, x)),
            F([D, x, t], z3.Implies(z3.And(D[t], 0 <= t, t <= x), t <= LAST(D, x)), LAST(D, x), D[t]),
            F([D, x, t], z3.Implies(0 <= t, LAST(st, x) == z3.If(z3.And(t <= x, t > LAST(D, x)), t, LAST(D, x))), LAST(st, x))]


class Evaluate(Contract):
    """value of a linear pattern"""
    opts = {"uf": True}
    qn = NS + "LinearIndexPattern::evaluate"

    def pre(self, c):
        P = Pat(c.ex, c.st0)
        return [P.dx[c.this.root[1]] != 0]

    def post(self, c):
        P = Pat(c.ex, c.st0)
        p, x = c.this.root[1], c.args[0]
        return [("value", c.ret == P.ev(p, x)), ("value for unit steps", imp(z3.And(P.dx[p] == 1, P.xo[p] == 0), c.ret == P.evv(p, x))), ("value for growing steps", imp(z3.And(P.dx[p] > 0, x >= P.xo[p]), c.ret == P.evu(p, x)))]


class SecV(Contract):
    """linear sections of a list"""
    axioms = last_axioms()
    opts = {"uf": True, "race": True, "houdini_ms": 8000}
    qn = NS + "SectionedIndexPattern::detectLinearSections"

    def select(self, fn):
        return fn.ptys()[0].to().rec().name == "std::vector"

    def pre(self, c):
        return [c.o(0)["len"] > 0]

    def cover(self, P, m, idx, n):
        """every x < n is reproduced by the last section starting at or before x"""
        dom, val = m["dom"], m["val"]
        return [("sections of known elements", forall(I, lambda s: imp(dom[s], z3.And(0 <= s, s < n, P.simple(val[s]))), lambda s: [dom[s]])),
                ("elements reproduced", forall(I, lambda x: imp(z3.And(0 <= x, x < n), z3.And(dom[LAST(dom, x)], P.evv(val[LAST(dom, x)], x) == idx[x])), lambda x: [idx[x]]))]

    def post(self, c):
        m = c.rv()
        P = Pat(c.ex, c.st1)
        none = forall(I, lambda s: z3.Not(m["dom"][s]), lambda s: [m["dom"][s]])
        return [(nm, z3.Or(z3.And(none, c.args[1] != 0), q)) for nm, q in self.cover(P, m, c.o(0)["el"], c.o(0)["len"])]

    def cands(self, L):
        if L.outer_generic():
            return []
        ex, c = L.ex, L.ex.ctx
        idx, n = c.o(0)["el"], c.o(0)["len"]
        out = []
        from loops import cond_roots
        cr = cond_roots(L.cond, L.fr) if L.cond is not None else set()
        ptr = lambda t: t.is_ptr
        num = lambda t: t.s in ("unsigned long", "long", "size_t")
        maps = [r for r in L.typed(lambda t: t.k == "rec", True) if isinstance(L.st0.vars[r], Tree) and set(L.st0.vars[r].f) == {"m"}]

        def inv(st, ls, xs, ps, p):
            P = Pat(ex, st)
            m = st.vars[ls]["m"]
            dom, val = m["dom"], m["val"]
            xs, ps, p = st.vars[xs], st.vars[ps], st.vars[p]
            some = p != 0
            al = lambda q: ex.allocated(st, q)
            return {
                "A1": z3.And((p == 0) == (xs == 0), 0 <= xs, xs <= n, 0 <= ps),
                "A1b": (p == 0) == z3.Not(dom[0]),
                "A2": imp(some, z3.And(dom[ps], val[ps] == p, ps < xs)),
                "A3a": forall(I, lambda s: imp(dom[s], z3.And(some, 0 <= s, s <= ps)), lambda s: [dom[s]]),
                "A3b": forall(I, lambda s: imp(dom[s], z3.And(al(val[s]), val[s] > 0)), lambda s: [dom[s]]),
                "A3c": forall(I, lambda s: imp(dom[s], P.simple(val[s])), lambda s: [dom[s]]),
                "A4": forall((I, I), lambda s, t: imp(z3.And(dom[s], dom[t], val[s] == val[t]), s == t), lambda s, t: [z3.MultiPattern(dom[s], dom[t])]),
                "B": imp(some, forall(I, lambda x: imp(z3.And(ps <= x, x < xs), P.evv(p, x) == idx[x]), lambda x: [idx[x]])),
                "C": forall(I, lambda x: imp(z3.And(p != 0, 0 <= x, x < ps), z3.And(dom[LAST(dom, x)], P.evv(val[LAST(dom, x)], x) == idx[x])), lambda x: [idx[x]]),
                "D": imp(z3.And(some, xs < n), z3.And(xs >= ps + 2, P.evv(p, xs) != idx[xs], z3.Or(P.dy[p] == 0, idx[ps] != idx[ps + 1]))),
            }
        for ls in maps:
            for xs in [r for r in L.typed(num, True) if r in cr]:
                for ps in L.typed(num, True):
                    for p in L.typed(ptr, True):
                        if xs != ps:
                            for k in inv(L.st0, ls, xs, ps, p):
                                out.append(("%s %s %s %s" % (k, xs[-1], ps[-1], p[-1]), lambda st, k=k, ls=ls, xs=xs, ps=ps, p=p: inv(st, ls, xs, ps, p)[k]))

        # taking the last elements out of the previous section
        def back(st, xs, ps, p, b):
            P, P0 = Pat(ex, st), Pat(ex, L.st0)
            x, x0, ps, p, b = st.vars[xs], L.st0.vars[xs], st.vars[ps], st.vars[p], st.vars[b]
            return {
                "b1": z3.And(ps < x, x <= x0),
                "b2": forall(I, lambda i: imp(z3.And(x <= i, i < x0), idx[i] == b), lambda i: [idx[i]]),
                "b3": forall(I, lambda i: imp(z3.And(ps <= i, i < x), P.evv(p, i) == idx[i]), lambda i: [idx[i]]),
                "b5": forall(I, lambda q: imp(q != p, z3.And(P.dy[q] == P0.dy[q], P.b[q] == P0.b[q])), lambda q: [P.dy[q]]),
                "b5b": forall(I, lambda q: imp(q != p, z3.And(P.dy[q] == P0.dy[q], P.b[q] == P0.b[q])), lambda q: [P.b[q]]),
                "b6": imp(x < x0, idx[ps] != b),
            }
        if not maps:
            for xs in L.typed(num, True):
                for ps in L.typed(num, False):
                    for p in L.typed(ptr, False):
                        for b in [r for r in L.typed(num, False) if r in cr]:
                            if b != ps:
                                for k in back(L.st0, xs, ps, p, b):
                                    out.append(("%s %s %s %s" % (k, ps[-1], p[-1], b[-1]), lambda st, k=k, xs=xs, ps=ps, p=p, b=b: back(st, xs, ps, p, b)[k]))
        return out


class SecM(Contract):
    """linear sections of a map"""
    axioms = last_axioms()
    opts = {"uf": True, "race": True, "houdini_ms": 8000}
    qn = NS + "SectionedIndexPattern::detectLinearSections"

    def select(self, fn):
        return fn.ptys()[0].to().rec().name == "std::map"

    def setup(self, c):
        m = c.o(0)
        self.F = fconst("firstkey", I)
        return [imp(exists(I, lambda x: m["dom"][x]), m["dom"][self.F]), forall(I, lambda x: imp(m["dom"][x], self.F <= x), lambda x: [m["dom"][x]])]

    def pre(self, c):
        m = c.o(0)
        return [forall(I, lambda x: imp(m["dom"][x], x >= 0), lambda x: [m["dom"][x]])]

    def cover(self, P, m, x2y):
        dom, val, K, y = m["dom"], m["val"], x2y["dom"], x2y["val"]
        return [("sections of known elements", forall(I, lambda s: imp(dom[s], z3.And(K[s], P.up(val[s]), P.xo[val[s]] <= s)), lambda s: [dom[s]])),
                ("elements reproduced", forall(I, lambda x: imp(K[x], z3.And(dom[LAST(dom, x)], P.evu(val[LAST(dom, x)], x) == y[x])), lambda x: [K[x]]))]

    def post(self, c):
        m = c.rv()
        P = Pat(c.ex, c.st1)
        none = forall(I, lambda s: z3.Not(m["dom"][s]), lambda s: [m["dom"][s]])
        return [(nm, z3.Or(z3.And(none, c.args[1] != 0), q)) for nm, q in self.cover(P, m, c.o(0))]

    def cands(self, L):
        if L.outer_generic():
            return []
        ex, c = L.ex, L.ex.ctx
        K, y = c.o(0)["dom"], c.o(0)["val"]
        out = []
        from loops import cond_roots
        cr = cond_roots(L.cond, L.fr) if L.cond is not None else set()
        ptr = lambda t: t.is_ptr
        num = lambda t: t.s in ("unsigned long", "long", "size_t")
        isit = lambda r: isinstance(L.st0.vars[r], Iter)
        maps = [r for r in L.typed(lambda t: t.k == "rec", True) if isinstance(L.st0.vars[r], Tree) and set(L.st0.vars[r].f) == {"m"}]
        its = lambda mod: [r for r in L.typed(lambda t: True, mod) if isit(r)]
        lt = lambda k, xs: z3.Or(xs.end, k < xs.pos)      # key k is before the iterator

        def inv(st, ls, xs, ps, p):
            P = Pat(ex, st)
            m = st.vars[ls]["m"]
            dom, val = m["dom"], m["val"]
            xs, ps, p = st.vars[xs], st.vars[ps], st.vars[p]
            some = p != 0
            pk = ps.pos
            al = lambda q: ex.allocated(st, q)
            return {
                "A0": z3.Or(xs.end, K[xs.pos]),
                "A1": imp(z3.Not(some), forall(I, lambda x: imp(K[x], z3.And(z3.Not(xs.end), xs.pos <= x)), lambda x: [K[x]])),
                "A1b": imp(z3.Not(some), forall(I, lambda s: z3.Not(dom[s]), lambda s: [dom[s]])),
                "A2": imp(some, z3.And(z3.Not(ps.end), K[pk], dom[pk], val[pk] == p, lt(pk, xs))),
                "A3a": forall(I, lambda s: imp(dom[s], z3.And(some, K[s], s <= pk)), lambda s: [dom[s]]),
                "A3b": forall(I, lambda s: imp(dom[s], z3.And(al(val[s]), val[s] > 0)), lambda s: [dom[s]]),
                "A3c": forall(I, lambda s: imp(dom[s], z3.And(X.DYN(val[s]) == P.LIN, P.dx[val[s]] > 0)), lambda s: [dom[s]]),
                "A3d": forall(I, lambda s: imp(dom[s], z3.And(P.xo[val[s]] >= 0, P.xo[val[s]] <= s)), lambda s: [dom[s]]),
                "A4": forall((I, I), lambda s, t: imp(z3.And(dom[s], dom[t], val[s] == val[t]), s == t), lambda s, t: [z3.MultiPattern(dom[s], dom[t])]),
                "A5": imp(some, dom[self.F]),
                "B": imp(some, forall(I, lambda x: imp(z3.And(K[x], pk <= x, lt(x, xs)), P.evu(p, x) == y[x]), lambda x: [K[x]])),
                "C": forall(I, lambda x: imp(z3.And(some, K[x], x < pk), z3.And(dom[LAST(dom, x)], P.evu(val[LAST(dom, x)], x) == y[x])), lambda x: [K[x]]),
                "D1": imp(z3.And(some, z3.Not(xs.end)), z3.And(LAST(K, xs.pos - 1) > pk, P.evu(p, xs.pos) != y[xs.pos])),
                "D2": imp(z3.And(some, z3.Not(xs.end), P.dy[p] != 0), forall(I, lambda x: imp(z3.And(K[x], pk < x, x < xs.pos), y[x] != y[pk]), lambda x: [K[x]])),
            }
        for ls in maps:
            for xs in [r for r in its(True) if r in cr]:
                for ps in its(True):
                    for p in L.typed(ptr, True):
                        if xs != ps:
                            for k in inv(L.st0, ls, xs, ps, p):
                                out.append(("%s %s %s %s" % (k, xs[-1], ps[-1], p[-1]), lambda st, k=k, ls=ls, xs=xs, ps=ps, p=p: inv(st, ls, xs, ps, p)[k]))

        # taking the last elements out of the previous section
        def back(st, xs, ps, p, b):
            P, P0 = Pat(ex, st), Pat(ex, L.st0)
            x, x0, ps, p, b = st.vars[xs], L.st0.vars[xs], st.vars[ps].pos, st.vars[p], st.vars[b]
            return {
                "b1": z3.And(z3.Not(x.end), K[x.pos], ps < x.pos, x.pos <= x0.pos),
                "b2": forall(I, lambda i: imp(z3.And(K[i], x.pos <= i, i < x0.pos), y[i] == b), lambda i: [K[i]]),
                "b3": forall(I, lambda i: imp(z3.And(K[i], ps <= i, i < x.pos), P.evu(p, i) == y[i]), lambda i: [K[i]]),
                "b5": forall(I, lambda q: imp(q != p, z3.And(P.dy[q] == P0.dy[q], P.b[q] == P0.b[q])), lambda q: [P.dy[q]]),
                "b5b": forall(I, lambda q: imp(q != p, z3.And(P.dy[q] == P0.dy[q], P.b[q] == P0.b[q])), lambda q: [P.b[q]]),
                "b6": imp(x.pos < x0.pos, y[ps] != b),
            }
        if not maps:
            for xs in [r for r in its(True) if r in cr]:
                for ps in its(False):
                    for p in L.typed(ptr, False):
                        for b in L.typed(num, False):
                            for k in back(L.st0, xs, ps, p, b):
                                out.append(("%s %s %s %s" % (k, ps[-1], p[-1], b[-1]), lambda st, k=k, xs=xs, ps=ps, p=p, b=b: back(st, xs, ps, p, b)[k]))
            # iterators that only advance
            for r in its(True):
                e = L.st0.vars[r]
                out.append(("advances %s" % (r[-1],), lambda st, r=r, e=e: z3.Or(e.end, lt(e.pos, st.vars[r]), z3.And(z3.Not(st.vars[r].end), st.vars[r].pos == e.pos))))
            # xStart follows the iterator
            for xs in [r for r in its(True) if r in cr]:
                for k in L.typed(num, True):
                    out.append(("key %s" % (k[-1],), lambda st, k=k, xs=xs: st.vars[k] == st.vars[xs].pos))
        return out


class Detect(Contract):
    """the detected pattern reproduces every index"""
    qn = NS + "IndexPattern::detect"
    axioms = last_axioms()
    opts = {"uf": True}

    def select(self, fn):
        self.kind = fn.ptys()[0].to().rec().name
        return True

    def pre(self, c):
        m = c.o(0)
        if self.kind == "std::vector":
            return [m["len"] > 0]
        return [forall(I, lambda x: imp(m["dom"][x], x >= 0), lambda x: [m["dom"][x]]), exists(I, lambda x: m["dom"][x])]

    def post(self, c):
        P = Pat(c.ex, c.st1)
        p, m = c.ret, c.o(0)
        sec = c.ex.find_rec(NS + "SectionedIndexPattern")
        rnd = c.ex.find_rec(NS + "Random1DIndexPattern")
        if self.kind == "std::vector":
            K, y = (lambda x: z3.And(0 <= x, x < m["len"])), m["el"]
        else:
            K, y = (lambda x: m["dom"][x]), m["val"]
        pat = (lambda x: [y[x]]) if self.kind == "std::vector" else (lambda x: [m["dom"][x]])
        F = lambda g: forall(I, lambda x: imp(K(x), g(x)), pat)
        d, v = [P.g(sec, "sections_").with_ if False else P.g(sec, "sections_")[k] for k in ("dom", "val")]
        rd, rv = [P.g(rnd, "indexes_")[k] for k in ("dom", "val")]
        value = lambda q, x: P.evu(q, x)
        return [("kind of pattern", z3.Or([X.DYN(p) == r.id for r in (P.lip, sec, rnd)])),
                ("linear pattern", imp(X.DYN(p) == P.LIN, z3.And(P.dx[p] > 0, P.xo[p] >= 0, F(lambda x: value(p, x) == y[x])))),
                ("sections", imp(X.DYN(p) == sec.id, F(lambda x: z3.And(d[p][LAST(d[p], x)], P.up(v[p][LAST(d[p], x)]), value(v[p][LAST(d[p], x)], x) == y[x])))),
                ("table", imp(X.DYN(p) == rnd.id, F(lambda x: z3.And(rd[p][x], rv[p][x] == y[x]))))]

    def cands(self, L):
        ex, m = L.ex, L.ex.ctx.o(0)
        th = getattr(L.fr, "this", None)
        if self.kind != "std::vector" or th is None or th.root[0] != "h":
            return []
        p = th.root[1]
        rnd = ex.find_rec(NS + "Random1DIndexPattern")

        def done(st, i):
            t = Pat(ex, st).g(rnd, "indexes_")
            return forall(I, lambda x: imp(z3.And(0 <= x, x < st.vars[i]), z3.And(t["dom"][p][x], t["val"][p][x] == m["el"][x])), lambda x: [m["el"][x]])
        return [("table so far %s" % (i[-1],), lambda st, i=i: done(st, i)) for i in L.ints()]


SPECS = [Evaluate(), SecV(), SecM(), Detect()]
