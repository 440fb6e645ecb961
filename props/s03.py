"""S03: element selection (CustomPosition)."""
from contract import *

NS = "CppAD::cg::CustomPosition::"


def dom(v, i, k):
    return z3.Select(z3.Select(v["el"]["dom"], i), k)


def flt(f, i, j):
    """elFilter_[i][j]"""
    return sel(f["el"]["el"], i, j)


def shape(f, m, n):
    return z3.And(f["len"] == m, forall(I, lambda i: imp(inr(i, m), sel(f["el"]["len"], i) == n)))


class Default(Contract):
    """no selection"""
    qn = NS + "CustomPosition"

    def select(self, fn):
        return len(fn.params) == 0

    def post(self, c):
        return [("no filter defined", z3.Not(c.tn("filterDefined_"))), ("no full list defined", z3.Not(c.tn("fullDefined_")))]


class ByIndex(Contract):
    """selection by index lists"""
    qn = NS + "CustomPosition"

    def select(self, fn):
        return len(fn.params) == 4

    def pre(self, c):
        m, n, r, k = (c.o(x) for x in range(4))
        return [r["len"] == k["len"], forall(I, lambda e: imp(inr(e, r["len"]), z3.And(inr(sel(r["el"], e), m), inr(sel(k["el"], e), n))))]

    def post(self, c):
        m, n, r, k = (c.o(x) for x in range(4))
        f = c.tn("elFilter_")
        return [("filter defined", z3.And(c.tn("filterDefined_"), z3.Not(c.tn("fullDefined_")))), ("m x n selection", shape(f, m, n)),
                ("selected iff listed", forall([I, I], lambda i, j: imp(z3.And(inr(i, m), inr(j, n)), flt(f, i, j) ==
                    exists(I, lambda e: z3.And(inr(e, r["len"]), sel(r["el"], e) == i, sel(k["el"], e) == j)))))]


class BySet(Contract):
    """selection by sets"""
    qn = NS + "CustomPosition"

    def select(self, fn):
        return len(fn.params) == 3

    def pre(self, c):
        m, n, s = (c.o(x) for x in range(3))
        return [s["len"] <= m, forall([I, I], lambda i, j: imp(z3.And(inr(i, s["len"]), dom(s, i, j)), inr(j, n)))]

    def post(self, c):
        m, n, s = (c.o(x) for x in range(3))
        f = c.tn("elFilter_")
        return [("filter defined", z3.And(c.tn("filterDefined_"), z3.Not(c.tn("fullDefined_")))), ("m x n selection", shape(f, m, n)),
                ("selected iff in the given sets", forall([I, I], lambda i, j: imp(z3.And(inr(i, m), inr(j, n)), flt(f, i, j) == z3.And(inr(i, s["len"]), dom(s, i, j)))))]


def fits(c, s):
    f = c.to("elFilter_")
    return imp(c.to("filterDefined_"), z3.And(s["len"] <= f["len"], forall([I, I], lambda i, j: imp(z3.And(inr(i, s["len"]), dom(s, i, j)), inr(j, sel(f["el"]["len"], i))))))


def filtered(c, old, new):
    f = c.to("elFilter_")
    fd = c.to("filterDefined_")
    return [("number of rows kept", new["len"] == old["len"]),
            ("kept iff it was there and is selected", forall([I, I], lambda i, j: imp(inr(i, old["len"]), dom(new, i, j) == z3.And(dom(old, i, j), z3.Or(z3.Not(fd), flt(f, i, j))))))]


class Filter(Contract):
    """filter a pattern"""
    qn = NS + "filter"
    modifies = (0,)

    def select(self, fn):
        t = fn.ptys()[0].deref()
        return t.rec().name != "CppAD::cg::ArrayView"

    def pre(self, c):
        return [fits(c, c.o(0))]

    def post(self, c):
        return filtered(c, c.o(0), c.n(0))


class Full(Contract):
    """list of all elements kept for generation"""
    qn = NS + "setFullElements"

    def pre(self, c):
        return [fits(c, c.o(0))]

    def post(self, c):
        return [("full list defined", c.tn("fullDefined_"))] + filtered(c, c.o(0), c.tn("elements_"))


class Getters(Contract):
    """accessors return the stored state"""
    qn = [NS + "isFilterDefined", NS + "isFullDefined"]

    def post(self, c):
        f = "filterDefined_" if c.fn.name == "isFilterDefined" else "fullDefined_"
        return [("returns the flag", c.rv() == c.to(f)), ("state unchanged", z3.And(c.tn("filterDefined_") == c.to("filterDefined_"), c.tn("fullDefined_") == c.to("fullDefined_")))]


SPECS = [Default(), ByIndex(), BySet(), Filter(), Full(), Getters()]
