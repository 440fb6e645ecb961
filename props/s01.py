"""S01: sparsity-pattern algebra (util.hpp)."""
from contract import *

NS = "CppAD::cg::"


def dom(v, i, k):
    """k in v[i] for a vector of sets"""
    return z3.Select(z3.Select(v["el"]["dom"], i), k)


def np(n):
    return lambda self_, fn: len(fn.params) == n


class C(Contract):
    nparams = None

    def select(self, fn):
        return self.nparams is None or len(fn.params) == self.nparams


def cols_lt(p, m, n):
    """every column index stored in the first m rows is < n"""
    return forall([I, I], lambda i, j: imp(z3.And(inr(i, m), dom(p, i, j)), inr(j, n)))


def added(new, old, cells):
    """new[i] = old[i] + {j | cells(i,j)} for every row, and the number of rows is unchanged"""
    return [("number of rows kept", new["len"] == old["len"]),
            ("exactly the specified positions added", forall([I, I], lambda i, j: imp(inr(i, new["len"]), dom(new, i, j) == z3.Or(dom(old, i, j), cells(i, j)))))]


class IsIdentity(C):
    qn = NS + "isIdentityPattern"

    def pre(self, c):
        return [c.o(0)["len"] >= c.o(1)]

    def post(self, c):
        p, m = c.o(0), c.o(1)
        return [("true iff the pattern is the identity", c.rv() == forall([I, I], lambda i, j: imp(inr(i, m), dom(p, i, j) == (j == i))))]


class Transpose(C):
    qn = NS + "transposePattern"

    def pre(self, c):
        p, m = c.o(0), c.o(1)
        return [p["len"] >= m, cols_lt(p, m, c.o(2))]

    def post(self, c):
        p, m, n, r = c.o(0), c.o(1), c.o(2), c.rv()
        return [("number of rows", r["len"] == n),
                ("(j,i) in result iff (i,j) in pattern", forall([I, I], lambda i, j: imp(inr(j, n), dom(r, j, i) == z3.And(inr(i, m), dom(p, i, j)))))]


class AddTrans(C):
    qn = NS + "addTransMatrixSparsity"
    nparams = 3
    modifies = (2,)

    def pre(self, c):
        a, m, r = c.o(0), c.o(1), c.o(2)
        return [a["len"] >= m, cols_lt(a, m, r["len"])]

    def post(self, c):
        a, m = c.o(0), c.o(1)
        return added(c.n(2), c.o(2), lambda i, j: z3.And(inr(j, m), dom(a, j, i)))


class AddTrans2(C):
    qn = NS + "addTransMatrixSparsity"
    nparams = 2
    modifies = (1,)

    def pre(self, c):
        return [cols_lt(c.o(0), c.o(0)["len"], c.o(1)["len"])]

    def post(self, c):
        a = c.o(0)
        return added(c.n(1), c.o(1), lambda i, j: z3.And(inr(j, a["len"]), dom(a, j, i)))


class Add(C):
    qn = NS + "addMatrixSparsity"
    nparams = 3
    modifies = (2,)

    def pre(self, c):
        return [c.o(2)["len"] >= c.o(1), c.o(0)["len"] >= c.o(1)]

    def post(self, c):
        a, m = c.o(0), c.o(1)
        return added(c.n(2), c.o(2), lambda i, j: z3.And(inr(i, m), dom(a, i, j)))


class Add2(C):
    qn = NS + "addMatrixSparsity"
    nparams = 2
    modifies = (1,)

    def pre(self, c):
        return [c.o(1)["len"] == c.o(0)["len"]]

    def post(self, c):
        a = c.o(0)
        return added(c.n(1), c.o(1), lambda i, j: z3.And(inr(i, a["len"]), dom(a, i, j)))


class Mult(C):
    """R += A*B"""
    qn = NS + "multMatrixMatrixSparsity"
    nparams = 6
    modifies = (2,)

    def dims(self, c):
        return c.o(3), c.o(4), c.o(5)

    def pre(self, c):
        a, b, r = c.o(0), c.o(1), c.o(2)
        m, n, q = self.dims(c)
        return [a["len"] >= m, b["len"] >= n, r["len"] >= m, cols_lt(a, m, n), cols_lt(b, n, q)]

    def post(self, c):
        a, b = c.o(0), c.o(1)
        m, n, q = self.dims(c)
        return added(c.n(2), c.o(2), lambda i, j: z3.And(inr(i, m), exists(I, lambda k: z3.And(inr(k, n), dom(a, i, k), dom(b, k, j)))))


class MultTrans(C):
    """R += A^T*B; A is m x n, B is m x q"""
    qn = NS + "multMatrixTransMatrixSparsity"
    modifies = (2,)

    def pre(self, c):
        a, b, r = c.o(0), c.o(1), c.o(2)
        m, n, q = c.o(3), c.o(4), c.o(5)
        return [a["len"] >= m, b["len"] >= m, r["len"] >= n, cols_lt(a, m, n), cols_lt(b, m, q)]

    def post(self, c):
        a, b = c.o(0), c.o(1)
        m, n, q = c.o(3), c.o(4), c.o(5)
        return added(c.n(2), c.o(2), lambda i, j: exists(I, lambda k: z3.And(inr(k, m), dom(a, k, i), dom(b, k, j))))


class MultT(C):
    """R^T += (A*B)^T, given A^T (m x q) and B (m x n); R^T is n x q"""
    qn = NS + "multMatrixMatrixSparsityTrans"
    modifies = (2,)

    def pre(self, c):
        a, b, r = c.o(0), c.o(1), c.o(2)
        m, n, q = c.o(3), c.o(4), c.o(5)
        return [a["len"] >= m, b["len"] >= m, r["len"] >= n, cols_lt(a, m, q), cols_lt(b, m, n)]

    def post(self, c):
        a, b = c.o(0), c.o(1)
        m, n, q = c.o(3), c.o(4), c.o(5)
        return added(c.n(2), c.o(2), lambda j, i: exists(I, lambda k: z3.And(inr(k, m), dom(a, k, i), dom(b, k, j))))


class Intersects(C):
    qn = NS + "intersects"

    def post(self, c):
        a, b = c.o(0)["dom"], c.o(1)["dom"]
        return [("true iff the sets share an element", c.rv() == exists(I, lambda k: z3.And(z3.Select(a, k), z3.Select(b, k))))]


SPECS = [IsIdentity(), Transpose(), AddTrans(), AddTrans2(), Add(), Add2(), Mult(), MultTrans(), MultT(), Intersects()]
