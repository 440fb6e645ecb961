"""E02: evaluation of recorded operations with new values (EvaluatorBase/EvaluatorOperations<double, double, double>).

Ghost: D(node) is the value of a recorded node for the new independents, defined for the nodes of the graph (MAN) from the
operation code and the recorded operands; the evaluator's cache holds D(NODEAT(k)) at every filled position k."""
from contract import *
import stl
import e01
import v01
from c01 import Nodes, argpos, nodeptr, codes

NS = "CppAD::cg::"
EB = NS + "EvaluatorBase<double, double, double, Ev>::"
EO = NS + "EvaluatorOperations<double, double, double, Ev>::"
EXTRACT_ARGS = ["--repo", "/usr/include/cppad"]
D = z3.Function("D", I, R)
MAN = z3.Function("managed", I, B)       # nodes of the evaluated graph
RANK = z3.Function("rank", I, I)         # the graph is acyclic
NODEAT = z3.Function("nodeAt", I, I)     # node at a position of the handler
NPOS = z3.Int("managedNodes")            # number of nodes of the handler
INDEP = z3.Function("indepNew", I, R)    # new independent values
NIND = z3.Int("independentSize")
IDX = z3.Function("independentIndex", I, I)
H = z3.Int("handler")
ARITY = {"Add": 2, "Sub": 2, "Mul": 2, "Div": 2, "Pow": 2}
for _k in e01.COM:
    ARITY[_k] = 4
ASSUME = ["nodes of the graph are created by CodeHandler::makeNode and registered with the handler at distinct positions (property H01)",
          "recorded operations have the number of operands of their operation code (E01), operands are older nodes of the same handler (acyclic)",
          "arrays, atomic functions and loops are outside these contracts (harness)"]
SUPPORTED = {"Assign", "Abs", "Acos", "Add", "Alias", "Asin", "Atan", "ComLt", "ComLe", "ComEq", "ComGe", "ComGt", "ComNe", "Cosh", "Cos", "Div", "Exp", "Inv", "Log", "Mul", "Pow", "Sign",
             "Sinh", "Sin", "Sqrt", "Sub", "Tanh", "Tan", "UnMinus"}
OPS = SUPPORTED | {"Erf", "Erfc", "Asinh", "Acosh", "Atanh", "Expm1", "Log1p"}


def SORTS(P):
    return ((NS + "OperationNode", NS + "CodeHandler"),)


def VAL(N, p, i):
    return z3.If(N.a(p, i) == 0, N.v(p, i), D(N.a(p, i)))


class G(Nodes):
    """the recorded graph, as stored in the nodes"""

    def __init__(self, c):
        Nodes.__init__(self, c)
        ex = c.ex
        on = ex.find_rec(NS + "OperationNode")
        g = lambda f: ex.heap_get(c.st0, ex.field_ty(on, f)[1], f, ex.field_ty(on, f)[0])
        self.pos, self.handler = g("pos_"), g("handler_")

    def isop1(self, p):
        return z3.Or([self.op[p] == self.C[n] for n in sorted(OPS) if n in self.C and n not in ARITY and n != "Inv"])

    def wf(self):
        """the graph is well formed and D is its meaning"""
        def node(p):
            i = z3.Int("i!arg")
            arg = z3.ForAll([i], imp(inr(i, self.nargs(p)), z3.And(z3.Or(self.a(p, i) == 0, z3.And(MAN(self.a(p, i)), RANK(self.a(p, i)) < RANK(p))), (self.a(p, i) == 0) == self.has2(p, i))),
                            patterns=[self.a(p, i)])
            return imp(MAN(p), z3.And([p > 0, self.handler[p] == H, inr(self.pos[p], NPOS), NODEAT(self.pos[p]) == p, arg, imp(self.isop1(p), self.nargs(p) == 1)]
                                      + [imp(z3.Or([self.op[p] == self.C[k] for k in ARITY if ARITY[k] == n]), self.nargs(p) == n) for n in (2, 4)]
                                      + [imp(self.op[p] == self.C["Inv"], z3.And(inr(IDX(p), NIND), D(p) == INDEP(IDX(p)))),
                                         imp(z3.Or([self.op[p] == self.C[k] for k in sorted(OPS) if k in self.C and k != "Inv"]), D(p) == e01.meaning(self.C, self.op[p], lambda i: VAL(self, p, i)))]))
        return [forall(I, node, lambda p: [MAN(p)]), NPOS >= 0, NPOS < 2 ** 64 - 1, NIND >= 0, H > 0]

    def has2(self, p, i):
        return sel(self.args["el"]["parameter_"]["has"], p, i)


def thisv(c, st, f):
    return c._this(st, (f,))


GOOD = z3.Function("evaluable", I, B)    # the node and everything below it can be evaluated


def good(N):
    """evaluable nodes have supported operation codes and evaluable operands"""
    def node(p):
        i = z3.Int("i!arg")
        return imp(GOOD(p), z3.And(N.isop(p, sorted(SUPPORTED)), z3.ForAll([i], imp(z3.And(inr(i, N.nargs(p)), N.a(p, i) != 0), GOOD(N.a(p, i))), patterns=[N.a(p, i)])))
    return forall(I, node, lambda p: [GOOD(p)])


FIELDS = (("evals_", "data_"), ("evalsArrays_",), ("evalsSparseArrays_",), ("depth_",), ("path_",))


class E(Contract):
    throws_ok = True
    axioms = e01.AX
    onthis = True

    def setup(self, c):
        N = G(c)
        ex = c.ex
        ch = ex.find_rec(NS + "CodeHandler")
        g = lambda f: ex.heap_get(c.st0, ex.field_ty(ch, f)[1], f, ex.field_ty(ch, f)[0])
        cb, iv = g("_codeBlocks"), g("_independentVariables")
        return N.wf() + [good(N), sel(cb["len"], H) == NPOS, sel(iv["len"], H) == NIND,
                         forall(I, lambda p: imp(z3.And(MAN(p), N.op[p] == N.C["Inv"]), z3.And(inr(IDX(p), NIND), sel(iv["el"], H, IDX(p)) == p)), lambda p: [IDX(p)]),
                         forall((I, I), lambda i, j: imp(z3.And(inr(i, NIND), inr(j, NIND), sel(iv["el"], H, i) == sel(iv["el"], H, j)), i == j), lambda i, j: [z3.MultiPattern(sel(iv["el"], H, i), sel(iv["el"], H, j))])]

    def make_this_st(self, ex, st, fn):
        t = [t for t in ex.prog.types if t.k == "rec" and t.j["r"] == fn.cls.id][0]
        v = ex.sorts.fresh(t, "this")
        root = ("t", fresh_id())
        st.vars[root] = Tree("vec", None, {"len": NIND, "el": z3.Const("indepNew.el", z3.ArraySort(I, R))})
        v = v.withk("handler_", Ref(("h", H, ex.find_rec(NS + "CodeHandler"))))
        return v.withk("indep_", Ref(root).i(z3.IntVal(0)))

    def frame(self, c):
        out = []
        for path in FIELDS:
            r, cls, ty = c.this, c.fn.cls, None
            for f in path:
                ty = c.ex.field_ty(cls, f)[0]
                r = r.f(f, cls)
                cls = ty.rec() if ty.k == "rec" else None
            out.append((r, ty))
        return out

    # -- the cache
    def cache(self, c, st):
        t = c.ex.read(st, c.this)
        return t["evals_"]["data_"]

    def inv(self, c, st):
        """the cache belongs to this handler and holds values of the nodes"""
        t = c.ex.read(st, c.this)
        d = t["evals_"]["data_"]
        out = [("cache of this handler", t["evals_"]["handler_"] == H), ("cache size", d["len"] == NPOS),
               ("cached values are the values of their nodes", forall(I, lambda k: imp(z3.And(inr(k, NPOS), sel(d["el"]["has"], k)), sel(d["el"]["val"], k) == D(NODEAT(k))), lambda k: [NODEAT(k)]))]
        ip = t["indep_"]
        if not isinstance(ip, Ref) or ip.acc[-1][0] != "i":
            raise Unsupported("independent values %r" % (ip,))
        b = c.ex.read(st, Ref(ip.root, ip.acc[:-1]))
        out.append(("independent values", z3.And(ip.acc[-1][1] + NIND <= b["len"], forall(I, lambda k: imp(inr(k, NIND), sel(b["el"], ip.acc[-1][1] + k) == INDEP(k)), lambda k: [INDEP(k)]))))
        return out

    def node(self, c):
        return nodeptr(c.args[0])

    def limit(self, c, N):
        """rank of the nodes that may be evaluated"""
        return RANK(self.node(c)) - 1

    def step(self, c):
        """what the evaluation of some nodes does to the evaluator"""
        N = G(c)
        a, b = self.cache(c, c.st0), self.cache(c, c.st1)
        t0, t1 = c.ex.read(c.st0, c.this), c.ex.read(c.st1, c.this)
        return self.inv(c, c.st1) + [
            ("evaluated nodes stay evaluated", forall(I, lambda k: imp(z3.And(inr(k, NPOS), sel(a["el"]["has"], k)), sel(b["el"]["has"], k)), lambda k: [sel(a["el"]["has"], k)])),
            ("only operands are evaluated", forall(I, lambda k: imp(z3.And(inr(k, NPOS), sel(b["el"]["has"], k), z3.Not(sel(a["el"]["has"], k))), RANK(NODEAT(k)) <= self.limit(c, N)), lambda k: [NODEAT(k)])),
            ("depth and path restored", z3.And(t0["depth_"] == t1["depth_"], t0["path_"]["len"] == t1["path_"]["len"]))]

    def pre(self, c):
        t = c.ex.read(c.st0, c.this)
        p = self.node(c)
        return [("node of the graph", MAN(p))] + self.inv(c, c.st0) + [("being evaluated", t["path_"]["len"] > 0), ("not yet evaluated", z3.Not(sel(self.cache(c, c.st0)["el"]["has"], G(c).pos[p])))] + self.more(c)

    def more(self, c):
        return []

    def value(self, c):
        return D(self.node(c))

    def isgood(self, c):
        return GOOD(self.node(c))

    def rval(self, c):
        return c.rv()

    def post(self, c):
        return [("value of the recorded operation", self.rval(c) == self.value(c))] + self.step(c)

    def post_throw(self, c):
        return [("evaluation fails only for unsupported operations", z3.Not(self.isgood(c)))]


class ArgV(E):
    """operand of a node, by position"""
    qn = EB + "evalArg"

    def select(self, fn):
        return fn.ptys()[0].to().rec().name == "std::vector"

    def make_arg(self, ex, st, fn, n, t):
        if n == 0:
            on = ex.find_rec(NS + "OperationNode")
            return Ref(("h", z3.Int("node"), on)).f("arguments_", on)
        return z3.Int("pos")

    def operand(self, c):
        r = c.args[0]
        if r.root[0] == "h" and len(r.acc) == 1 and r.acc[0][1] == "arguments_":
            return r.root[1], c.args[1]
        raise Unsupported("operands %r" % (r,))

    def node(self, c):
        return self.operand(c)[0]

    def pre(self, c):
        p, i = self.operand(c)
        return E.pre(self, c) + [("operand exists", inr(i, G(c).nargs(p)))]

    def value(self, c):
        p, i = self.operand(c)
        return VAL(G(c), p, i)

    def isgood(self, c):
        p, i = self.operand(c)
        a = G(c).a(p, i)
        return z3.Or(a == 0, GOOD(a))


class ArgG(ArgV):
    """operand of a node"""

    def select(self, fn):
        return fn.ptys()[0].to().rec().name == NS + "Argument"

    def make_arg(self, ex, st, fn, n, t):
        if n == 0:
            on = ex.find_rec(NS + "OperationNode")
            return Ref(("h", z3.Int("node"), on)).f("arguments_", on).i(z3.Int("pos"))
        return None

    def operand(self, c):
        return argpos(c.args[0])


class Operation(E):
    """evaluation of one kind of operation"""

    def more(self, c):
        N, p = G(c), self.node(c)
        return [("operation code", N.op[p] == N.C[self.code])]


def opclass(code, fname):
    return type("Eval" + code, (Operation,), {"qn": [EO + fname], "code": code, "__doc__": "evaluation of " + code})


EVAL = {"Assign": "evalAssign", "Abs": "evalAbs", "Acos": "evalAcos", "Add": "evalAdd", "Alias": "evalAlias", "Asin": "evalAsin", "Atan": "evalAtan", "ComLt": "evalCompareLt", "ComLe": "evalCompareLe",
        "ComEq": "evalCompareEq", "ComGe": "evalCompareGe", "ComGt": "evalCompareGt", "ComNe": "evalCompareNe", "Cosh": "evalCosh", "Cos": "evalCos", "Div": "evalDiv", "Exp": "evalExp", "Inv": "evalIndependent",
        "Log": "evalLog", "Mul": "evalMul", "Pow": "evalPow", "Sign": "evalSign", "Sinh": "evalSinh", "Sin": "evalSin", "Sqrt": "evalSqrt", "Sub": "evalSub", "Tanh": "evalTanh", "Tan": "evalTan",
        "UnMinus": "evalMinus"}


class Dispatch(E):
    """choice of the operation"""
    qn = EO + "evalOperation"
    cost = 70
    opts = {"merge": True}


class Unsupp(E):
    """other operations are rejected"""
    qn = [EO + "evalPrint", EO + "evalUnsupportedOperation"]

    def pre(self, c):
        return [z3.Not(G(c).isop(self.node(c), sorted(SUPPORTED)))]

    def frame(self, c):
        return []

    def post(self, c):
        return [("does not return", z3.BoolVal(False))]


class Element(E):
    """element of the result array of an atomic function"""
    assumed = True
    qn = EO + "evalArrayElement"

    def post_throw(self, c):
        return [z3.Not(G(c).isop(self.node(c), sorted(SUPPORTED)))]


class Index(E):
    """position of an independent"""
    qn = NS + "CodeHandler<double>::getIndependentVariableIndex"
    throws_ok = False

    def make_this_st(self, ex, st, fn):
        raise Unsupported("heap object")

    def frame(self, c):
        return []

    def setup(self, c):
        return E.setup(self, c) + [self.h(c) == H]

    def h(self, c):
        return c.this.root[1]

    def pre(self, c):
        N, p = G(c), self.node(c)
        return [MAN(p), N.op[p] == N.C["Inv"], self.h(c) == H]

    def post(self, c):
        return [("position of the independent", c.ret == IDX(self.node(c)))]


class Memo(E):
    """evaluation of a node, once"""
    qn = EB + "evalOperations"

    def limit(self, c, N):
        return RANK(self.node(c))

    def pre(self, c):
        return [("node of the graph", MAN(self.node(c)))] + self.inv(c, c.st0)


class Scalar(Memo):
    """evaluation of a dependent"""
    qn = EB + "evalCG"

    def node(self, c):
        return c.o(0)["node_"]

    def pre(self, c):
        o = c.o(0)
        return [("dependent of the graph", z3.If(self.node(c) == 0, o["value_"]["has"], MAN(self.node(c))))] + self.inv(c, c.st0)

    def value(self, c):
        return z3.If(self.node(c) == 0, c.o(0)["value_"]["val"], D(self.node(c)))

    def limit(self, c, N):
        return RANK(self.node(c))

    def isgood(self, c):
        return z3.Or(self.node(c) == 0, GOOD(self.node(c)))


def at(ref, i):
    return z3.simplify(ref.acc[-1][1] + i)


def depval(c, st, ref, i):
    """value of element i of the dependents at ref"""
    v = c.ex.read(st, Ref(ref.root, ref.acc[:-1]))["el"]
    j = at(ref, i)
    n = sel(v["node_"], j)
    return n, sel(v["value_"]["has"], j), z3.If(n == 0, sel(v["value_"]["val"], j), D(n))


class Evaluate(E):
    """evaluation of all dependents"""
    cost = 10
    qn = EB + "evaluate"

    def select(self, fn):
        return len(fn.params) == 5

    def make_this_st(self, ex, st, fn):
        return E.make_this_st(self, ex, st, fn).withk("indep_", z3.Int("indep0"))

    def arrays(self, c):
        return c.args[0], c.args[2], c.args[3]

    def frame(self, c):
        out = E.frame(self, c)
        dep = c.args[2]
        r = Ref(dep.root, dep.acc[:-1])
        return out + [(c.this.f("underEval_", c.fn.cls), c.ex.field_ty(c.fn.cls, "underEval_")[0])]

    def pre(self, c):
        x, y, d = self.arrays(c)
        t = c.ex.read(c.st0, c.this)
        vx, vy, vd = [c.ex.read(c.st0, Ref(r.root, r.acc[:-1])) for r in (x, y, d)]
        n, m = c.args[1], c.args[4]

        def dep(i):
            p, has, val = depval(c, c.st0, d, i)
            return imp(inr(i, m), z3.If(p == 0, has, MAN(p)))
        return [("handler", t["evals_"]["handler_"] == H), ("arrays", z3.And(x.acc[-1][1] + n <= vx["len"], y.acc[-1][1] + m <= vy["len"], d.acc[-1][1] + m <= vd["len"], n >= 0, m >= 0)),
                ("dependents of the graph", forall(I, dep, lambda i: [sel(vd["el"]["node_"], at(d, i))])),
                ("new independent values", forall(I, lambda k: imp(inr(k, NIND), sel(vx["el"], at(x, k)) == INDEP(k)), lambda k: [INDEP(k)]))]

    def done(self, c, st, n):
        x, y, d = self.arrays(c)
        vy = c.ex.read(st, Ref(y.root, y.acc[:-1]))
        return forall(I, lambda i: imp(inr(i, n), sel(vy["el"], at(y, i)) == depval(c, c.st0, d, i)[2]), lambda i: [sel(vy["el"], at(y, i))])

    def post(self, c):
        x, y, d = self.arrays(c)
        t0, t = c.ex.read(c.st0, c.this), c.ex.read(c.st1, c.this)
        return [("number of independents checked", c.args[1] == NIND), ("not used while evaluating", z3.Not(t0["underEval_"])), ("ready for another evaluation", z3.Not(t["underEval_"])),
                ("every dependent has its value", self.done(c, c.st1, c.args[4]))]

    def post_throw(self, c):
        x, y, d = self.arrays(c)
        t0, t = c.ex.read(c.st0, c.this), c.ex.read(c.st1, c.this)
        bad = z3.Not(forall(I, lambda i: imp(z3.And(inr(i, c.args[4]), depval(c, c.st0, d, i)[0] != 0), GOOD(depval(c, c.st0, d, i)[0])), lambda i: [depval(c, c.st0, d, i)[0]]))
        return [("fails only for a wrong size, an evaluator in use or unsupported operations", z3.Or(c.args[1] != NIND, t0["underEval_"], bad)),
                ("ready for another evaluation", t["underEval_"] == t0["underEval_"])]

    def cands(self, L):
        c = L.ex.ctx
        out = []
        if not L.is_mod(c.args[2].root) or not isinstance(c.ex.read(L.st0, c.this)["indep_"], Ref):
            return out
        for nm, p in named(self.inv(c, L.st0), "inv"):
            out.append((nm, lambda st, nm=nm: dict(named(self.inv(c, st), "inv"))[nm]))
        for r, v in L.st0.vars.items():
            if isz(v) and v.sort() == I and r[0] == "v" and L.is_mod(r):
                out.append(("dependents done up to %s" % (r,), lambda st, r=r: self.done(c, st, st.vars[r])))
        out.append(("depth", lambda st: c.ex.read(st, c.this)["depth_"] == 0))
        out.append(("in use", lambda st: c.ex.read(st, c.this)["underEval_"]))
        return out


class EvaluateViews(Evaluate):
    """evaluation of all dependents, given as array views"""

    def select(self, fn):
        return len(fn.params) == 3

    def make_arg(self, ex, st, fn, n, t):
        v, _, _, _ = v01.mkview(ex, st, t.deref(), "xyd"[n])
        return v

    def setup(self, c):
        return Evaluate.setup(self, c) + [z3.And(a["_data"].acc[-1][1] >= 0, a["_length"] >= 0) for a in c.args]

    def wrap(self, c, f):
        x, y, d = c.args
        k = Ctx(c.ex, c.fn, [x["_data"], x["_length"], y["_data"], d["_data"], d["_length"]], c.this, c.st0)
        k.st1, k.ret = c.st1, c.ret
        return f(self, k)

    def size(self, c):
        return c.args[1]["_length"] == c.args[2]["_length"]

    def pre(self, c):
        y, d = c.args[1], c.args[2]
        v = c.ex.read(c.st0, Ref(y["_data"].root, y["_data"].acc[:-1]))
        return [("output array", y["_data"].acc[-1][1] + y["_length"] <= v["len"])] + [(n, q if n != "arrays" else imp(self.size(c), q)) for n, q in self.wrap(c, Evaluate.pre)]

    def post(self, c):
        return [("sizes of the dependents checked", self.size(c))] + self.wrap(c, Evaluate.post)

    def post_throw(self, c):
        (n1, q1), (n2, q2) = self.wrap(c, Evaluate.post_throw)
        return [(n1, z3.Or(z3.Not(self.size(c)), q1)), (n2, q2)]


class EvaluateNew(Evaluate):
    """evaluation of all dependents into a new vector"""

    def select(self, fn):
        return len(fn.params) == 2

    def make_arg(self, ex, st, fn, n, t):
        return v01.mkview(ex, st, t.deref(), "xd"[n])[0]

    def setup(self, c):
        return Evaluate.setup(self, c) + [z3.And(a["_data"].acc[-1][1] >= 0, a["_length"] >= 0) for a in c.args]

    def pre(self, c):
        x, d = c.args
        st = c.st0.copy()
        r = ("t", fresh_id())
        st.vars[r] = Tree("vec", None, {"len": d["_length"], "el": z3.K(I, z3.RealVal(0))})
        k = Ctx(c.ex, c.fn, [x["_data"], x["_length"], Ref(r).i(z3.IntVal(0)), d["_data"], d["_length"]], c.this, st)
        return Evaluate.pre(self, k)

    def bad(self, c):
        x, d = c.args
        return z3.Or(x["_length"] != NIND, c.ex.read(c.st0, c.this)["underEval_"], z3.Not(forall(I, lambda i: imp(z3.And(inr(i, d["_length"]), depval(c, c.st0, d["_data"], i)[0] != 0), GOOD(depval(c, c.st0, d["_data"], i)[0])), lambda i: [depval(c, c.st0, d["_data"], i)[0]])))

    def post(self, c):
        x, d = c.args
        v = c.rv()
        return [("number of independents checked", x["_length"] == NIND), ("number of results", v["len"] == d["_length"]),
                ("every dependent has its value", forall(I, lambda i: imp(inr(i, v["len"]), sel(v["el"], i) == depval(c, c.st0, d["_data"], i)[2]), lambda i: [sel(v["el"], i)]))]

    def post_throw(self, c):
        return [("fails only for a wrong size, an evaluator in use or unsupported operations", self.bad(c))]


class ProcessArray(Contract):
    """known values of an evaluated array"""
    qn = NS + "EvaluatorCG<double, double, Eg>::processArray"
    modifies = (1, 2, 3)

    def el(self, c, i):
        v = c.o(0)["el"]
        n = sel(v["node_"], i)
        return n, sel(v["value_"]["has"], i), sel(v["value_"]["val"], i)

    def pre(self, c):
        return [forall(I, lambda i: imp(inr(i, c.o(0)["len"]), z3.Or(self.el(c, i)[0] != 0, self.el(c, i)[1])), lambda i: [self.el(c, i)[0]])]

    def facts(self, c, st, n):
        """after n elements"""
        v = c.val(st, 1)
        d, p = c.val(st, 2), c.val(st, 3)
        return [("values", forall(I, lambda i: imp(inr(i, n), z3.And(self.el(c, i)[1], sel(v["el"], i) == self.el(c, i)[2])), lambda i: [sel(v["el"], i)])),
                ("constants only when all are", imp(p, z3.And(c.o(3), forall(I, lambda i: imp(inr(i, n), self.el(c, i)[0] == 0), lambda i: [self.el(c, i)[0]])))),
                ("constants when all are", imp(z3.And(c.o(3), forall(I, lambda i: imp(inr(i, n), self.el(c, i)[0] == 0), lambda i: [self.el(c, i)[0]])), p)),
                ("known", d == c.o(2)), ("size", v["len"] == c.o(0)["len"])]

    def post(self, c):
        n = c.o(0)["len"]
        allhas = forall(I, lambda i: imp(inr(i, n), self.el(c, i)[1]), lambda i: [self.el(c, i)[1]])
        F = dict(self.facts(c, c.st1, n))
        return [("known only when every element is", c.n(2) == z3.And(c.o(2), allhas)), ("size", F["size"]), ("values", imp(allhas, F["values"])),
                ("constants only when every element is one", c.n(3) == z3.And(c.o(3), forall(I, lambda i: imp(inr(i, n), self.el(c, i)[0] == 0), lambda i: [self.el(c, i)[0]])))]

    def cands(self, L):
        c = L.ex.ctx
        out = []
        for r in L.ints():
            for nm, _ in self.facts(c, L.st0, L.st0.vars[r]):
                out.append((nm, lambda st, nm=nm, r=r: dict(self.facts(c, st, st.vars[r]))[nm]))
        return out


SPECS = [ArgV(), ArgG(), Dispatch(), Unsupp(), Element(), Index(), Memo(), Scalar(), Evaluate(), EvaluateViews(), EvaluateNew(), ProcessArray()] + [opclass(k, f)() for k, f in EVAL.items()]
