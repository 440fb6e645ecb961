"""E01: recorded arithmetic (CG<double> operators and math functions).

Ghost: D(node) is the mathematical value of a recorded operation node.  makeNode's contract below *defines* it for the
node it returns from the operation code and the arguments recorded in the node; that the node records exactly those is
verified on makeNode's body (contract MakeNode).  den(CG) is D(node_) for variables and *value_ for constants."""
from contract import *
import stl

NS = "CppAD::cg::"
CG = "CppAD::cg::CG<double>::"
EXTRACT_ARGS = ["--repo", "/usr/include/cppad"]
D = z3.Function("D", I, R)
MF = {"Acos": "acos", "Acosh": "acosh", "Asin": "asin", "Asinh": "asinh", "Atan": "atan", "Atanh": "atanh", "Cosh": "cosh", "Cos": "cos",
      "Erf": "erf", "Erfc": "erfc", "Exp": "exp", "Expm1": "expm1", "Log": "log", "Log1p": "log1p", "Sinh": "sinh", "Sin": "sin", "Sqrt": "sqrt",
      "Tanh": "tanh", "Tan": "tan"}
POW = z3.Function("m_pow", R, R, R)
_x = z3.Real("x!pow")
AX = [z3.ForAll([_x], POW(_x, z3.RealVal(0)) == 1, patterns=[POW(_x, z3.RealVal(0))]), z3.ForAll([_x], POW(_x, z3.RealVal(1)) == _x, patterns=[POW(_x, z3.RealVal(1))])]
COM = {"ComLt": lambda a, b: a < b, "ComLe": lambda a, b: a <= b, "ComEq": lambda a, b: a == b, "ComGe": lambda a, b: a >= b, "ComGt": lambda a, b: a > b, "ComNe": lambda a, b: a != b}
ASSUME = ["the operation code of a node means the mathematical operation of that name (CGOpCode documentation); pow(x,0)=1 and pow(x,1)=x",
          "operands are well formed: a constant has a value; a divisor is not zero (quotients are only specified where defined)"]


def SORTS(P):
    return ((NS + "OperationNode", NS + "CodeHandler"),)


def sign(x):
    return z3.If(x > 0, z3.RealVal(1), z3.If(x == 0, z3.RealVal(0), z3.RealVal(-1)))


def absv(x):
    return z3.If(x >= 0, x, -x)


def meaning(codes, op, a):
    """value of operation `op` on argument values a(0), a(1), ..."""
    t = {"Add": lambda: a(0) + a(1), "Sub": lambda: a(0) - a(1), "Mul": lambda: a(0) * a(1), "Div": lambda: a(0) / a(1), "UnMinus": lambda: -a(0),
         "Abs": lambda: absv(a(0)), "Sign": lambda: sign(a(0)), "Pow": lambda: POW(a(0), a(1)), "Assign": lambda: a(0), "Alias": lambda: a(0)}
    for k, f in MF.items():
        t[k] = (lambda f: lambda: stl.math_fn(f, a(0)))(f)
    for k, f in COM.items():
        t[k] = (lambda f: lambda: z3.If(f(a(0), a(1)), a(2), a(3)))(f)
    r = z3.Function("D_other", I, R)(op)
    for k in sorted(t):
        if z3.is_int_value(op):
            if op.as_long() == codes[k]:
                return t[k]()
        else:
            r = z3.If(op == codes[k], t[k](), r)
    return r


def codes(P):
    for e in P.enums:
        if e["name"] == NS + "CGOpCode":
            return e["vals"]
    raise Unsupported("CGOpCode")


class Opnd:
    """an operand: code-generation scalar or plain number"""

    def __init__(self, v):
        if isz(v):
            self.node = z3.IntVal(0)
            self.val = coerce(v, R)
            self.has = z3.BoolVal(True)
        else:
            self.node, self.has, self.val = v["node_"], v["value_"]["has"], v["value_"]["val"]
        self.var = self.node != 0
        self.den = z3.If(self.var, D(self.node), self.val)


def wfcg(o):
    return z3.Or(o.var, o.has)


def owned(c, *os):
    """every recorded node belongs to a handler (established by makeNode)"""
    return z3.And([imp(o.var, handler(c, c.st0, o) > 0) for o in os])


def handler(c, st, o):
    P = c.ex.prog
    cls = c.ex.find_rec(NS + "OperationNode")
    ty, decl = c.ex.field_ty(cls, "handler_")
    return z3.Select(c.ex.heap_get(st, decl, "handler_", ty), o.node)


def mixed(c, *os):
    """two variable operands of different handlers"""
    out = []
    for x in range(len(os)):
        for y in range(x):
            out.append(z3.And(os[x].var, os[y].var, handler(c, c.st0, os[x]) != handler(c, c.st0, os[y])))
    return z3.Or(out)


def result_is(c, res, ops, f):
    """the result denotes f(operands), with a value exactly when every operand has one"""
    r = Opnd(res)
    vals = f(*[o.val for o in ops])
    allv = z3.And([o.has for o in ops])
    return [("a constant result has a value", wfcg(r)),
            ("a variable result belongs to the operands' handler", imp(r.var, z3.Or([z3.And(o.var, handler(c, c.st1, r) == handler(c, c.st0, o)) for o in ops]))),
            ("constant operands give a constant", imp(z3.And([z3.Not(o.var) for o in ops]), z3.Not(r.var))),
            ("denotes the operation on its operands", r.den == f(*[o.den for o in ops])),
            ("value known when all operands have one", imp(allv, r.has)),
            ("value only when all operands have one", imp(z3.And(r.var, r.has), allv)),
            ("known value is the operation on the known values", imp(z3.And(allv, r.has), r.val == vals))]


BIN = {"operator+": lambda a, b: a + b, "operator-": lambda a, b: a - b, "operator*": lambda a, b: a * b, "operator/": lambda a, b: a / b}


class E(Contract):
    axioms = AX

    def ops(self, c):
        return [Opnd(c.o(n)) for n in range(len(c.args))]


def divok(name, a, b):
    """the quotient is defined, for the denoted and the known values; known values of one node agree"""
    if name != "/":
        return []
    return [b.den != 0, imp(b.has, b.val != 0)]


def iscg(t):
    return t.deref().k == "rec" and t.deref().rec().name == "CppAD::cg::CG"


class Binary(E):
    """binary operator"""
    qn = [NS + k for k in BIN]

    def select(self, fn):
        return len(fn.params) == 2 and any(iscg(t) for t in fn.ptys()) and fn.cls is None and not fn.j.get("lambda")

    def pre(self, c):
        a, b = self.ops(c)
        return [wfcg(a), wfcg(b), samev(a, b), owned(c, a, b)] + divok(c.fn.name[-1], a, b)

    def throw_when(self, c):
        return mixed(c, *self.ops(c))

    def post(self, c):
        return result_is(c, c.rv(), self.ops(c), BIN[c.fn.name])


def samev(a, b):
    """two operands for one node: their known values agree (same operation, same point)"""
    return imp(z3.And(a.var, a.node == b.node, a.has, b.has), a.val == b.val)


class Compound(E):
    """compound assignment"""
    qn = [CG + k + "=" for k in BIN]
    modifies = ("this",)

    def two(self, c):
        return Opnd(c.to()), Opnd(c.o(0))

    def pre(self, c):
        a, b = self.two(c)
        return [wfcg(a), wfcg(b), samev(a, b), z3.Not(mixed(c, a, b)), owned(c, a, b)] + divok(c.fn.name[-2], a, b)

    def post(self, c):
        return result_is(c, c.tn(), self.two(c), BIN[c.fn.name[:-1]])


class CompoundSelf(Compound):
    """compound assignment of an operand with itself (a op= a)"""

    def select(self, fn):
        return iscg(fn.ptys()[0])

    def make_arg(self, ex, st, fn, n, t):
        return ex.entry_this

    inline_in = staticmethod(lambda ex, fn: True)


class Unary(E):
    """unary operator"""
    qn = [CG + "operator+", CG + "operator-"]

    def pre(self, c):
        return [wfcg(Opnd(c.to())), owned(c, Opnd(c.to()))]

    def post(self, c):
        return result_is(c, c.rv(), [Opnd(c.to())], (lambda a: a) if c.fn.name[-1] == "+" else (lambda a: -a))


FN = {"abs": absv, "fabs": absv, "sign": sign, "log10": lambda a: stl.math_fn("log", a) / stl.math_fn("log", z3.RealVal(10))}
for _k in MF.values():
    FN[_k] = (lambda k: lambda a: stl.math_fn(k, a))(_k)


class Math(E):
    """math function of one operand"""
    qn = ["CppAD::" + k for k in FN]

    def select(self, fn):
        return len(fn.params) == 1 and iscg(fn.ptys()[0])

    def pre(self, c):
        return [wfcg(Opnd(c.o(0))), owned(c, Opnd(c.o(0))), stl.math_fn("log", z3.RealVal(10)) != 0]

    def post(self, c):
        return result_is(c, c.rv(), self.ops(c), FN[c.fn.name])


class Pow(E):
    """power"""
    qn = "CppAD::pow"

    def select(self, fn):
        return any(iscg(t) for t in fn.ptys())

    def pre(self, c):
        return [wfcg(o) for o in self.ops(c)]

    def post(self, c):
        return result_is(c, c.rv(), self.ops(c), POW)


class Cond(E):
    """conditional expression"""
    qn = ["CppAD::CondExp" + k for k in ("Lt", "Le", "Eq", "Ge", "Gt")]

    def pre(self, c):
        o = self.ops(c)
        return [wfcg(x) for x in o] + [owned(c, *o), samev(o[2], o[3])]

    def cmp(self, c):
        return COM["Com" + c.fn.name[-2:]]

    def quads(self, c):
        return self.ops(c)

    def throw_when(self, c):
        l, r, t, f = self.quads(c)
        same = z3.Or(z3.And(z3.Not(t.var), z3.Not(f.var), t.val == f.val), z3.And(t.var, f.var, t.node == f.node))
        return z3.And(z3.Or(l.var, r.var), z3.Not(same), mixed(c, l, r, t, f))

    def post(self, c):
        l, r, t, f = self.quads(c)
        x = Opnd(c.rv())
        q = self.cmp(c)
        kn = z3.And(l.has, r.has)
        ch = q(l.val, r.val)
        known = z3.If(ch, t.has, f.has)
        lrc = z3.And(z3.Not(l.var), z3.Not(r.var))
        return [("a constant result has a value", wfcg(x)),
                ("denotes the selected operand", x.den == z3.If(q(l.den, r.den), t.den, f.den)),
                ("value known when all operands have one", imp(z3.And(kn, t.has, f.has), x.has)),
                ("known value is the selected operand's value", imp(z3.And(kn, known, x.has), x.val == z3.If(ch, t.val, f.val))),
                ("no value when the selected operand has none", imp(z3.And(x.var, x.has, kn), z3.Or(known, z3.And(t.var, t.node == f.node))))]


class CondOp(Cond):
    """conditional expression, comparison given as operand"""
    qn = "CppAD::CondExpOp"
    KIND = ("CompareLt", "CompareLe", "CompareEq", "CompareGe", "CompareGt")

    def code(self, c, k):
        for e in c.ex.prog.enums:
            if e["name"] == "CppAD::CompareOp":
                return e["vals"][k]
        raise Unsupported("CompareOp")

    def quads(self, c):
        return [Opnd(c.o(n)) for n in range(1, 5)]

    def pre(self, c):
        o = self.quads(c)
        return [wfcg(x) for x in o] + [owned(c, *o), samev(o[2], o[3]), z3.Or([c.o(0) == self.code(c, k) for k in self.KIND])]

    def cmp(self, c):
        def f(a, b):
            r = z3.BoolVal(False)
            for k in self.KIND:
                r = z3.If(c.o(0) == self.code(c, k), COM["Com" + k[-2:]](a, b), r)
            return r
        return f


class MakeNodeBody(Contract):
    """a created node records the handler, the operation and the arguments, in order"""
    qn = NS + "CodeHandler<double>::makeNode"

    def select(self, fn):
        return len(fn.params) == 2

    def args_of(self, c):
        """list of (op node, has parameter, parameter) accessors"""
        a = c.o(1)
        if a.kind == "vec":
            return a["len"], lambda i: tselect(a["el"], i)
        return z3.IntVal(1), lambda i: a

    def field(self, c, st, name, p):
        ty, decl = c.ex.field_ty(c.ex.find_rec(NS + "OperationNode"), name)
        return tselect(c.ex.heap_get(st, decl, name, ty), p)

    def structural(self, c):
        p = c.ret if isz(c.ret) else c.ret.root[1]
        n, at = self.args_of(c)
        rec = self.field(c, c.st1, "arguments_", p)
        h = self.field(c, c.st1, "handler_", p)
        return p, [("a new node", z3.And(p > 0, z3.Not(c.ex.allocated(c.st0, p)))),
                   ("owned by this handler", h == self.thisp(c)),
                   ("operation recorded", self.field(c, c.st1, "operation_", p) == c.o(0)),
                   ("number of arguments recorded", rec["len"] == n),
                   ("arguments recorded in order", forall(I, lambda i: imp(inr(i, n), sameArg(tselect(rec["el"], i), at(i)))))]

    def thisp(self, c):
        return c.this.root[1]

    def post(self, c):
        return self.structural(c)[1]

    def apply(self, ex, st, fr, fn, this, args, e):
        c = Ctx(ex, fn, args, this, st)
        n, at = self.args_of(c)
        st, p = ex.fresh_ptr(st, fn.ret.to())
        for name, v in (("handler_", self.thisp(c)), ("operation_", c.o(0))):
            ty, decl = ex.field_ty(ex.find_rec(NS + "OperationNode"), name)
            h = ex.heap_get(st, decl, name, ty)
            st = st.copy()
            st.heap[(decl, name)] = z3.Store(h, p, v)
        op = z3.simplify(c.o(0))
        return [(st.assume(D(p) == meaning(codes(ex.prog), op, lambda i: den_arg(at(z3.IntVal(i))))), p)]


def sameArg(a, b):
    return z3.And(a["operation_"] == b["operation_"], a["parameter_"]["has"] == b["parameter_"]["has"], imp(b["parameter_"]["has"], a["parameter_"]["val"] == b["parameter_"]["val"]))


def den_arg(a):
    return z3.If(a["operation_"] != 0, D(a["operation_"]), a["parameter_"]["val"])


class Assign(E):
    """assignment from another scalar or number"""
    qn = CG + "operator="
    modifies = ("this",)

    def post(self, c):
        a, b = Opnd(c.tn()), Opnd(c.o(0))
        return [("same node", a.node == b.node), ("same value", z3.And(a.has == b.has, imp(b.has, a.val == b.val)))]


class SetValue(E):
    """setting a known value"""
    qn = CG + "setValue"
    modifies = ("this",)

    def post(self, c):
        return [("value set", z3.And(c.tn("value_")["has"], c.tn("value_")["val"] == c.o(0))), ("node kept", c.tn("node_") == c.to("node_"))]


class GetValue(E):
    """reading the known value"""
    qn = CG + "getValue"

    def throw_when(self, c):
        return z3.Not(c.to("value_")["has"])

    def post(self, c):
        return [("the known value", c.rv() == c.to("value_")["val"])]


class Query(E):
    """classification queries"""
    qn = [CG + k for k in ("isVariable", "isParameter", "isValueDefined", "isIdenticalZero", "isIdenticalOne")]

    def pre(self, c):
        return [wfcg(Opnd(c.to()))] if "Identical" in c.fn.name else []

    def post(self, c):
        o = Opnd(c.to())
        w = {"isVariable": o.var, "isParameter": z3.Not(o.var), "isValueDefined": o.has, "isIdenticalZero": z3.And(z3.Not(o.var), o.val == 0), "isIdenticalOne": z3.And(z3.Not(o.var), o.val == 1)}[c.fn.name]
        return [("answer", c.rv() == w)]


class Compare(E):
    """comparison of scalars: only constants compare by value"""
    qn = [NS + "operator" + k for k in ("==", "!=", "<", "<=", ">", ">=")]

    def select(self, fn):
        return len(fn.params) == 2 and any(iscg(t) for t in fn.ptys()) and fn.cls is None

    def pre(self, c):
        return [wfcg(o) for o in self.ops(c)]

    def throw_when(self, c):
        a, b = self.ops(c)
        return None if c.fn.name[8:] in ("==", "!=") else z3.Or(a.var, b.var)

    def post(self, c):
        a, b = self.ops(c)
        k = c.fn.name[8:]
        same = z3.If(z3.And(z3.Not(a.var), z3.Not(b.var)), a.val == b.val, z3.And(a.var, b.var, a.node == b.node))
        w = {"==": lambda: same, "!=": lambda: z3.Not(same), "<": lambda: a.val < b.val, "<=": lambda: a.val <= b.val, ">": lambda: a.val > b.val, ">=": lambda: a.val >= b.val}[k]()
        return [("answer", c.rv() == w)]


class Order(E):
    """predicates CppAD uses to decide on constants"""
    qn = ["CppAD::" + k for k in ("IdenticalZero", "IdenticalOne", "IdenticalCon", "IdenticalEqualCon", "GreaterThanZero", "GreaterThanOrZero", "LessThanZero", "LessThanOrZero", "abs_geq")]

    def select(self, fn):
        return iscg(fn.ptys()[0])

    def pre(self, c):
        return [wfcg(o) for o in self.ops(c)]

    def throw_when(self, c):
        return None if c.fn.name.startswith("Identical") else z3.Or([o.var for o in self.ops(c)])

    def post(self, c):
        o = self.ops(c)
        a, b = o[0], o[-1]
        const = z3.And([z3.Not(x.var) for x in o])
        w = {"IdenticalZero": a.val == 0, "IdenticalOne": a.val == 1, "IdenticalCon": z3.BoolVal(True), "IdenticalEqualCon": a.val == b.val, "GreaterThanZero": a.val > 0,
             "GreaterThanOrZero": a.val >= 0, "LessThanZero": a.val < 0, "LessThanOrZero": a.val <= 0, "abs_geq": absv(a.val) >= absv(b.val)}[c.fn.name]
        return [("answer", c.rv() == z3.And(const, w))]


SPECS = [Binary(), Compound(), CompoundSelf(), Unary(), Math(), Pow(), Cond(), CondOp(), MakeNodeBody(), Assign(), SetValue(), GetValue(), Query(), Compare(), Order()]
