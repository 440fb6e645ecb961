"""C01: text emitted for recorded operations (LanguageC<double>)."""
from contract import *
import stl
import ctext
import itertools
import sympy

NS = "CppAD::cg::"
LC = NS + "LanguageC<double>::"
VID = z3.Function("varId", I, I)      # variable id of a node (0: no variable, its expression is written in place)
RES = z3.Function("resolved", I, I)   # node reached through aliases without a variable (0: a constant)
RESP = z3.Function("resolved_value", I, R)
DEP = z3.Function("isDependent", I, B)
ASSUME = ["createVariableName, getVariableID and isDependent are functions of the node (names: property N01)",
          "LangStreamStack writes texts and nodes in the order given, a node being replaced in place by its own expansion (pushExpressionNoVarCheck2)",
          "operations other than expressions (loops, arrays, atomics, conditions) always have a variable or print as a name",
          "an operation is recorded with at least one non-constant operand (E01); constants are finite"]
FUN = {"Abs": "fabs", "Acos": "acos", "Asin": "asin", "Atan": "atan", "Cosh": "cosh", "Cos": "cos", "Exp": "exp", "Log": "log", "Sinh": "sinh", "Sin": "sin", "Sqrt": "sqrt", "Tanh": "tanh", "Tan": "tan",
       "Erf": "erf", "Erfc": "erfc", "Asinh": "asinh", "Acosh": "acosh", "Atanh": "atanh", "Expm1": "expm1", "Log1p": "log1p"}
COM = {"ComLt": "<", "ComLe": "<=", "ComEq": "==", "ComGe": ">=", "ComGt": ">", "ComNe": "!="}
TYPES = {f: ("f", 1) for f in FUN.values()}
TYPES["pow"] = ("f", 2)
# general form of the text of an operand, per syntactic class.  %d: number of the operand
FORMS = {"prim": ["n%da"], "pos": ["1%d3.5"], "neglit": ["-1%d3.5"], "unary": ["- n%da * n%db / n%dc", "-(n%da + n%db)"],
         "prod": ["n%da * n%db / n%dc", "-1%d3.5 * n%da / n%db", "n%da / n%db * n%dc"],
         "sum": ["n%da * n%db - n%dc / n%dd", "-1%d3.5 * n%da + n%db / n%dc", "- n%da - n%db * n%dc"]}
MAXLEVEL = {"prim": 0, "unary": 3, "prod": 3, "sum": 4}


def SORTS(P):
    return ((NS + "OperationNode",),)


def codes(P):
    for e in P.enums:
        if e["name"] == NS + "CGOpCode":
            return e["vals"]
    raise Unsupported("CGOpCode")


class Nodes:
    def __init__(self, c):
        ex = c.ex
        on = ex.find_rec(NS + "OperationNode")
        g = lambda f: ex.heap_get(c.st0, ex.field_ty(on, f)[1], f, ex.field_ty(on, f)[0])
        self.args, self.op = g("arguments_"), g("operation_")
        self.inf = g("info_")
        self.C = codes(ex.prog)

    def ninfo(self, p):
        return sel(self.inf["len"], p)

    def info(self, p, i):
        return sel(self.inf["el"], p, z3.IntVal(i))

    def nargs(self, p):
        return sel(self.args["len"], p)

    def a(self, p, i):
        i = z3.IntVal(i) if isinstance(i, int) else i
        return sel(self.args["el"]["operation_"], p, i)

    def has(self, p, i):
        return sel(self.args["el"]["parameter_"]["has"], p, z3.IntVal(i) if isinstance(i, int) else i)

    def v(self, p, i):
        return sel(self.args["el"]["parameter_"]["val"], p, z3.IntVal(i) if isinstance(i, int) else i)

    def isop(self, p, names):
        return z3.Or([self.op[p] == self.C[n] for n in names if n in self.C])

    def resolve(self):
        """axioms of RES"""
        return [RES(z3.IntVal(0)) == 0,
                forall(I, lambda p: imp(p != 0, RES(p) == z3.If(z3.And(VID(p) == 0, self.op[p] == self.C["Alias"]), z3.If(self.a(p, 0) == 0, z3.IntVal(0), RES(self.a(p, 0))), p)), lambda p: [RES(p)])]

    def cls_node(self, r):
        """syntactic class of the text of a (resolved, non-zero) node"""
        v = VID(r) > 0
        C = self.C
        su = z3.And(VID(r) == 0, self.isop(r, ["Add", "Sub", "Assign"]))
        pr = z3.And(VID(r) == 0, self.isop(r, ["Mul", "Div"]))
        un = z3.And(VID(r) == 0, self.isop(r, ["UnMinus"]))
        return {"sum": su, "prod": pr, "unary": un, "prim": z3.Not(z3.Or(su, pr, un))}

    def cls(self, p, i):
        """(class, condition) of the text of operand i of node p"""
        o = self.a(p, i)
        r = RES(o)
        n = self.cls_node(r)
        d = {k: z3.And(o != 0, r != 0, n[k]) for k in n}
        d["pos"] = z3.And(o == 0, self.v(p, i) >= 0)
        d["neglit"] = z3.Or(z3.And(o == 0, self.v(p, i) < 0), z3.And(o != 0, r == 0))
        return d

    def cls_of(self, o):
        r = RES(o)
        n = self.cls_node(r)
        d = {k: z3.And(r != 0, n[k]) for k in n}
        d["neglit"] = r == 0
        return d


def out(st):
    return st.ghost.get("out", StrV(()))


def emit(st, v):
    st = st.copy()
    st.ghost["out"] = out(st) + v
    return st


def argpos(ref):
    """(node, index) of an operand reference"""
    a = ref.acc
    if ref.root[0] == "h" and len(a) == 2 and a[0][1] == "arguments_" and a[1][0] == "i":
        return ref.root[1], a[1][1]
    raise Unsupported("operand %r" % (ref,))


def nodeptr(ref):
    if isinstance(ref, Ref) and ref.root[0] == "h" and not ref.acc:
        return ref.root[1]
    if isz(ref):
        return ref
    raise Unsupported("node %r" % (ref,))


class Assumed(Contract):
    assumed = True


class Emit(Assumed):
    """text output"""
    qn = [NS + "operator<<"]

    def select(self, fn):
        return fn.ptys()[0].k == "ref" and fn.ptys()[0].to().k == "rec" and fn.ptys()[0].to().rec().name == NS + "LangStreamStack"

    def apply(self, ex, st, fr, fn, this, args, e):
        t = fn.ptys()[1].deref()
        a = args[1]
        if t.k == "rec" and t.rec().name == NS + "OperationNode":
            v = StrV((("node", nodeptr(a)),))
        else:
            if isinstance(a, Ref):
                a = ex.read(st, a)
            if isz(a) and a.sort() == I:
                if t.k == "int" and t.j["w"] == 8:
                    v = StrV((chr(a.as_long()),)) if z3.is_int_value(a) else StrV((("char", a),))
                else:
                    v = StrV((("num", a),))
            else:
                v = stl.tostr(a)
        return [(emit(st, v), args[0])]


class StrRet(Assumed):
    tag = ""

    def apply(self, ex, st, fr, fn, this, args, e):
        v = StrV(((self.tag, nodeptr(args[0])),))
        if fn.ret.k == "ref":
            st, r = ex.temp(st, v)
            return [(st, r)]
        return [(st, v)]


class Name(StrRet):
    """variable name"""
    qn = LC + "createVariableName"
    tag = "name"


class IndepName(StrRet):
    """name of an independent"""
    qn = [NS + "VariableNameGenerator<double>::generateIndependent"]
    tag = "name"


class VarId(Assumed):
    """variable id"""
    qn = LC + "getVariableID"

    def apply(self, ex, st, fr, fn, this, args, e):
        v = VID(nodeptr(args[0]))
        return [(st.assume(v >= 0), v)]


class IsDep(Assumed):
    """whether a node is a dependent"""
    qn = LC + "isDependent"

    def apply(self, ex, st, fr, fn, this, args, e):
        return [(st, DEP(nodeptr(args[0])))]


class L(Contract):
    opts = {"merge": True}

    def init_state(self, c, st):
        return emit(st, StrV(()))


class Text(L):
    """a function that writes the expression of a node"""
    names = ()
    nargs = 1

    def p(self, c):
        return nodeptr(c.args[0])

    def ops(self, c):
        return [k for k in self.names if k in codes(c.ex.prog)]

    def pre(self, c):
        N, p = Nodes(c), self.p(c)
        out = [N.isop(p, self.ops(c)), N.nargs(p) == self.nargs]
        for i in range(self.nargs):
            out.append((N.a(p, i) == 0) == N.has(p, i))
            out.append(N.a(p, i) >= 0)
        return out + self.more(c, N, p)

    def more(self, c, N, p):
        return [z3.Or([N.a(p, i) != 0 for i in range(self.nargs)])]

    def apply(self, ex, st, fr, fn, this, args, e):
        c = Ctx(ex, fn, args, this, st)
        for nm, q in named(self.pre(c), "operation code and operands"):
            st = ex.oblige(st, q, "precondition of %s: %s" % (fn.name, nm), ex.locs(e.get("l")), "pre")
        st = emit(st, StrV((("expr", self.p(c)),)))
        r = None
        if fn.ret.k != "void":
            r = fconst("lines", I)
        return [(st, r)]

    def expected(self, name, a):
        raise NotImplementedError

    def oclass(self, name):
        return "prim"

    def post(self, c):
        parts = out(c.st1).parts
        N, p = Nodes(c), self.p(c)
        obl = []
        holes = {}
        for q in parts:
            if not isinstance(q, str):
                holes.setdefault(key(q), (q, len(holes)))
        # constants are written with the sign of the value
        hs = [h for h in holes.values()]
        opts = []
        for q, n in hs:
            opts.append([(k, f, cond) for k, cond in self.classes(c, N, q).items() if c.ex.solver.check_sat(list(c.st1.pc) + [cond], 4000) != "unsat" for f in FORMS[k]])
        ident = []
        for i in range(self.nargs):
            for q, n in hs:
                f = self.same_operand(c, N, p, i, q)
                if f:
                    ident.append((n, f))
                    break
            else:
                ident.append(None)
        for nm in self.ops(c):
            if len(self.names) > 1 and c.ex.solver.check_sat(list(c.st1.pc) + [N.op[p] == N.C[nm]], 4000) == "unsat":
                continue
            for combo in itertools.product(*opts):
                conds = [N.op[p] == N.C[nm]] + [x[2] for x in combo]
                err = self.check(c, N, p, nm, parts, holes, combo, ident)
                if err:
                    obl.append(("text of %s: %s" % (nm, err), z3.Not(z3.And(conds))))
        # group: one obligation per message
        g = {}
        for nm, q in obl:
            g.setdefault(nm, []).append(q)
        res = [(nm, z3.And(q)) for nm, q in g.items()]
        return res or [("text of %s denotes the operation" % "/".join(self.names), z3.BoolVal(True))]

    def classes(self, c, N, q):
        if q[0] == "arg":
            return N.cls(q[1], q[2])
        if q[0] == "name":
            return {"prim": z3.BoolVal(True)}
        if q[0] in ("node", "expr"):
            return N.cls_of(q[1])
        if q[0] == "param":
            return {"pos": q[1] >= 0, "neglit": q[1] < 0}
        raise Unsupported("text piece %r" % (q,))

    def same_operand(self, c, N, p, i, q):
        """1: piece q writes operand i of p; -1: it writes the negated constant; None: neither"""
        sure = lambda cond: c.ex.solver.check_sat(list(c.st1.pc) + [z3.Not(cond)], 4000) == "unsat"
        if q[0] == "arg":
            return 1 if sure(z3.And(q[1] == p, q[2] == i)) else None
        if q[0] in ("name", "node", "expr"):
            return 1 if sure(z3.And(N.a(p, i) != 0, N.a(p, i) == q[1])) else None
        if q[0] == "param" and sure(N.a(p, i) == 0):
            return 1 if sure(q[1] == N.v(p, i)) else -1 if sure(q[1] == -N.v(p, i)) else None
        return None

    def check(self, c, N, p, nm, parts, holes, combo, ident):
        text = ""
        vals = {}
        types = dict(TYPES)
        for (q, n), (k, f, cond) in zip(holes.values(), combo):
            t = f.replace("%d", str(n))
            for l in "abcd":
                types["n%d%s" % (n, l)] = "d"
            vals[n] = (t, sympy.nsimplify(ctext.value(ctext.parse(t, types))))
        for q in parts:
            text += q if isinstance(q, str) else vals[holes[key(q)][1]][0]
        try:
            e = ctext.parse(text, types)
            v = ctext.value(e)
        except ctext.Bad as x:
            return "%r: %s" % (text, x)
        if e[1] != "d":
            return "%r is an integer expression" % text
        if e[2] > MAXLEVEL[self.oclass(nm)]:
            return "%r is not a %s" % (text, self.oclass(nm))
        # operands
        ov = []
        for i in range(self.nargs):
            if ident[i] is None:
                return "%r does not contain operand %d" % (text, i)
            n, f = ident[i]
            ov.append(f * vals[n][1])
        if not ctext.same(v, self.expected(nm, ov)):
            return "%r is not the operation" % text
        return None


def key(q):
    return (q[0],) + tuple(x.get_id() if isz(x) else x for x in q[1:])


class Enclose(L):
    """whether the text of an operand needs parentheses"""

    def setup(self, c):
        return Nodes(c).resolve()

    def node(self, c):
        return nodeptr(c.args[0])

    def pre(self, c):
        return [forall(I, lambda p: imp(z3.And(p != 0, Nodes(c).op[p] == codes(c.ex.prog)["Alias"]), Nodes(c).nargs(p) > 0), lambda p: [Nodes(c).op[p]])]

    def apply(self, ex, st, fr, fn, this, args, e):
        c = Ctx(ex, fn, args, this, st)
        c.st0 = c.st1 = st
        c.ret = fconst("enclose", B)
        return [(st.assume(*[q for _, q in self.post(c)]), c.ret)]

    def cands(self, L):
        c = L.ex.ctx
        p = self.node(c)
        return [("same resolved node", lambda st, r=r: RES(st.vars[r]) == RES(p)) for r, v in L.st0.vars.items() if isz(v) and v.sort() == I]

    def post(self, c):
        N, p = Nodes(c), self.node(c)
        d = N.cls_node(RES(p))
        return [("enclosed when the text of the operand is a %s" % k, imp(z3.And(p != 0, RES(p) != 0, d[k]), c.ret)) for k in self.kinds]


class EncloseMul(Enclose):
    qn = LC + "encloseInParenthesesMul"
    kinds = ("sum", "unary")


class EncloseDiv(Enclose):
    qn = LC + "encloseInParenthesesDiv"
    kinds = ("sum", "unary", "prod")


class Unary(Text):
    """functions of one argument"""
    qn = LC + "pushUnaryFunction"
    names = tuple(FUN)

    def expected(self, nm, a):
        return sympy.Function(FUN[nm])(a[0])


class Pow(Text):
    """power"""
    qn = LC + "pushPowFunction"
    names = ("Pow",)
    nargs = 2

    def expected(self, nm, a):
        return sympy.Function("pow")(a[0], a[1])


class Alias(Text):
    """alias"""
    qn = LC + "pushOperationAlias"
    names = ("Alias",)

    def oclass(self, nm):
        return "sum"

    def more(self, c, N, p):
        return []

    def expected(self, nm, a):
        return a[0]


class Assign(Alias):
    """assignment"""
    qn = LC + "pushAssignOp"
    names = ("Assign",)


class Add(Text):
    """addition"""
    qn = LC + "pushOperationAdd"
    names = ("Add",)
    nargs = 2

    def oclass(self, nm):
        return "sum"

    def expected(self, nm, a):
        return {"Add": lambda: a[0] + a[1], "Sub": lambda: a[0] - a[1], "Mul": lambda: a[0] * a[1], "Div": lambda: a[0] / a[1]}[nm]()


class Sub(Add):
    """subtraction"""
    qn = LC + "pushOperationMinus"
    names = ("Sub",)


class Mul(Add):
    """multiplication"""
    qn = LC + "pushOperationMul"
    names = ("Mul",)

    def oclass(self, nm):
        return "prod"


class Div(Mul):
    """division"""
    qn = LC + "pushOperationDiv"
    names = ("Div",)


class Neg(Text):
    """negation"""
    qn = LC + "pushOperationUnaryMinus"
    names = ("UnMinus",)

    def oclass(self, nm):
        return "unary"

    def expected(self, nm, a):
        return -a[0]


class Push(L):
    """operand"""
    qn = LC + "push"

    def make_arg(self, ex, st, fn, n, t):
        p = z3.Int("owner")
        return Ref(("h", p, ex.find_rec(NS + "OperationNode"))).f("arguments_", ex.find_rec(NS + "OperationNode")).i(z3.IntVal(0))

    def pos(self, c):
        return argpos(c.args[0])

    def pre(self, c):
        N = Nodes(c)
        p, i = self.pos(c)
        return [p > 0, i >= 0, i < N.nargs(p), (N.a(p, i) == 0) == N.has(p, i), N.a(p, i) >= 0]

    def apply(self, ex, st, fr, fn, this, args, e):
        c = Ctx(ex, fn, args, this, st)
        for nm, q in named(self.pre(c), "operand exists"):
            st = ex.oblige(st, q, "precondition of %s: %s" % (fn.name, nm), ex.locs(e.get("l")), "pre")
        p, i = self.pos(c)
        return [(emit(st, StrV((("arg", p, i),))), fconst("lines", I))]

    def post(self, c):
        N = Nodes(c)
        p, i = self.pos(c)
        parts = out(c.st1).parts
        if len(parts) != 1 or isinstance(parts[0], str):
            return [("writes the operand", z3.BoolVal(False))]
        q = parts[0]
        o = N.a(p, i)
        if q[0] == "name":
            ok = z3.And(o != 0, VID(o) > 0, q[1] == o)
        elif q[0] == "node":
            ok = z3.And(o != 0, VID(o) == 0, q[1] == o)
        elif q[0] == "opexpr":
            ok = z3.And(o != 0, q[1] == o)
        elif q[0] == "param":
            ok = z3.And(o == 0, q[1] == N.v(p, i))
        else:
            ok = z3.BoolVal(False)
        return [("writes the name, the expression or the value of the operand", ok)]


class PushExpr(L):
    """operand which is an operation"""
    qn = LC + "pushExpression"

    def pre(self, c):
        return []

    def apply(self, ex, st, fr, fn, this, args, e):
        return [(emit(st, StrV((("opexpr", nodeptr(args[0])),))), fconst("lines", I))]

    def post(self, c):
        p = nodeptr(c.args[0])
        parts = out(c.st1).parts
        if len(parts) != 1 or isinstance(parts[0], str):
            return [("writes the operation", z3.BoolVal(False))]
        q = parts[0]
        return [("a variable is written by its name, another operation by its expression", {"name": z3.And(VID(p) > 0, q[1] == p), "node": z3.And(VID(p) == 0, q[1] == p)}.get(q[0], z3.BoolVal(False)))]


class Param(L):
    """constant"""
    qn = LC + "pushParameter"

    def apply(self, ex, st, fr, fn, this, args, e):
        v = args[0]
        if isinstance(v, Ref):
            v = ex.read(st, v)
        return [(emit(st, StrV((("param", v),))), None)]

    def text(self, c):
        return out(c.st1).parts

    def post(self, c):
        parts = list(self.text(c))
        lc = c.ex.find_rec(NS + "LanguageC")
        if not parts or isinstance(parts[0], str) or parts[0][0] != "dbl":
            return [("writes the constant", z3.BoolVal(False))]
        q = parts[0]
        n = StrV((q,))
        tail = "".join(parts[1:]) if all(isinstance(x, str) for x in parts[1:]) else None
        fp = z3.Or(stl.text_has(n, "."), stl.text_has(n, "e"))
        r = [("the constant itself is written", q[1] == c.o(0)), ("all the requested digits are written", q[2] == c.ex.read(c.st0, c.this.f("_parameterPrecision", lc)))]
        if tail == "":
            r.append(("a constant of a floating-point form (with '.' or exponent) is written", fp))
        else:
            r.append(("only '.' is appended, to a constant without '.' and exponent", z3.And(zb(tail == "."), z3.Not(fp))))
        return r


class PrintParam(Param):
    """constant written to the code"""
    qn = LC + "printParameter"

    def text(self, c):
        lc = c.ex.find_rec(NS + "LanguageC")
        old = stl.tostr(c.ex.read(c.st0, c.this.f("_code", lc))).parts
        new = stl.tostr(c.ex.read(c.st1, c.this.f("_code", lc))).parts
        return new[len(old):] if new[:len(old)] == old else ()


class Sign(Text):
    """sign function"""
    qn = LC + "pushSignFunction"
    names = ("Sign",)

    def more(self, c, N, p):
        return [N.a(p, 0) != 0, VID(N.a(p, 0)) > 0]

    def check(self, c, N, p, nm, parts, holes, combo, ident):
        text, types = "", {"n0": "d"}
        for q in parts:
            if isinstance(q, str):
                text += q
            elif q[0] == "name":
                if not sure(c, q[1] == N.a(p, 0)):
                    return "another name"
                text += "n0"
            elif q[0] == "param" and z3.is_rational_value(z3.simplify(q[1])):
                v = z3.simplify(q[1])
                text += str(v.numerator_as_long()) + "." if v.denominator_as_long() == 1 else "%s" % (float(v.as_fraction()))
            else:
                return "unexpected piece"
        try:
            e = ctext.parse(text, types)
            for cmp in ctext.comparisons(e):
                a, b = cmp[3], cmp[4]
                if a[0] != "id":
                    a, b = b, a
                if not (a[0] == "id" and b[0] == "num" and b[3] == 0):
                    return "%r: unexpected comparison" % text
            got = [ctext.at(e, {"n0": sympy.Rational(x, 2)}) for x in (3, 0, -3)]
        except ctext.Bad as x:
            return "%r: %s" % (text, x)
        if e[1] != "d":
            return "%r is an integer expression" % text
        if e[2] > 0:
            return "%r is not enclosed in parentheses" % text
        return None if got == [1, 0, -1] else "%r is not the sign function" % text

    def classes(self, c, N, q):
        return {"prim": z3.BoolVal(True)}


def sure(c, cond, st=None):
    return c.ex.solver.check_sat(list((st or c.st1).pc) + [z3.Not(cond)], 4000) == "unsat"


class WS(L):
    """members _indentation and _spaces hold blanks"""

    def blank(self, c):
        lc = c.ex.find_rec(NS + "LanguageC")
        r = []
        for f in ("_indentation", "_spaces"):
            r.append(stl.tostr(c.ex.read(c.st0, c.this.f(f, lc))).parts)
        return [p for x in r for p in x]


class AsgStart(WS):
    """start of an assignment"""
    qn = LC + "pushAssignmentStart"

    def select(self, fn):
        return len(fn.ptys()) == 3

    def pre(self, c):
        N, p = Nodes(c), nodeptr(c.args[0])
        return [imp(N.op[p] == N.C["LoopIndexedDep"], N.ninfo(p) >= 2)]

    def apply(self, ex, st, fr, fn, this, args, e):
        nm = args[1]
        if isinstance(nm, Ref):
            nm = ex.read(st, nm)
        d = args[2]
        return [(emit(st, StrV((("asg", nodeptr(args[0]), stl.tostr(nm).parts, d),))), None)]

    def post(self, c):
        N, p = Nodes(c), nodeptr(c.args[0])
        lc = c.ex.find_rec(NS + "LanguageC")
        nm = stl.tostr(c.ex.read(c.st0, c.args[1])).parts
        dep = stl.tostr(c.ex.read(c.st0, c.this.f("_depAssignOperation", lc))).parts
        parts, text = [x for x in out(c.st1).parts if x not in self.blank(c)], ""
        usesdep = False
        while parts:
            if tuple(parts[:len(nm)]) == nm:
                text, parts = text + "v0", parts[len(nm):]
            elif tuple(parts[:len(dep)]) == dep:
                text, parts, usesdep = text + "=", parts[len(dep):], True
            elif isinstance(parts[0], str):
                text, parts = text + parts[0], parts[1:]
            else:
                return [("unexpected piece", z3.BoolVal(False))]
        try:
            s = ctext.stmts(text + "n0;", {"v0": "d", "n0": "d"})
        except ctext.Bad as x:
            return [("%r: %s" % (text, x), z3.BoolVal(False))]
        if len(s) != 1 or s[0][0] != "asg" or s[0][2][:4] != ("id", "d", 0, "v0") or s[0][3][0] != "id":
            return [("%r is not the start of an assignment" % text, z3.BoolVal(False))]
        acc = z3.Or(N.op[p] == N.C["DependentMultiAssign"], z3.And(N.op[p] == N.C["LoopIndexedDep"], N.info(p, 1) == 1))
        if s[0][1] == "+=":
            return [("accumulates only into dependents of loops", z3.And(c.o(2), acc))]
        if s[0][1] == "=" and usesdep:
            return [("a dependent is assigned by the assignment of dependents", z3.And(c.o(2), z3.Not(acc)))]
        return [("a variable which is not a dependent is assigned", z3.And(zb(s[0][1] == "="), z3.Not(c.o(2))))]


class AsgStart1(WS):
    """start of the assignment of a node"""
    qn = LC + "pushAssignmentStart"

    def select(self, fn):
        return len(fn.ptys()) == 1

    def pre(self, c):
        N, p = Nodes(c), nodeptr(c.args[0])
        return [imp(N.op[p] == N.C["LoopIndexedDep"], N.ninfo(p) >= 2)]

    def apply(self, ex, st, fr, fn, this, args, e):
        p = nodeptr(args[0])
        return [(emit(st, StrV((("asg", p, (("name", p),), DEP(p)),))), None)]

    def post(self, c):
        p = nodeptr(c.args[0])
        return [("starts an assignment to the variable of the node", is_asg(c, out(c.st1).parts, p))]


def is_asg(c, parts, p):
    """pieces: start of an assignment to the variable of node p"""
    if len(parts) != 1 or parts[0][0] != "asg" or isinstance(parts[0], str):
        return z3.BoolVal(False)
    q = parts[0]
    if len(q[2]) != 1 or q[2][0][0] != "name":
        return z3.BoolVal(False)
    return z3.And(q[1] == p, q[2][0][1] == p, q[3] == DEP(p))


class AsgEnd(WS):
    """end of an assignment"""
    qn = LC + "pushAssignmentEnd"

    def apply(self, ex, st, fr, fn, this, args, e):
        return [(emit(st, StrV((";\n",))), None)]

    def post(self, c):
        parts = [x for x in out(c.st1).parts if x not in self.blank(c)]
        try:
            s = ctext.stmts("v0 = n0" + "".join(parts), {"v0": "d", "n0": "d"})
            return [("ends the statement", zb(len(s) == 1))]
        except (ctext.Bad, TypeError):
            return [("ends the statement", z3.BoolVal(False))]


class Cond(Text, WS):
    """conditional assignment"""
    qn = LC + "pushConditionalAssignment"
    names = tuple(COM)
    nargs = 4

    def more(self, c, N, p):
        return [VID(p) > 0]

    def post(self, c):
        N, p = Nodes(c), self.p(c)
        parts = [x for x in out(c.st1).parts if x not in self.blank(c)]
        res = {}
        cmpok = []
        for form in ("prim", "sum", "neglit"):
            text, types = "", {"v0": "d"}
            for q in parts:
                if isinstance(q, str):
                    text += q
                elif q[0] == "asg":
                    if not sure(c, is_asg(c, (q,), p)):
                        return [("assigns the variable of the node", z3.BoolVal(False))]
                    text += "v0 = "
                elif q[0] == "cmp":
                    cmpok.append(q[1] == N.op[p])
                    text += "<"
                elif q[0] == "arg" and sure(c, q[1] == p) and z3.is_int_value(z3.simplify(q[2])):
                    i = z3.simplify(q[2]).as_long()
                    for l in "abcd":
                        types["n%d%s" % (i, l)] = "d"
                    text += FORMS[form][0].replace("%d", str(i))
                else:
                    return [("unexpected piece %r" % (q,), z3.BoolVal(False))]
            val = lambda i: ctext.value(ctext.parse(FORMS[form][0].replace("%d", str(i)), types))
            try:
                ss = ctext.stmts(text, types)
                k, cond = self.shape(c, N, p, ss, val)
            except ctext.Bad as x:
                k, cond = "%r: %s" % (text, x), z3.BoolVal(False)
            res[k] = cond
        return list(res.items()) + [("the comparison of the node is written", z3.And(cmpok + [z3.BoolVal(True)]))]

    def shape(self, c, N, p, ss, val):
        def asg(s, i):
            return len(s) == 1 and s[0][0] == "asg" and s[0][1] == "=" and s[0][2][0] == "id" and ctext.same(ctext.value(s[0][3]), val(i))
        if asg(ss, 2) or asg(ss, 3):
            same = z3.Or(z3.And(N.a(p, 2) == N.a(p, 3), N.a(p, 2) != 0), z3.And(N.a(p, 2) == 0, N.a(p, 3) == 0, N.v(p, 2) == N.v(p, 3)))
            return "unconditional assignment only when both cases are the same", same
        if len(ss) != 1 or ss[0][0] != "if":
            return "%r is not a conditional assignment" % (ss,), z3.BoolVal(False)
        cn, a, b = ss[0][1:]
        if cn[0] != "<" or not ctext.same(ctext.value(cn[3]), val(0)) or not ctext.same(ctext.value(cn[4]), val(1)):
            return "the first two operands are compared", z3.BoolVal(False)
        return "the true and the false case are assigned in their branches", zb(asg(a, 2) and b is not None and asg(b, 3))


class CallOnly(Assumed):
    """writes the statements of an operation that is not an expression"""

    def apply(self, ex, st, fr, fn, this, args, e):
        r = fconst("lines", I) if fn.ret.k != "void" else None
        return [(emit(st, StrV((("stmt", self.nm, nodeptr(args[0])),))), r)]


STMT = {"ArrayCreation": "pushArrayCreationOp", "SparseArrayCreation": "pushSparseArrayCreationOp", "ArrayElement": "pushArrayElementOp", "AtomicForward": "pushAtomicForwardOp", "AtomicReverse": "pushAtomicReverseOp",
        "Inv": "pushIndependentVariableName", "Pri": "pushPrintOperation", "DependentMultiAssign": "pushDependentMultiAssign", "IndexAssign": "pushIndexAssign", "LoopStart": "pushLoopStart",
        "LoopIndexedIndep": "pushLoopIndexedIndep", "LoopIndexedDep": "pushLoopIndexedDep", "LoopIndexedTmp": "pushLoopIndexedTmp", "Tmp": "pushTmpVar", "LoopEnd": "pushLoopEnd", "IndexCondExpr": "pushIndexCondExprOp",
        "StartIf": "pushStartIf", "ElseIf": "pushElseIf", "Else": "pushElse", "EndIf": "pushEndIf", "CondResult": "pushCondResult", "UserCustom": "pushUserCustom"}
SILENT = ["Index", "IndexDeclaration", "TmpDcl"]


def stmtspec(name):
    k = type("S_" + name, (CallOnly,), {"qn": LC + name, "nm": name})
    return k()


class Dispatch(L):
    """every operation is written by its own function"""
    qn = LC + "pushExpressionNoVarCheck"

    def pre(self, c):
        N, p = Nodes(c), nodeptr(c.args[0])
        r = []
        for s in TEXTS:
            op = N.isop(p, s.ops(c))
            r.append(imp(op, N.nargs(p) == s.nargs))
            for i in range(s.nargs):
                r.append(imp(op, z3.And((N.a(p, i) == 0) == N.has(p, i), N.a(p, i) >= 0)))
            r += [imp(op, q) for q in s.more(c, N, p)]
        return r

    def known(self, c):
        return [n for s in TEXTS for n in s.ops(c)] + list(STMT) + SILENT

    def apply(self, ex, st, fr, fn, this, args, e):
        c = Ctx(ex, fn, args, this, st)
        return [(emit(st, StrV((("expr", nodeptr(args[0])),))), fconst("lines", I))]

    def throw_when(self, c):
        return z3.Not(Nodes(c).isop(nodeptr(c.args[0]), self.known(c)))

    def post(self, c):
        N, p = Nodes(c), nodeptr(c.args[0])
        parts = out(c.st1).parts
        if not parts:
            return [("nothing is written only for declarations", N.isop(p, SILENT))]
        q = parts[0]
        if len(parts) != 1 or isinstance(q, str):
            return [("one function writes the operation", z3.BoolVal(False))]
        if q[0] == "expr":
            return [("the operation itself is written", z3.And(q[1] == p, N.isop(p, [n for s in TEXTS for n in s.ops(c)])))]
        if q[0] == "stmt":
            return [("%s writes its own operation" % q[1], z3.And(q[2] == p, N.isop(p, [k for k, v in STMT.items() if v == q[1]])))]
        return [("unexpected output", z3.BoolVal(False))]


class OpSet(L):
    """classification of operation codes"""

    def post(self, c):
        C = codes(c.ex.prog)
        return [("exactly the operations %s" % self.what, c.ret == z3.Or([c.o(0) == C[n] for n in self.names(C) if n in C]))]


class IsUnary(OpSet):
    qn = LC + "isUnaryFunction"
    what = "written as functions of one argument"

    def names(self, C):
        return list(FUN)


class IsFun(OpSet):
    qn = LC + "isFunction"
    what = "written as functions"

    def names(self, C):
        return list(FUN) + ["Pow"]


class IsCond(OpSet):
    qn = LC + "isCondAssign"
    what = "that are comparisons"

    def names(self, C):
        return list(COM)


class Direct(L):
    """whether an operation writes its own assignments"""
    qn = LC + "directlyAssignsVariable"
    names = list(COM) + ["Pri", "ArrayCreation", "SparseArrayCreation", "AtomicForward", "AtomicReverse", "DependentMultiAssign", "LoopStart", "LoopEnd", "IndexAssign", "StartIf", "ElseIf", "Else", "EndIf", "CondResult", "IndexDeclaration"]

    def apply(self, ex, st, fr, fn, this, args, e):
        c = Ctx(ex, fn, args, this, st)
        return [(st, Nodes(c).isop(nodeptr(args[0]), self.names))]

    def post(self, c):
        return [("exactly the operations that are statements", c.ret == Nodes(c).isop(nodeptr(c.args[0]), self.names))]


class Expr2(Assumed):
    """expression of a node (operand nodes expanded by the stream)"""
    qn = LC + "pushExpressionNoVarCheck2"

    def apply(self, ex, st, fr, fn, this, args, e):
        return [(emit(st, StrV((("expr", nodeptr(args[0])),))), fconst("lines", I))]


class Flush(Assumed):
    """the stream is written out"""
    qn = NS + "LangStreamStack<double>::flush"

    def apply(self, ex, st, fr, fn, this, args, e):
        return [(st, None)]


class PushAsg(WS):
    """assignment of the expression of a node"""
    qn = LC + "pushAssignment"

    def select(self, fn):
        return fn.ptys()[1].to().rec().name == NS + "OperationNode"

    def pre(self, c):
        N, v, p = Nodes(c), nodeptr(c.args[0]), nodeptr(c.args[1])
        return [N.op[p] != N.C["ArrayElement"], imp(N.op[v] == N.C["LoopIndexedDep"], N.ninfo(v) >= 2)]

    def apply(self, ex, st, fr, fn, this, args, e):
        return [(emit(st, StrV((("assignment", nodeptr(args[0]), nodeptr(args[1])),))), fconst("lines", I))]

    def post(self, c):
        N, v, p = Nodes(c), nodeptr(c.args[0]), nodeptr(c.args[1])
        parts = list(out(c.st1).parts)
        direct = N.isop(p, Direct.names)
        if len(parts) == 1 and parts[0][0] == "expr" and not isinstance(parts[0], str):
            return [("only statements are written without an assignment", z3.And(direct, parts[0][1] == p))]
        if len(parts) >= 3 and not isinstance(parts[1], str) and parts[1][0] in ("expr", "param"):
            end = "".join(x for x in parts[2:] if isinstance(x, str)).strip()
            return [("the expression is assigned to the variable of the node", z3.And(is_asg(c, parts[:1], v), self.rhs(c, parts[1], p), z3.Not(direct), zb(end == ";")))]
        return [("unexpected output %r" % (parts,), z3.BoolVal(False))]

    def rhs(self, c, q, p):
        return z3.And(zb(q[0] == "expr"), q[1] == p)


class PushAsgArg(WS):
    """assignment of an operand"""
    qn = LC + "pushAssignment"
    make_arg = lambda self, ex, st, fn, n, t: Push.make_arg(self, ex, st, fn, n, t) if n == "nodeRhs" or n == 1 else None

    def select(self, fn):
        return fn.ptys()[1].to().rec().name == NS + "Argument"

    def pre(self, c):
        N, v = Nodes(c), nodeptr(c.args[0])
        p, i = argpos(c.args[1])
        o = N.a(p, i)
        return [p > 0, i >= 0, i < N.nargs(p), (o == 0) == N.has(p, i), o >= 0, imp(o != 0, N.op[o] != N.C["ArrayElement"]), imp(N.op[v] == N.C["LoopIndexedDep"], N.ninfo(v) >= 2)]

    def post(self, c):
        N, v = Nodes(c), nodeptr(c.args[0])
        p, i = argpos(c.args[1])
        o = N.a(p, i)
        parts = list(out(c.st1).parts)
        if len(parts) == 1 and parts[0][0] == "assignment" and not isinstance(parts[0], str):
            return [("the operand is assigned to the variable of the node", z3.And(o != 0, parts[0][1] == v, parts[0][2] == o))]
        if len(parts) >= 3 and not isinstance(parts[1], str) and parts[1][0] == "param":
            end = "".join(x for x in parts[2:] if isinstance(x, str)).strip()
            return [("the constant is assigned to the variable of the node", z3.And(is_asg(c, parts[:1], v), o == 0, parts[1][1] == N.v(p, i), zb(end == ";")))]
        return [("unexpected output %r" % (parts,), z3.BoolVal(False))]


class Comparison(L):
    """comparison operator"""
    qn = LC + "getComparison"

    def pre(self, c):
        C = codes(c.ex.prog)
        return [z3.Or([c.o(0) == C[k] for k in COM])]

    def apply(self, ex, st, fr, fn, this, args, e):
        c = Ctx(ex, fn, args, this, st)
        for nm, q in named(self.pre(c), "comparison operation"):
            st = ex.oblige(st, q, "precondition of %s: %s" % (fn.name, nm), ex.locs(e.get("l")), "pre")
        st, r = ex.temp(st, StrV((("cmp", args[0]),)))
        return [(st, r)]

    def post(self, c):
        C = codes(c.ex.prog)
        v = c.ret
        if isinstance(v, Ref):
            v = c.ex.read(c.st1, v)
        v = stl.tostr(v)
        if len(v.parts) != 1 or not isinstance(v.parts[0], str):
            return [("a literal", z3.BoolVal(False))]
        return [("%s is written for its own comparison" % v.parts[0], z3.Or([c.o(0) == C[k] for k, t in COM.items() if t == v.parts[0]]))]


def zb(x):
    return z3.BoolVal(bool(x))


TEXTS = [Unary(), Pow(), Alias(), Assign(), Add(), Sub(), Mul(), Div(), Neg(), Sign(), Cond()]
SPECS = [EncloseMul(), EncloseDiv(), Emit(), Name(), IndepName(), VarId(), IsDep(), Expr2(), Flush(), Push(), PushExpr(), Param(), PrintParam(), AsgStart(), AsgStart1(), AsgEnd(), Comparison(), Dispatch(), IsUnary(), IsFun(), IsCond(), Direct(), PushAsg(), PushAsgArg()] + TEXTS + [stmtspec(n) for n in sorted(set(STMT.values()))]
