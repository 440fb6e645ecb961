"""Parsing of emitted C text.

A contract over emitted text collects, per execution path of the real function, the exact sequence of pieces it writes:
literal characters and *holes* (operand, name, constant, integer).  The contract says, for each syntactic class a hole's own
text can have, what that text is in general form; the resulting C text is parsed here by the C expression grammar (typed:
int / double) and its value compared with the specified operation in exact arithmetic."""
import re
import sympy

TOK = re.compile(r"\s*(?:(\d+\.\d*(?:[eE][-+]?\d+)?|\d+[eE][-+]?\d+|\.\d+)|(\d+)([uUlL]*)|([A-Za-z_]\w*)|(\+\+|--|->|<<=|>>=|<<|>>|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|\"(?:[^\"\\]|\\.)*\"|[-+*/%<>=!&|^~?:;,(){}\[\].]))")


class Bad(Exception):
    pass


class P:
    """recursive descent over the C expression grammar.  AST: (kind, type, level, ...)"""
    BIN = [["||"], ["&&"], ["==", "!="], ["<", ">", "<=", ">="], ["+", "-"], ["*", "/", "%"]]
    LV = {"||": 8, "&&": 7, "==": 6, "!=": 6, "<": 5, ">": 5, "<=": 5, ">=": 5, "+": 4, "-": 4, "*": 3, "/": 3, "%": 3}

    def __init__(self, text, types):
        """types: name -> 'd' | 'i' | ('f', arity) for functions of doubles"""
        self.t, p, self.types = [], 0, types
        text = text.rstrip()
        while p < len(text):
            m = TOK.match(text, p)
            if not m:
                raise Bad("lexical error at %r" % text[p:p + 20])
            if m.group(1):
                self.t.append(("flt", m.group(1)))
            elif m.group(2):
                self.t.append(("int", m.group(2)))
            elif m.group(4):
                self.t.append(("id", m.group(4)))
            else:
                self.t.append(("op", m.group(5)))
            p = m.end()
            if m.group(1) or m.group(2):
                if p < len(text) and (text[p].isalnum() or text[p] in "_."):
                    raise Bad("malformed number at %r" % text[m.start():p + 5])
        self.n = 0

    def peek(self):
        return self.t[self.n] if self.n < len(self.t) else ("eof", "")

    def nxt(self):
        x = self.peek()
        self.n += 1
        return x

    def want(self, o):
        x = self.nxt()
        if x != ("op", o):
            raise Bad("expected %r, found %r" % (o, x[1]))

    def isop(self, o):
        return self.peek() == ("op", o)

    def expr(self):
        c = self.binary(0)
        if self.isop("?"):
            self.nxt()
            a = self.expr()
            self.want(":")
            b = self.expr()
            ty = "d" if "d" in (a[1], b[1]) else "i"
            return ("?", ty, 9, c, a, b)
        return c

    def binary(self, l):
        if l == len(self.BIN):
            return self.unary()
        a = self.binary(l + 1)
        while self.peek()[0] == "op" and self.peek()[1] in self.BIN[l]:
            o = self.nxt()[1]
            b = self.binary(l + 1)
            ty = "d" if "d" in (a[1], b[1]) else "i"
            if o in ("||", "&&", "==", "!=", "<", ">", "<=", ">="):
                ty = "i"
            if o == "%" and "d" in (a[1], b[1]):
                raise Bad("% of a double")
            a = (o, ty, self.LV[o], a, b)
        return a

    def unary(self):
        x = self.peek()
        if x[0] == "op" and x[1] in ("-", "+", "!"):
            self.nxt()
            a = self.unary()
            return ("u" + x[1], "i" if x[1] == "!" else a[1], 2, a)
        return self.primary()

    def primary(self):
        k, v = self.nxt()
        if k == "flt":
            return ("num", "d", 0, sympy.Rational(v.rstrip(".") if v.endswith(".") else v))
        if k == "int":
            if len(v) > 1 and v[0] == "0":
                raise Bad("octal constant " + v)
            return ("num", "i", 0, sympy.Integer(v))
        if k == "id":
            ty = self.types.get(v)
            if ty is None:
                raise Bad("unknown name " + v)
            if isinstance(ty, tuple):
                self.want("(")
                args = []
                if not self.isop(")"):
                    args.append(self.expr())
                    while self.isop(","):
                        self.nxt()
                        args.append(self.expr())
                self.want(")")
                if len(args) != ty[1]:
                    raise Bad("wrong number of arguments of " + v)
                return ("call", "d", 0, v, args)
            r = ("id", ty, 0, v)
            while self.isop("["):
                self.nxt()
                i = self.expr()
                self.want("]")
                if i[1] != "i":
                    raise Bad("array index is not an integer")
                r = ("idx", "d", 0, r, i)
            return r
        if (k, v) == ("op", "("):
            e = self.expr()
            self.want(")")
            return ("par", e[1], 0, e)
        raise Bad("unexpected %r" % (v,))

    def done(self):
        return self.n >= len(self.t)


def parse(text, types):
    p = P(text, types)
    e = p.expr()
    if not p.done():
        raise Bad("text after the expression: %r" % (p.peek()[1],))
    return e


def value(e):
    """mathematical value (sympy); integer division is only allowed through idiv"""
    k = e[0]
    if k == "num":
        return e[3]
    if k == "id":
        return sympy.Symbol(e[3])
    if k == "par":
        return value(e[3])
    if k == "u-":
        return -value(e[3])
    if k == "u+":
        return value(e[3])
    if k in ("+", "-", "*"):
        a, b = value(e[3]), value(e[4])
        return a + b if k == "+" else a - b if k == "-" else a * b
    if k == "/":
        if e[1] == "i":
            return sympy.Function("idiv")(value(e[3]), value(e[4]))
        b = value(e[4])
        if b == 0:
            raise Bad("division by zero")
        return value(e[3]) / b
    if k == "%":
        return sympy.Function("imod")(value(e[3]), value(e[4]))
    if k == "call":
        return sympy.Function(e[3])(*[value(a) for a in e[4]])
    if k == "idx":
        return sympy.Function("idx_" + e[3][3])(value(e[4])) if e[3][0] == "id" else sympy.Function("idx")(value(e[3]), value(e[4]))
    raise Bad("no arithmetic value for " + k)


def comparisons(e):
    out = []
    if e[0] in ("<", ">", "<=", ">=", "==", "!="):
        out.append(e)
    for x in e[3:]:
        if isinstance(x, tuple):
            out += comparisons(x)
        elif isinstance(x, list):
            for y in x:
                out += comparisons(y)
    return out


def at(e, env):
    """value at a point (conditions decided)"""
    k = e[0]
    if k == "num":
        return e[3]
    if k == "id":
        return env[e[3]]
    if k == "par":
        return at(e[3], env)
    if k == "u-":
        return -at(e[3], env)
    if k == "?":
        return at(e[4], env) if at(e[3], env) != 0 else at(e[5], env)
    if k in ("+", "-", "*", "<", ">", "<=", ">=", "==", "!="):
        a, b = at(e[3], env), at(e[4], env)
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<": lambda: sympy.Integer(bool(a < b)), ">": lambda: sympy.Integer(bool(a > b)), "<=": lambda: sympy.Integer(bool(a <= b)), ">=": lambda: sympy.Integer(bool(a >= b)), "==": lambda: sympy.Integer(bool(a == b)), "!=": lambda: sympy.Integer(bool(a != b))}[k]()
    if k == "/" and e[1] == "d":
        return at(e[3], env) / at(e[4], env)
    raise Bad("no value for " + k)


def same(a, b):
    if a == b:
        return True
    return sympy.cancel(sympy.together(a - b)) == 0


def stmts(text, types):
    """statement sequence: assignments `name (=|op=) e ;`, if/else.  -> list"""
    p = P(text, types)

    def seq(end):
        out = []
        while not p.done() and not (end and p.isop("}")):
            out.append(stmt())
        return out

    def stmt():
        k, v = p.peek()
        if (k, v) == ("id", "if"):
            p.nxt()
            p.want("(")
            c = p.expr()
            p.want(")")
            p.want("{")
            a = seq(True)
            p.want("}")
            b = None
            if p.peek() == ("id", "else"):
                p.nxt()
                p.want("{")
                b = seq(True)
                p.want("}")
            return ("if", c, a, b)
        lhs = p.primary()
        o = p.nxt()[1]
        if o not in ("=", "+=", "-=", "*=", "/="):
            raise Bad("no assignment: %r" % o)
        e = p.expr()
        p.want(";")
        return ("asg", o, lhs, e)
    out = seq(False)
    return out
