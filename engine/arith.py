"""Opaque nonlinear arithmetic (opts {"uf": True}): products and quotients of two non-constant operands are uninterpreted
functions with a few lemmas.  Every lemma is itself an obligation, proved for the real operations in the same run."""
import z3

I = z3.IntSort()
MUL = z3.Function("prod_", I, I, I)
DIV = z3.Function("quot_", I, I, I)


def lemmas(mul, div):
    a, b, c = z3.Ints("a b c")
    F = lambda vs, body, *pats: z3.ForAll(vs, body, patterns=[z3.MultiPattern(*p) if len(p) > 1 else p[0] for p in pats]) if mul is MUL else z3.ForAll(vs, body)
    m, d = mul, div
    return [
        ("product with 0 and 1", F([a, b], z3.And(z3.Implies(b == 0, m(a, b) == 0), z3.Implies(b == 1, m(a, b) == a), z3.Implies(b == -1, m(a, b) == -a)), (m(a, b),))),
        ("product is commutative", F([a, b], m(a, b) == m(b, a), (m(a, b),))),
        ("product is injective", F([a, b, c], z3.Or(c == 0, a == b, m(a, c) != m(b, c)), (m(a, c), m(b, c)))),
        ("product with the next number", F([a, b, c], z3.Implies(a == b + 1, m(a, c) == m(b, c) + c), (m(a, c), m(b, c)))),
        ("quotient by 1", F([a, b], z3.Implies(b == 1, d(a, b) == a), (d(a, b),))),
        ("quotient of a non-negative number", F([a, b], z3.Implies(z3.And(a >= 0, b > 0), z3.And(d(a, b) >= 0, d(a, b) <= a, m(b, d(a, b)) <= a, a - m(b, d(a, b)) < b)), (d(a, b),))),
        ("quotient grows with the dividend", F([a, b, c], z3.And(z3.Implies(z3.And(b > 0, c >= a), d(c, b) >= d(a, b)), z3.Implies(z3.And(b > 0, c >= a + b), d(c, b) >= d(a, b) + 1), z3.Implies(z3.And(b > 0, c == a + b), d(c, b) == d(a, b) + 1)), (d(a, b), d(c, b)))),
    ]


def native():
    return lemmas(lambda a, b: a * b, lambda a, b: a / b)


def axioms():
    return [f for _, f in lemmas(MUL, DIV)]


def const(x):
    return z3.is_int_value(z3.simplify(x))


def mul(a, b):
    return a * b if const(a) or const(b) else MUL(a, b)


def udiv(a, b):
    return a / b if const(b) else DIV(a, b)
