// E01: every operator/function on every mix of operand kinds; the recorded graph is evaluated by an independent oracle.
#include <cppad/cg/cppadcg.hpp>
#include "h.hpp"
using namespace CppAD;
using namespace CppAD::cg;
typedef CG<double> G;
typedef OperationNode<double> Nd;
static std::map<const Nd*, double> indep;
static double ev(const Nd& n);
static double ev(const Argument<double>& a) { return a.getOperation() ? ev(*a.getOperation()) : *a.getParameter(); }
static double ev(const Nd& n) {
    auto it = indep.find(&n);
    if (it != indep.end()) return it->second;
    std::vector<double> a;
    for (auto& x : n.getArguments()) a.push_back(ev(x));
    auto one = [&](double (*f)(double)) { if (a.size() != 1) throw std::runtime_error("number of arguments"); return f(a[0]); };
    auto two = [&]() { if (a.size() != 2) throw std::runtime_error("number of arguments"); };
    auto four = [&](bool c) { if (a.size() != 4) throw std::runtime_error("number of arguments"); return c ? a[2] : a[3]; };
    switch (n.getOperationType()) {
        case CGOpCode::Add: two(); return a[0] + a[1];
        case CGOpCode::Sub: two(); return a[0] - a[1];
        case CGOpCode::Mul: two(); return a[0] * a[1];
        case CGOpCode::Div: two(); return a[0] / a[1];
        case CGOpCode::Pow: two(); return std::pow(a[0], a[1]);
        case CGOpCode::UnMinus: return one([](double x) { return -x; });
        case CGOpCode::Sign: return one([](double x) { return x > 0 ? 1.0 : x < 0 ? -1.0 : 0.0; });
        case CGOpCode::Abs: return one([](double x) { return std::fabs(x); });
#define O(C, f) case CGOpCode::C: return one([](double x) -> double { return std::f(x); });
        O(Acos, acos) O(Acosh, acosh) O(Asin, asin) O(Asinh, asinh) O(Atan, atan) O(Atanh, atanh) O(Cos, cos) O(Cosh, cosh) O(Erf, erf) O(Erfc, erfc)
        O(Exp, exp) O(Expm1, expm1) O(Log, log) O(Log1p, log1p) O(Sin, sin) O(Sinh, sinh) O(Sqrt, sqrt) O(Tan, tan) O(Tanh, tanh)
        case CGOpCode::ComLt: return four(a[0] < a[1]);
        case CGOpCode::ComLe: return four(a[0] <= a[1]);
        case CGOpCode::ComEq: return four(a[0] == a[1]);
        case CGOpCode::ComGe: return four(a[0] >= a[1]);
        case CGOpCode::ComGt: return four(a[0] > a[1]);
        case CGOpCode::ComNe: return four(a[0] != a[1]);
        case CGOpCode::Alias: case CGOpCode::Assign: return one([](double x) { return x; });
        default: throw std::runtime_error("unexpected operation");
    }
}
static double den(const G& g) { return g.isParameter() ? g.getValue() : ev(*g.getOperationNode()); }
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b)); }
static std::string sh(const G& g) { std::ostringstream o; if (g.isParameter()) o << "const " << g.getValue(); else { o << "var=" << den(g); if (g.isValueDefined()) o << "(known " << g.getValue() << ")"; } return o.str(); }
static const double VALS[] = {0, 1, -1, 2, -2.5, 0.5, -0.25, 3};
static std::vector<G> operands(CodeHandler<double>& h) {
    std::vector<G> v;
    for (double x : VALS) {
        v.push_back(G(x));
        G a; h.makeVariable(a); indep[a.getOperationNode()] = x; v.push_back(a);
        G b; h.makeVariable(b); indep[b.getOperationNode()] = x; b.setValue(x); v.push_back(b);
    }
    return v;
}
static bool selfNaN(double x) { return std::isnan(x) || std::isinf(x); }
// exact: result of the operation in double arithmetic; simplifications are exact for finite defined results
static void res(const G& r, double want, bool allKnown, bool allConst, CodeHandler<double>* h) {
    if (r.isParameter()) { h::check(r.isValueDefined(), "constant without a value"); }
    else {
        h::check(!allConst, "constants give a variable");
        h::check(r.getCodeHandler() == h, "wrong handler");
    }
    if (!selfNaN(want)) h::check(same(den(r), want), "denotes " + sh(r) + " instead of " + std::to_string(want));
    if (!r.isParameter()) h::check(r.isValueDefined() == allKnown, allKnown ? "value missing" : "value attached although an operand has none");
    if (!r.isParameter() && r.isValueDefined() && !selfNaN(want)) h::check(same(r.getValue(), want), "known value " + std::to_string(r.getValue()) + " instead of " + std::to_string(want));
}
template<class F, class D> void binary(const char* name, F f, D d, bool div) {
    CodeHandler<double> h; indep.clear();
    auto v = operands(h);
    for (auto& a : v) for (auto& b : v) {
        double x = den(a), y = den(b);
        if (div && y == 0) continue;
        h::begin(std::string("binary ") + name, sh(a) + " " + name + " " + sh(b));
        G a0 = a, b0 = b;
        G r = f(a, b);
        res(r, d(x, y), a.isValueDefined() && b.isValueDefined(), a.isParameter() && b.isParameter(), &h);
        h::check(a.getOperationNode() == a0.getOperationNode() && a.isValueDefined() == a0.isValueDefined() && b.getOperationNode() == b0.getOperationNode() && b.isValueDefined() == b0.isValueDefined(), "operand changed");
    }
}
template<class F, class D> void compound(const char* name, F f, D d, bool div) {
    CodeHandler<double> h; indep.clear();
    auto v = operands(h);
    for (auto& a : v) for (auto& b : v) {
        double x = den(a), y = den(b);
        if (div && y == 0) continue;
        h::begin(std::string("compound ") + name, sh(a) + " " + name + " " + sh(b));
        G r = a, b0 = b;
        f(r, b);
        res(r, d(x, y), a.isValueDefined() && b.isValueDefined(), a.isParameter() && b.isParameter(), &h);
        h::check(same(den(b), y) && b.isValueDefined() == b0.isValueDefined(), "right operand changed");
        if (&a == &b) {
            h::begin(std::string("compound self ") + name, sh(a) + " " + name + " itself");
            G s = a; f(s, s);
            res(s, d(x, x), a.isValueDefined(), a.isParameter(), &h);
        }
    }
}
template<class F, class D> void mixed(const char* name, F f, D d, bool rightG, bool div) {
    CodeHandler<double> h; indep.clear();
    auto v = operands(h);
    for (auto& a : v) for (double k : VALS) {
        double x = den(a);
        if (div && (rightG ? x : k) == 0) continue;
        h::begin(std::string("number ") + name, sh(a) + " with number " + std::to_string(k));
        G r = f(a, k);
        res(r, rightG ? d(k, x) : d(x, k), a.isValueDefined(), a.isParameter(), &h);
    }
}
template<class F, class D> void ints(const char* name, F f, D d, bool rightG, bool div) {
    CodeHandler<double> h; indep.clear();
    auto v = operands(h);
    for (auto& a : v) for (int k = -2; k <= 3; k++) {
        double x = den(a);
        if (div && (rightG ? x : k) == 0) continue;
        h::begin(std::string("integer ") + name, sh(a) + " with integer " + std::to_string(k));
        G r = f(a, k);
        res(r, rightG ? d(k, x) : d(x, k), a.isValueDefined(), a.isParameter(), &h);
    }
}
#define OPS(op, name, div) \
    SECTION(bin_##name) { binary(#op, [](const G& a, const G& b) { return a op b; }, [](double a, double b) { return a op b; }, div); } \
    SECTION(cmp_##name) { compound(#op "=", [](G& a, const G& b) { a op##= b; }, [](double a, double b) { return a op b; }, div); } \
    SECTION(num_##name) { auto d = [](double a, double b) { return a op b; }; \
        mixed(#op " right", [](const G& a, double b) { return a op b; }, d, false, div); \
        mixed(#op " left", [](const G& a, double b) { return b op a; }, d, true, div); \
        mixed(#op "= number", [](const G& a, double b) { G r = a; r op##= b; return r; }, d, false, div); \
        ints(#op " right", [](const G& a, int b) { return a op b; }, d, false, div); \
        ints(#op " left", [](const G& a, int b) { return b op a; }, d, true, div); \
        ints(#op "= number", [](const G& a, int b) { G r = a; r op##= b; return r; }, d, false, div); }
OPS(+, add, false) OPS(-, sub, false) OPS(*, mul, false) OPS(/, div, true)
SECTION(pow) {
    auto d = [](double a, double b) { return std::pow(a, b); };
    binary("pow", [](const G& a, const G& b) { return CppAD::pow(a, b); }, d, false);
    mixed("pow right", [](const G& a, double b) { return CppAD::pow(a, b); }, d, false, false);
    mixed("pow left", [](const G& a, double b) { return CppAD::pow(b, a); }, d, true, false);
    ints("pow left int", [](const G& a, int b) { return CppAD::pow<double>(b, a); }, d, true, false);
}
SECTION(unary) {
    CodeHandler<double> h; indep.clear();
    auto v = operands(h);
#define U(name, expr, want) for (auto& a : v) { double x = den(a); h::begin(name, std::string(name) + " of " + sh(a)); G r = expr; res(r, want, a.isValueDefined(), a.isParameter(), &h); }
    U("unary +", +a, x) U("unary -", -a, -x)
#define M(f) U(#f, CppAD::f(a), std::f(x))
    M(abs) M(fabs) M(acos) M(asin) M(atan) M(cos) M(cosh) M(exp) M(log) M(sin) M(sinh) M(sqrt) M(tan) M(tanh) M(erf) M(erfc) M(asinh) M(acosh) M(atanh) M(expm1) M(log1p) M(log10)
    U("sign", CppAD::sign(a), x > 0 ? 1.0 : x < 0 ? -1.0 : 0.0)
}
SECTION(cond) {
    CodeHandler<double> h; indep.clear();
    auto v = operands(h);
    v.resize(12);
    for (int k = 0; k < 10; k++)
        for (auto& a : v) for (auto& b : v) for (auto& t : v) for (auto& f : v) {
            double x = den(a), y = den(b);
            int q = k % 5;
            bool c = q == 0 ? x < y : q == 1 ? x <= y : q == 2 ? x == y : q == 3 ? x >= y : x > y;
            h::begin("CondExp", std::string("comparison ") + std::to_string(k) + ": " + sh(a) + ", " + sh(b) + ", " + sh(t) + ", " + sh(f));
            CompareOp ops[] = {CompareLt, CompareLe, CompareEq, CompareGe, CompareGt};
            G r = k >= 5 ? CppAD::CondExpOp(ops[q], a, b, t, f) : q == 0 ? CppAD::CondExpLt(a, b, t, f) : q == 1 ? CppAD::CondExpLe(a, b, t, f) : q == 2 ? CppAD::CondExpEq(a, b, t, f) : q == 3 ? CppAD::CondExpGe(a, b, t, f) : CppAD::CondExpGt(a, b, t, f);
            double want = c ? den(t) : den(f);
            h::check(same(den(r), want), "denotes " + sh(r));
            bool all = a.isValueDefined() && b.isValueDefined() && t.isValueDefined() && f.isValueDefined();
            if (all) h::check(r.isValueDefined(), "value missing");
            if (a.isValueDefined() && b.isValueDefined()) {
                const G& s = c ? t : f;
                if (s.isValueDefined() && r.isValueDefined()) h::check(same(r.getValue(), s.getValue()), "wrong value");
                if (!s.isValueDefined() && !r.isParameter() && !(t.isVariable() && t.getOperationNode() == f.getOperationNode())) h::check(!r.isValueDefined(), "value attached although the selected operand has none");
            }
        }
}
static bool rejects(std::function<void()> f) { try { f(); } catch (const CGException&) { return true; } return false; }
SECTION(handlers) {
    CodeHandler<double> h1, h2; indep.clear();
    for (int k = 0; k < 4; k++) {
        G a, b; h1.makeVariable(a); h2.makeVariable(b); indep[a.getOperationNode()] = 2; indep[b.getOperationNode()] = 3;
        if (k & 1) a.setValue(2);
        if (k & 2) b.setValue(3);
        G one(1.0), two(2.0);
        h::begin("handler mismatch", "k=" + std::to_string(k));
        h::check(rejects([&] { a + b; }), "a + b accepted");
        h::check(rejects([&] { a - b; }), "a - b accepted");
        h::check(rejects([&] { a * b; }), "a * b accepted");
        h::check(rejects([&] { a / b; }), "a / b accepted");
        h::check(rejects([&] { CppAD::CondExpLt(a, b, one, two); }), "CondExp(a,b,.,.) accepted");
        h::check(rejects([&] { CppAD::CondExpEq(a, one, b, two); }), "CondExp(a,.,b,.) accepted");
        h::check(rejects([&] { CppAD::CondExpGt(a, one, two, b); }), "CondExp(a,.,.,b) accepted");
        h::check(rejects([&] { CppAD::CondExpGe(one, a, b, one); }), "CondExp(.,a,b,.) accepted");
        h::check(rejects([&] { CppAD::CondExpLe(one, a, one, b); }), "CondExp(.,a,.,b) accepted");
    }
}
SECTION(compare) {
    CodeHandler<double> h; indep.clear();
    auto v = operands(h);
    for (auto& a : v) for (auto& b : v) {
        double x = den(a), y = den(b);
        h::begin("comparison", sh(a) + " vs " + sh(b));
        bool con = a.isParameter() && b.isParameter();
        bool eq = con ? x == y : a.isVariable() && b.isVariable() && a.getOperationNode() == b.getOperationNode();
        h::check((a == b) == eq, "==");
        h::check((a != b) == !eq, "!=");
        if (con) h::check((a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "order");
        else h::check(rejects([&] { a < b; }) && rejects([&] { a <= b; }) && rejects([&] { a > b; }) && rejects([&] { a >= b; }), "order of variables accepted");
        h::check((a == y) == (a.isParameter() && x == y) && (x == b) == (b.isParameter() && x == y), "== number");
        h::check((x != b) == !(b.isParameter() && x == y), "!= number");
        h::check(CppAD::IdenticalEqualCon(a, b) == (con && x == y), "IdenticalEqualCon");
        if (con) h::check(CppAD::abs_geq(a, b) == (std::fabs(x) >= std::fabs(y)), "abs_geq");
        else h::check(rejects([&] { CppAD::abs_geq(a, b); }), "abs_geq of variables accepted");
    }
    for (auto& a : v) {
        double x = den(a);
        bool p = a.isParameter();
        h::begin("predicates", sh(a));
        h::check(a.isVariable() == !p && a.isIdenticalZero() == (p && x == 0) && a.isIdenticalOne() == (p && x == 1), "isIdentical");
        h::check(CppAD::IdenticalZero(a) == (p && x == 0) && CppAD::IdenticalOne(a) == (p && x == 1) && CppAD::IdenticalCon(a) == p, "Identical");
        if (p) h::check(CppAD::GreaterThanZero(a) == (x > 0) && CppAD::GreaterThanOrZero(a) == (x >= 0) && CppAD::LessThanZero(a) == (x < 0) && CppAD::LessThanOrZero(a) == (x <= 0), "sign predicates");
        if (!a.isValueDefined()) h::check(rejects([&] { a.getValue(); }), "getValue of a variable without value accepted");
        else h::check(same(a.getValue(), x), "getValue");
        for (auto& b : v) {
            h::begin("assignment", sh(b) + " = " + sh(a));
            G c = b; c = a;
            h::check(c.getOperationNode() == a.getOperationNode() && c.isValueDefined() == a.isValueDefined() && (!a.isValueDefined() || c.getValue() == a.getValue()), "copy assignment");
            G d = b; G e = a; d = std::move(e);
            h::check(d.getOperationNode() == a.getOperationNode() && d.isValueDefined() == a.isValueDefined() && (!a.isValueDefined() || d.getValue() == a.getValue()), "move assignment");
            G f = b; f = x;
            h::check(f.isParameter() && f.getValue() == x, "assignment of a number");
            c = c;
            h::check(c.getOperationNode() == a.getOperationNode() && c.isValueDefined() == a.isValueDefined(), "self assignment");
        }
    }
}
