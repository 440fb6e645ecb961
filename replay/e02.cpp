// E02: random operation graphs evaluated with new values, against the graph computed by an independent interpreter.
#include <cppad/cg/cppadcg.hpp>
#include "h.hpp"
using namespace CppAD;
using namespace CppAD::cg;
typedef CG<double> G;
typedef OperationNode<double> Nd;
typedef std::map<const Nd*, double> Env;
static const CGOpCode ONE[] = {CGOpCode::Assign, CGOpCode::Abs, CGOpCode::Acos, CGOpCode::Alias, CGOpCode::Asin, CGOpCode::Atan, CGOpCode::Cosh, CGOpCode::Cos, CGOpCode::Exp, CGOpCode::Log, CGOpCode::Sign,
    CGOpCode::Sinh, CGOpCode::Sin, CGOpCode::Sqrt, CGOpCode::Tanh, CGOpCode::Tan, CGOpCode::UnMinus};
static const CGOpCode TWO[] = {CGOpCode::Add, CGOpCode::Sub, CGOpCode::Mul, CGOpCode::Div, CGOpCode::Pow};
static const CGOpCode FOUR[] = {CGOpCode::ComLt, CGOpCode::ComLe, CGOpCode::ComEq, CGOpCode::ComGe, CGOpCode::ComGt, CGOpCode::ComNe};
struct Undef {};   // signs and comparisons of NaN are not specified
static double ev(const Nd& n, Env& m);
static double ev(const Argument<double>& a, Env& m) { return a.getOperation() ? ev(*a.getOperation(), m) : *a.getParameter(); }
static double ev(const Nd& n, Env& m) {
    auto it = m.find(&n);
    if (it != m.end()) return it->second;
    std::vector<double> a;
    for (auto& x : n.getArguments()) a.push_back(ev(x, m));
    double r;
    auto c = n.getOperationType();
    if (c == CGOpCode::Sign && std::isnan(a.at(0))) throw Undef();
    for (auto o : FOUR) if (c == o && (std::isnan(a.at(0)) || std::isnan(a.at(1)))) throw Undef();
    switch (n.getOperationType()) {
        case CGOpCode::Add: r = a.at(0) + a.at(1); break;
        case CGOpCode::Sub: r = a.at(0) - a.at(1); break;
        case CGOpCode::Mul: r = a.at(0) * a.at(1); break;
        case CGOpCode::Div: r = a.at(0) / a.at(1); break;
        case CGOpCode::Pow: r = std::pow(a.at(0), a.at(1)); break;
        case CGOpCode::UnMinus: r = -a.at(0); break;
        case CGOpCode::Sign: r = a.at(0) > 0 ? 1 : a[0] < 0 ? -1 : 0; break;
        case CGOpCode::Abs: r = std::fabs(a.at(0)); break;
        case CGOpCode::Assign: case CGOpCode::Alias: r = a.at(0); break;
#define O(C, f) case CGOpCode::C: r = std::f(a.at(0)); break;
        O(Acos, acos) O(Asin, asin) O(Atan, atan) O(Cosh, cosh) O(Cos, cos) O(Exp, exp) O(Log, log) O(Sinh, sinh) O(Sin, sin) O(Sqrt, sqrt) O(Tanh, tanh) O(Tan, tan)
        case CGOpCode::ComLt: r = a.at(0) < a.at(1) ? a.at(2) : a.at(3); break;
        case CGOpCode::ComLe: r = a.at(0) <= a.at(1) ? a.at(2) : a.at(3); break;
        case CGOpCode::ComEq: r = a.at(0) == a.at(1) ? a.at(2) : a.at(3); break;
        case CGOpCode::ComGe: r = a.at(0) >= a.at(1) ? a.at(2) : a.at(3); break;
        case CGOpCode::ComGt: r = a.at(0) > a.at(1) ? a.at(2) : a.at(3); break;
        case CGOpCode::ComNe: r = a.at(0) != a.at(1) ? a.at(2) : a.at(3); break;
        default: throw std::runtime_error("unexpected operation");
    }
    return m[&n] = r;
}
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b)); }
static const double VALS[] = {0, 1, -1, 2, -2.5, 0.5, -0.25, 3};
struct Graph {
    CodeHandler<double> h;
    std::vector<G> x, y;
    std::vector<Nd*> pool;
    Graph(std::mt19937_64& g, size_t nx, size_t nops, size_t ny) {
        x.resize(nx);
        h.makeVariables(x);
        for (auto& v : x) pool.push_back(v.getOperationNode());
        auto arg = [&]() -> Argument<double> { if (pool.empty() || h::rnd(g, 4) == 0) return Argument<double>(VALS[h::rnd(g, 8)]); return Argument<double>(*pool[h::rnd(g, pool.size())]); };
        for (size_t i = 0; i < nops; i++) {
            switch (h::rnd(g, 4)) {
                case 0: pool.push_back(h.makeNode(ONE[h::rnd(g, sizeof ONE / sizeof *ONE)], arg())); break;
                case 1: pool.push_back(h.makeNode(FOUR[h::rnd(g, 6)], {arg(), arg(), arg(), arg()})); break;
                default: pool.push_back(h.makeNode(TWO[h::rnd(g, 5)], {arg(), arg()}));
            }
        }
        for (size_t i = 0; i < ny; i++) if (pool.empty() || h::rnd(g, 6) == 0) y.push_back(G(VALS[h::rnd(g, 8)])); else y.push_back(G(*pool[h::rnd(g, pool.size())]));
    }
    std::vector<double> at(const std::vector<double>& xv) {
        Env m;
        for (size_t i = 0; i < x.size(); i++) m[x[i].getOperationNode()] = xv[i];
        std::vector<double> r;
        for (auto& v : y) r.push_back(v.isParameter() ? v.getValue() : ev(*v.getOperationNode(), m));
        return r;
    }
    std::string show() const { std::ostringstream o; for (size_t i = 0; i < pool.size(); i++) { o << i << ":" << pool[i]->getOperationType() << "("; for (auto& a : pool[i]->getArguments()) { if (a.getOperation()) o << "#" << std::find(pool.begin(), pool.end(), a.getOperation()) - pool.begin(); else o << *a.getParameter(); o << " "; } o << ") "; } return o.str(); }
};
template<class T> struct Mk {};
template<> struct Mk<G> { static double get(const G& v) { return v.isValueDefined() ? v.getValue() : NAN; } static bool has(const G& v) { return v.isValueDefined(); } };
template<> struct Mk<AD<double>> { static double get(const AD<double>& v) { return Value(v); } static bool has(const AD<double>&) { return true; } };
template<class T> static void cmp(const std::vector<T>& r, const std::vector<double>& w) {
    h::check(r.size() == w.size(), "number of results");
    for (size_t i = 0; i < r.size() && i < w.size(); i++) { if (!Mk<T>::has(r[i])) h::fail("result without a value"); else if (!same(Mk<T>::get(r[i]), w[i])) { std::ostringstream o; o.precision(17); o << "result " << i << " is " << Mk<T>::get(r[i]) << " instead of " << w[i]; h::fail(o.str()); } }
}
template<class T> static void run(uint64_t salt, size_t n) {
    auto g = h::rng(salt);
    for (size_t k = 0; k < n; k++) {
        size_t nx = h::rnd(g, 5);
        Graph gr(g, nx, h::rnd(g, 14), h::rnd(g, 5));
        Evaluator<double, double, T> ev(gr.h);
        h::begin("random " + std::to_string(k), gr.show());
        for (int rep = 0; rep < 3; rep++) {
            std::vector<double> xv(nx);
            for (auto& v : xv) v = VALS[h::rnd(g, 8)];
            std::vector<T> xt(xv.begin(), xv.end());
            try {
                auto want = gr.at(xv);
                cmp(ev.evaluate(xt, gr.y), want);
                std::vector<T> out(gr.y.size());
                ev.evaluate(xt, out, gr.y);
                cmp(out, want);
            } catch (const Undef&) { } catch (const std::exception& e) { h::fail(std::string("exception ") + e.what()); }
            h::check(!ev.isUnderEvaluation(), "still in use");
            // wrong sizes are rejected and leave the evaluator usable
            xt.push_back(T(1.0));
            try { ev.evaluate(xt, gr.y); h::fail("one independent too many accepted"); } catch (const CGException&) {}
            xt.pop_back();
            if (nx) { std::vector<T> xs(xt.begin(), xt.end() - 1); try { ev.evaluate(xs, gr.y); h::fail("one independent too few accepted"); } catch (const CGException&) {} }
            std::vector<T> out(gr.y.size() + 1);
            try { ev.evaluate(xt, out, gr.y); h::fail("wrong number of dependents accepted"); } catch (const CGException&) {}
        }
        h::done();
    }
}
SECTION(cg) { run<G>(1, h::thorough() ? 20000 : 1500); }
SECTION(ad) { run<AD<double>>(2, h::thorough() ? 20000 : 1500); }
// every operation with every combination of operand kinds
SECTION(each) {
    auto all = [&](CGOpCode op, size_t n) {
        for (unsigned mask = 0; mask < (1u << n); mask++) for (int s = 0; s < 8; s++) {
            CodeHandler<double> h;
            std::vector<G> x(4), y;
            h.makeVariables(x);
            std::vector<double> xv, c;
            for (int i = 0; i < 4; i++) xv.push_back(VALS[(s + 3 * i) % 8]), c.push_back(VALS[(2 * s + i + 1) % 8]);
            if (s == 3) xv[1] = c[1] = xv[0];
            std::vector<Argument<double>> a;
            for (size_t i = 0; i < n; i++) a.push_back(mask >> i & 1 ? Argument<double>(c[i]) : Argument<double>(*x[i].getOperationNode()));
            y.push_back(G(*h.makeNode(op, {}, a)));
            std::ostringstream d; d << op << " mask " << mask << " values " << s;
            h::begin(d.str(), d.str());
            Env m;
            for (int i = 0; i < 4; i++) m[x[i].getOperationNode()] = xv[i];
            std::vector<double> want = {::ev(*y[0].getOperationNode(), m)};
            try {
                Evaluator<double, double, G> e(h); cmp(e.evaluate(std::vector<G>(xv.begin(), xv.end()), y), want);
                Evaluator<double, double, AD<double>> e2(h); cmp(e2.evaluate(std::vector<AD<double>>(xv.begin(), xv.end()), y), want);
                // to a new graph
                CodeHandler<double> h2; std::vector<G> z(4); h2.makeVariables(z);
                auto r = e.evaluate(z, y);
                Env m2; for (int i = 0; i < 4; i++) m2[z[i].getOperationNode()] = xv[i];
                double v = r[0].isParameter() ? r[0].getValue() : ::ev(*r[0].getOperationNode(), m2);
                if (!same(v, want[0])) { std::ostringstream o; o << "new graph gives " << v << " instead of " << want[0]; h::fail(o.str()); }
            } catch (const std::exception& e) { h::fail(std::string("exception ") + e.what()); }
        }
        h::done();
    };
    for (auto o : ONE) all(o, 1);
    for (auto o : TWO) all(o, 2);
    for (auto o : FOUR) all(o, 4);
}
// shared operations are evaluated once: a chain of doublings stays linear
SECTION(shared) {
    for (size_t n : {10, 40, 200}) {
        CodeHandler<double> h, h2;
        std::vector<G> x(1), z(1), y(1);
        h.makeVariables(x); h2.makeVariables(z);
        G a = x[0];
        for (size_t i = 0; i < n; i++) a = a + a;
        y[0] = a;
        h::begin("doubling " + std::to_string(n), "doubling " + std::to_string(n));
        Evaluator<double, double, G> e(h);
        size_t before = h2.getManagedNodesCount();
        auto r = e.evaluate(z, y);
        h::check(h2.getManagedNodesCount() - before <= n + 2, "shared operations are evaluated more than once");
        Env m; m[z[0].getOperationNode()] = 1;
        h::check(!r[0].isParameter() && ::ev(*r[0].getOperationNode(), m) == std::pow(2.0, double(n)), "value");
    }
    h::done();
}
// operations an evaluator does not support are rejected, and the evaluator stays usable
SECTION(unsupported) {
    CodeHandler<double> h;
    std::vector<G> x(2), y(2);
    h.makeVariables(x);
    y[0] = x[0] * x[1];
    y[1] = G(*h.makeNode(CGOpCode::LoopStart, std::vector<size_t>(), std::vector<Argument<double>>()));
    y[1] = y[1] + y[0];
    h::begin("unsupported", "loop operation");
    Evaluator<double, double, G> e(h);
    for (int i = 0; i < 3; i++) {
        std::vector<G> xs = {G(2.0 + i), G(5.0)};
        try { e.evaluate(xs, y); h::fail("unsupported operation accepted"); } catch (const CGException&) {}
        h::check(!e.isUnderEvaluation(), "still in use after an error");
        std::vector<G> y1 = {y[0]};
        xs[1] = G(7.0);
        try { cmp(e.evaluate(xs, y1), {7.0 * (2 + i)}); } catch (const CGException& ex) { h::fail(std::string("exception ") + ex.what()); }
    }
    h::done();
}
// an evaluator used on its own while evaluating is refused
SECTION(rest) {
    CodeHandler<double> h;
    std::vector<G> x(1), y;
    h.makeVariables(x);
    h::begin("no dependents", "no dependents");
    Evaluator<double, double, G> e(h);
    h::check(e.evaluate(std::vector<G>{G(1.0)}, y).empty(), "no dependents");
    // new nodes recorded after the evaluator was made
    y = {x[0] * x[0] + 1.0};
    cmp(e.evaluate(std::vector<G>{G(3.0)}, y), {10});
    y.push_back(y[0] / x[0]);
    cmp(e.evaluate(std::vector<G>{G(2.0)}, y), {5, 2.5});
    h::done();
}
