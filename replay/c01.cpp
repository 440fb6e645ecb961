// C01: the text generated for random operation graphs, interpreted as C, against the operations computed directly.
#include <cppad/cg/cppadcg.hpp>
#include "h.hpp"
#include "cmini.hpp"
using namespace CppAD;
using namespace CppAD::cg;
typedef CG<double> G;
// a recorded value with the value it must have
struct V { G g; long double v; };
static long double near0(long double d) { if (d != 0 && fabsl(d) < 1e-12L) throw cm::Unstable("sign"); return d; }
static void cmpnear(long double a, long double b) { long double d = fabsl(a - b); if (d != 0 && d < 1e-12L * (1 + fabsl(a) + fabsl(b))) throw cm::Unstable("comparison"); }
static const double CONSTS[] = {0, 1, -1, 2, -2, 0.5, -3.25, 10, 1e10, 123456789012.0, 1e20, -1e-7, 3, -4};
static V op(std::mt19937_64& g, const std::vector<V>& pool, bool consts) {
    auto pick = [&]() -> V { if (consts && h::rnd(g, 4) == 0) { double c = CONSTS[h::rnd(g, sizeof CONSTS / sizeof *CONSTS)]; return {G(c), c}; } return pool[h::rnd(g, pool.size())]; };
    V a = pick(), b = pick(), c = pick(), d = pick(), r;
    switch (h::rnd(g, 21)) {
        case 0: case 1: case 2: return {a.g + b.g, a.v + b.v};
        case 3: case 4: case 5: return {a.g - b.g, a.v - b.v};
        case 6: case 7: case 8: return {a.g * b.g, a.v * b.v};
        case 9: case 10: case 11: if (b.v == 0) return {a.g * b.g, a.v * b.v}; return {a.g / b.g, a.v / b.v};
        case 12: return {-a.g, -a.v};
        case 13: return {sign(a.g), near0(a.v) > 0 ? 1.0L : a.v < 0 ? -1.0L : 0.0L};
        case 14: return {abs(a.g), fabsl(a.v)};
        case 15: return {sin(a.g), sinl(a.v)};
        case 16: return {atan(a.g), atanl(a.v)};
        case 17: if (a.v <= 0) return {a.g + b.g, a.v + b.v}; return {pow(a.g, G(2.0)), powl(a.v, 2)};
        case 18: cmpnear(a.v, b.v); return {CondExpLt(a.g, b.g, c.g, d.g), a.v < b.v ? c.v : d.v};
        case 19: cmpnear(a.v, b.v); return {CondExpGe(a.g, b.g, c.g, d.g), a.v >= b.v ? c.v : d.v};
        default: cmpnear(a.v, b.v); return {CondExpEq(a.g, b.g, c.g, d.g), a.v == b.v ? c.v : d.v};
    }
}
static std::string gen(CodeHandler<double>& hd, std::vector<G>& y) {
    LanguageC<double> lang("double");
    lang.setParameterPrecision(17);
    LangCDefaultVariableNameGenerator<double> names;
    std::ostringstream os;
    hd.generateCode(os, lang, y, names);
    return os.str();
}
static void run(const std::string& code, const std::vector<double>& x, const std::vector<V>& y) {
    try {
        cm::Env e;
        for (size_t i = 0; i < x.size(); i++) e.arr["x"][i] = cm::Val::D(x[i]);
        cm::Run r(code, e);
        r.all();
        for (size_t i = 0; i < y.size(); i++) {
            if (!std::isfinite((double) y[i].v)) continue;
            auto it = e.arr["y"].find(i);
            if (it == e.arr["y"].end()) { h::fail("y[" + std::to_string(i) + "] is not assigned"); continue; }
            long double got = it->second.num();
            if (!(fabsl(got - y[i].v) <= 1e-9L * (1 + fabsl(y[i].v)))) { std::ostringstream o; o << "y[" << i << "] = " << (double) got << " instead of " << (double) y[i].v; h::fail(o.str()); }
        }
    } catch (cm::Unstable&) {
    } catch (cm::Err& er) { h::fail(er.what()); }
}
// all pairs of operators nested in both operand positions
SECTION(nesting) {
    typedef std::function<V(V, V)> F;
    std::vector<std::pair<const char*, F>> ops = {
        {"add", [](V a, V b) { return V{a.g + b.g, a.v + b.v}; }}, {"sub", [](V a, V b) { return V{a.g - b.g, a.v - b.v}; }},
        {"mul", [](V a, V b) { return V{a.g * b.g, a.v * b.v}; }}, {"div", [](V a, V b) { return V{a.g / b.g, a.v / b.v}; }},
        {"neg", [](V a, V) { return V{-a.g, -a.v}; }}, {"sign", [](V a, V) { return V{sign(a.g), a.v > 0 ? 1.0L : a.v < 0 ? -1.0L : 0.0L}; }},
        {"sin", [](V a, V) { return V{sin(a.g), sinl(a.v)}; }}, {"pow", [](V a, V b) { return V{pow(a.g * a.g, b.g), powl(a.v * a.v, b.v)}; }},
        {"c-", [](V a, V) { return V{a.g + G(-2.5), a.v - 2.5L}; }}, {"-c", [](V a, V) { return V{a.g - G(-3.0), a.v + 3}; }}, {"c*", [](V a, V) { return V{G(-2.0) * a.g, -2 * a.v}; }},
        {"c/", [](V a, V) { return V{G(-7.0) / a.g, -7 / a.v}; }}, {"/c", [](V a, V) { return V{a.g / G(-3.0), a.v / -3}; }}, {"alias", [](V a, V) { CodeHandler<double>* hd = a.g.getCodeHandler(); return a.g.isParameter() || !hd ? a : V{G(*hd->makeNode(CGOpCode::Alias, Argument<double>(*a.g.getOperationNode()))), a.v}; }},
        {"lt", [](V a, V b) { return V{CondExpLt(a.g, b.g, a.g, b.g), a.v < b.v ? a.v : b.v}; }}, {"ge", [](V a, V b) { return V{CondExpGe(a.g, b.g, a.g, b.g), a.v >= b.v ? a.v : b.v}; }},
        {"le", [](V a, V b) { return V{CondExpLe(a.g, b.g, G(2.0), b.g), a.v <= b.v ? 2 : b.v}; }}, {"gt", [](V a, V b) { return V{CondExpGt(a.g, b.g, G(1.0), G(-1.0)), a.v > b.v ? 1.0L : -1.0L}; }}, {"eq", [](V a, V b) { return V{CondExpEq(a.g, b.g, G(1.0), G(0.0)), a.v == b.v ? 1.0L : 0.0L}; }}};
    for (auto& o1 : ops) for (auto& o2 : ops) for (auto& o3 : ops) {
        if (!strcmp(o1.first, "sign") && !strcmp(o2.first, "alias")) continue;   // aliases are only made by the library, for operands of other kinds
        CodeHandler<double> hd;
        std::vector<double> x = {1.75, -2.25, 3.5, 0.625, -1.5};
        std::vector<G> xv(x.size());
        hd.makeVariables(xv);
        std::vector<V> v;
        for (size_t i = 0; i < x.size(); i++) v.push_back({xv[i], x[i]});
        std::ostringstream d;
        d << o1.first << "(" << o2.first << "(x0,x1)," << o3.first << "(x2,x3))";
        h::begin(d.str(), d.str());
        V r = o1.second(o2.second(v[0], v[1]), o3.second(v[2], v[3]));
        std::vector<V> ys = {r};
        std::vector<G> y = {r.g};
        run(gen(hd, y), x, ys);
        h::done();
    }
}
SECTION(constants) {
    for (double c : CONSTS) for (int form = 0; form < 6; form++) {
        CodeHandler<double> hd;
        std::vector<double> x = {2.0, 0.0};
        std::vector<G> xv(2);
        hd.makeVariables(xv);
        std::ostringstream d; d << "constant " << c << " form " << form;
        h::begin(d.str(), d.str());
        V r;
        switch (form) {
            case 0: r = {G(c), c}; break;
            case 1: r = {xv[0] + G(c), 2 + (long double) c}; break;
            case 2: r = {G(c) - xv[0], (long double) c - 2}; break;
            case 3: r = {G(c) / xv[0], (long double) c / 2}; break;
            case 4: r = {sign(xv[0]) / (sign(xv[0]) + G(c)), 1.0L / (1.0L + c)}; break;
            default: r = {G(c) / (sign(xv[1]) + G(3.0)) * G(7.0), (long double) c / 3 * 7}; break;
        }
        if (!std::isfinite((double) r.v)) continue;
        std::vector<V> ys = {r};
        std::vector<G> y = {r.g};
        run(gen(hd, y), x, ys);
        h::done();
    }
}
SECTION(signs) {
    for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) for (int k = 0; k < 4; k++) {
        CodeHandler<double> hd;
        std::vector<double> x = {a * 1.5, b * 2.5};
        std::vector<G> xv(2);
        hd.makeVariables(xv);
        std::ostringstream d; d << "signs " << a << " " << b << " form " << k;
        h::begin(d.str(), d.str());
        V r;
        long double sa = a, sb = b;
        switch (k) {
            case 0: r = {sign(xv[0]) / (sign(xv[1]) + sign(xv[1])), sa / (sb + sb)}; break;
            case 1: r = {sign(xv[0]) - sign(xv[1]), sa - sb}; break;
            case 2: r = {sign(xv[0]) / sign(xv[1]), sa / sb}; break;
            default: r = {-sign(xv[0]) * sign(xv[1]), -sa * sb}; break;
        }
        if (!std::isfinite((double) r.v)) r.v = INFINITY;   // only: no crash
        std::vector<V> ys = {r};
        std::vector<G> y = {r.g};
        run(gen(hd, y), x, ys);
        h::done();
    }
}
SECTION(random) {
    auto g = h::rng(1);
    size_t n = h::thorough() ? 60000 : 4000;
    for (size_t t = 0; t < n; t++) {
        CodeHandler<double> hd;
        size_t nx = 1 + h::rnd(g, 4);
        std::vector<double> x(nx);
        for (auto& v : x) v = ((int) h::rnd(g, 13) - 6) * 0.5;
        std::vector<G> xv(nx);
        hd.makeVariables(xv);
        std::vector<V> pool;
        for (size_t i = 0; i < nx; i++) pool.push_back({xv[i], x[i]});
        std::ostringstream d; d << "random " << t;
        h::begin(d.str(), d.str());
        try {
            size_t k = 1 + h::rnd(g, 12);
            for (size_t i = 0; i < k; i++) {
                V r = op(g, pool, true);
                if (!std::isfinite((double) r.v) || fabsl(r.v) > 1e15) continue;
                if (r.g.isVariable()) pool.push_back(r);
            }
        } catch (cm::Unstable&) { h::done(); continue; }
        std::vector<V> ys;
        for (size_t i = 0; i < 1 + h::rnd(g, 3); i++) ys.push_back(pool[pool.size() - 1 - h::rnd(g, std::min<size_t>(pool.size(), 4))]);
        std::vector<G> y;
        for (auto& v : ys) y.push_back(v.g);
        run(gen(hd, y), x, ys);
        h::done();
    }
}
