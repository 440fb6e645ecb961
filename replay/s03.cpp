// S03: element selection against a dense oracle.
#include <cppad/cg/cppadcg.hpp>
#include "h.hpp"
using namespace CppAD;
using namespace CppAD::cg;
typedef std::vector<std::set<size_t>> VS;
typedef CppAD::vector<std::set<size_t>> CS;
typedef std::set<std::pair<size_t, size_t>> Sel;
template<class V> static V mk(const std::vector<std::set<size_t>>& s) { V v(s.size()); for (size_t i = 0; i < s.size(); i++) v[i] = s[i]; return v; }
template<class V> static void use(const CustomPosition& c, const VS& p0, bool defined, const Sel& sel, const std::string& d) {
    V p = mk<V>(p0);
    h::begin("filter", d + " pattern=" + h::showvs(p0));
    c.filter(p);
    h::check(p.size() == p0.size(), "number of rows changed");
    for (size_t i = 0; i < p0.size() && i < p.size(); i++) {
        std::set<size_t> r;
        for (size_t j : p0[i]) if (!defined || sel.count({i, j})) r.insert(j);
        h::check(r == p[i], "row " + std::to_string(i) + " is " + h::show(p[i]) + " expected " + h::show(r));
    }
}
static void all(CustomPosition& c, const VS& p0, bool defined, const Sel& sel, const std::string& d) {
    h::begin("flags", d);
    h::check(c.isFilterDefined() == defined, "isFilterDefined");
    h::check(!c.isFullDefined(), "isFullDefined before setFullElements");
    use<VS>(c, p0, defined, sel, d);
    use<CS>(c, p0, defined, sel, d);
    h::begin("setFullElements", d + " pattern=" + h::showvs(p0));
    for (int rep = 0; rep < 2; rep++) {
        c.setFullElements(p0);
        h::check(c.isFullDefined(), "isFullDefined");
        h::check(c.isFilterDefined() == defined, "isFilterDefined changed");
        VS r(p0.size());
        for (size_t i = 0; i < p0.size(); i++) for (size_t j : p0[i]) if (!defined || sel.count({i, j})) r[i].insert(j);
        h::check(c.getFullElements() == r, "full elements " + h::showvs(c.getFullElements()) + " expected " + h::showvs(r));
    }
    use<VS>(c, p0, defined, sel, d + " (after setFullElements)");
}
SECTION(selection) {
    auto g = h::rng(3);
    int N = h::thorough() ? 30000 : 4000;
    for (int k = 0; k < N; k++) {
        size_t m = h::rnd(g, 6), n = 1 + h::rnd(g, 6);
        size_t rows = m ? h::rnd(g, m + 1) : 0;       // a pattern may have fewer rows than the selection
        if (h::rnd(g, 2)) rows = m;
        size_t dens = h::rnd(g, 5);
        VS p(rows), s(m ? h::rnd(g, m + 1) : 0);
        for (auto& r : p) for (size_t j = 0; j < n; j++) if (h::rnd(g, 4) < dens) r.insert(j);
        for (auto& r : s) for (size_t j = 0; j < n; j++) if (h::rnd(g, 4) < h::rnd(g, 5)) r.insert(j);
        Sel sel;
        std::vector<size_t> R, C;
        for (size_t i = 0; i < s.size(); i++) for (size_t j : s[i]) { sel.insert({i, j}); R.push_back(i); C.push_back(j); }
        // shuffled, with repetitions
        for (size_t i = 0; i < R.size(); i++) { size_t o = h::rnd(g, R.size()); std::swap(R[i], R[o]); std::swap(C[i], C[o]); }
        if (!R.empty() && h::rnd(g, 2)) { R.push_back(R[0]); C.push_back(C[0]); }
        std::ostringstream d;
        d << "m=" << m << " n=" << n << " selected=" << h::showvs(s);
        CustomPosition c1(m, n, R, C);
        all(c1, p, true, sel, d.str() + " by indexes");
        CppAD::vector<size_t> R2(R.size()), C2(C.size());
        for (size_t i = 0; i < R.size(); i++) { R2[i] = R[i]; C2[i] = C[i]; }
        CustomPosition c2(m, n, R2, C2);
        all(c2, p, true, sel, d.str() + " by CppAD index vectors");
        CustomPosition c3(m, n, s);
        CustomPosition c6(c3);   // copies keep the selection
        all(c3, p, true, sel, d.str() + " by sets");
        CustomPosition c4(m, n, mk<CS>(s));
        all(c4, p, true, sel, d.str() + " by CppAD sets");
        CustomPosition c5;
        all(c5, p, false, sel, "no selection");
        all(c6, p, true, sel, d.str() + " copied");
    }
}
