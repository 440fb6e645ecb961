// V01: array views against a plain model of the viewed storage.
#include <cppad/cg/cppadcg.hpp>
#include <valarray>
#include <array>
#include "h.hpp"
using namespace CppAD;
using namespace CppAD::cg;
typedef ArrayView<double> V;
typedef ArrayView<const double> C;
typedef std::vector<double> D;
static std::string show(const D& d) { std::ostringstream o; o << "{"; for (double x : d) o << x << " "; o << "}"; return o.str(); }
template<class A, class X> static void same(A& a, const X* p, size_t n, const char* w) {
    const A& k = a;
    h::check(a.size() == n && a.max_size() == n && a.empty() == (n == 0), std::string(w) + ": size " + std::to_string(a.size()) + " expected " + std::to_string(n));
    if (a.size() != n) return;
    if (n) {
        h::check(a.data() == p && k.data() == p && &*a.begin() == p && &*k.begin() == p && &*a.cbegin() == p, std::string(w) + ": first element");
        h::check(&a.front() == p && &k.front() == p && &a.back() == p + (n - 1) && &k.back() == p + (n - 1), std::string(w) + ": front/back");
    }
    h::check((size_t) (a.end() - a.begin()) == n && (size_t) (k.end() - k.begin()) == n && (size_t) (a.cend() - a.cbegin()) == n, std::string(w) + ": end");
    for (size_t i = 0; i < n; i++) h::check(&a[i] == p + i && &k[i] == p + i && &a.at(i) == p + i && &k.at(i) == p + i, std::string(w) + ": element " + std::to_string(i));
    std::vector<const X*> r;
    for (auto it = a.rbegin(); it != a.rend(); ++it) r.push_back(&*it);
    for (size_t i = 0; i < r.size(); i++) h::check(i < n && r[i] == p + (n - 1 - i), std::string(w) + ": reverse iteration");
    h::check(r.size() == n, std::string(w) + ": reverse iteration length");
    for (size_t i : {n, n + 1, n + 100}) {
        bool t = false;
        try { a.at(i); } catch (const CGException&) { t = true; }
        h::check(t, std::string(w) + ": at(" + std::to_string(i) + ") did not throw");
        t = false;
        try { k.at(i); } catch (const CGException&) { t = true; }
        h::check(t, std::string(w) + ": const at did not throw");
    }
}
template<size_t N> static void arr() {
    std::array<double, N> a; a.fill(1);
    const std::array<double, N>& c = a;
    h::begin("std::array", "N=" + std::to_string(N));
    V v(a); C k(c);
    same(v, a.data(), N, "view"); same(k, a.data(), N, "const view");
}
SECTION(create) {
    for (size_t n = 0; n < 9; n++) {
        D v(n, 1.0); const D& cv = v;
        CppAD::vector<double> w(n); for (size_t i = 0; i < n; i++) w[i] = i; const CppAD::vector<double>& cw = w;
        std::valarray<double> l(n); const std::valarray<double>& cl = l;
        h::begin("create", "n=" + std::to_string(n));
        { V a(v); same(a, v.data(), n, "vector"); V b(a); same(b, v.data(), n, "copy"); C c(a); same(c, (const double*) v.data(), n, "const from view"); }
        { C a(cv); same(a, v.data(), n, "const vector"); C b(a); same(b, v.data(), n, "copy of const"); }
        { V a(w); same(a, w.data(), n, "CppAD::vector"); } { C a(cw); same(a, cw.data(), n, "const CppAD::vector"); }
        { V a(l); same(a, n ? &l[0] : nullptr, n, "valarray"); } { C a(cl); same(a, (const double*) (n ? &l[0] : nullptr), n, "const valarray"); }
        for (size_t m = 0; m <= n; m++) { V a(v.data() + (n - m), m); same(a, v.data() + (n - m), m, "pointer"); }
    }
    V e; h::begin("create", "default"); same(e, (double*) nullptr, 0, "default");
    arr<1>(); arr<2>(); arr<5>();
}
SECTION(subviews) {
    for (size_t n = 0; n < 9; n++) for (size_t o = 0; o < 3; o++) {
        D s(n + 4, 0.5);
        V v(s.data() + o, n); const V& k = v; C c(s.data() + o, n);
        double* p = s.data() + o;
        for (size_t m = 0; m <= n; m++) {
            h::begin("subviews", "n=" + std::to_string(n) + " m=" + std::to_string(m));
            { V a = v.head(m); same(a, p, m, "head"); } { C a = k.head(m); same(a, p, m, "const head"); } { C a = c.head(m); same(a, p, m, "head of const"); }
            { V a = v.tail(m); same(a, p + (n - m), m, "tail"); } { C a = k.tail(m); same(a, p + (n - m), m, "const tail"); } { C a = c.tail(m); same(a, p + (n - m), m, "tail of const"); }
            for (size_t b = 0; b < n && b + m <= n; b++) {
                { V a = v.segment(b, m); same(a, p + b, m, "segment"); } { C a = k.segment(b, m); same(a, p + b, m, "const segment"); } { C a = c.segment(b, m); same(a, p + b, m, "segment of const"); }
            }
        }
    }
}
SECTION(write) {
    auto g = h::rng(5);
    int N = h::thorough() ? 60000 : 8000;
    for (int k = 0; k < N; k++) {
        size_t L = 1 + h::rnd(g, 14), n = h::rnd(g, L + 1), o = h::rnd(g, L - n + 1);
        D s(L); for (size_t i = 0; i < L; i++) s[i] = i + 1;
        D r = s; V v(s.data() + o, n);
        size_t n2 = h::rnd(g, 3) ? n : h::rnd(g, L + 1);
        D t(n2); for (size_t i = 0; i < n2; i++) t[i] = 100 + i;
        D t0 = t;
        int op = h::rnd(g, 8);
        h::begin("write", "storage=" + std::to_string(L) + " view=[" + std::to_string(o) + "," + std::to_string(o + n) + ") source=" + std::to_string(n2) + " operation=" + std::to_string(op));
        bool thr = false, exp = false;
        try {
            if (op == 0) { v.fill(-7); for (size_t i = 0; i < n; i++) r[o + i] = -7; }
            else if (op == 1) { for (size_t i = 0; i < n; i++) { v[i] = -1.0 - i; r[o + i] = -1.0 - i; } }
            else if (op == 2) { exp = n2 != n; V x(t); v = x; }
            else if (op == 3) { exp = n2 != n; C x((const D&) t); v = x; }
            else if (op == 4) { exp = n2 != n; v = t; }
            else if (op == 5) { exp = n2 != n; CppAD::vector<double> x(n2); for (size_t i = 0; i < n2; i++) x[i] = t[i]; v = x; }
            else if (op == 6) { size_t o2 = o + h::rnd(g, L - n - o + 1); V x(s.data() + o2, n); v = x; for (size_t i = 0; i < n; i++) r[o + i] = o2 + i + 1; }
            else { V x(t); v.swap(x); same(v, t.data(), n2, "swap"); same(x, s.data() + o, n, "swap"); }
        } catch (const CGException&) { thr = true; }
        if (op >= 2 && op <= 5 && !exp) for (size_t i = 0; i < n; i++) r[o + i] = t0[i];
        h::check(thr == exp, thr ? "unexpected exception" : "no exception for different sizes");
        h::check(s == r, "storage " + show(s) + " expected " + show(r));
        h::check(t == t0, "source changed " + show(t));
        if (op != 7) same(v, s.data() + o, n, "view");
    }
}
