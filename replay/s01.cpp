// S01: exhaustive small patterns + seeded larger ones against a dense Boolean-matrix oracle.
#include <cppad/cg/cppadcg.hpp>
#include "h.hpp"
using namespace CppAD;
using namespace CppAD::cg;
typedef std::vector<std::set<size_t>> VS;
typedef CppAD::vector<std::set<size_t>> CS;
typedef std::vector<std::vector<bool>> D;
static D dense(size_t m, size_t n) { return D(m, std::vector<bool>(n, false)); }
template<class V> V pat(const D& d, size_t extraRows = 0) { V v(d.size() + extraRows); for (size_t i = 0; i < d.size(); i++) for (size_t j = 0; j < d[i].size(); j++) if (d[i][j]) v[i].insert(j); for (size_t i = d.size(); i < v.size(); i++) v[i].insert(i % 2); return v; }
template<class V> bool eq(const V& v, const D& d) { if (v.size() < d.size()) return false; for (size_t i = 0; i < d.size(); i++) { std::set<size_t> s; for (size_t j = 0; j < d[i].size(); j++) if (d[i][j]) s.insert(j); if (v[i] != s) return false; } return true; }
template<class A, class B> bool same(const A& a, const B& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return false; return true; }
static D bits(size_t m, size_t n, uint64_t b) { D d = dense(m, n); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) { d[i][j] = b & 1; b >>= 1; } return d; }
static D random(std::mt19937_64& g, size_t m, size_t n) { size_t k = h::rnd(g, 5); D d = dense(m, n); for (auto& r : d) for (size_t j = 0; j < r.size(); j++) r[j] = k == 4 ? true : h::rnd(g, 4) < k; if (m && m == n && h::rnd(g, 4) == 0) for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) d[i][j] = i == j; if (h::rnd(g, 8) == 0 && m && n) d[h::rnd(g, m)][h::rnd(g, n)] = !d[h::rnd(g, m)][h::rnd(g, n)]; return d; }
template<class V1, class V2> void unary(const D& a, size_t m, size_t n, const D& r0) {
    for (size_t x = 0; x < 2; x++) {
        V1 A = pat<V1>(a, x), A0 = A;
        std::string d = "A=" + h::showvs(A) + " m=" + std::to_string(m) + " n=" + std::to_string(n) + " R=" + h::showvs(pat<CS>(r0));
        if (n == m) {
            h::begin("isIdentityPattern", d);
            bool id = true;
            for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) if (a[i][j] != (i == j)) id = false;
            h::check(isIdentityPattern(A, m) == id, "wrong answer of isIdentityPattern");
        }
        h::begin("transposePattern", d);
        D t = dense(n, m);
        for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) t[j][i] = a[i][j];
        V1 T = transposePattern(A, m, n);
        h::check(T.size() == n && eq(T, t), "transpose " + h::showvs(T));
        h::begin("addTransMatrixSparsity", d);
        D r = r0;   // n x m
        for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) if (a[i][j]) r[j][i] = true;
        V2 R = pat<V2>(r0);
        addTransMatrixSparsity(A, m, R);
        h::check(R.size() == r0.size() && eq(R, r), "R += A^T gives " + h::showvs(R));
        if (x == 0) { V2 Q = pat<V2>(r0); addTransMatrixSparsity(A, Q); h::check(same(R, Q), "two argument form differs"); }
        h::check(same(A, A0), "operand changed");
        h::begin("addMatrixSparsity", d);
        D rr = dense(m, n);
        for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) rr[i][j] = r0[j][i];
        V2 S = pat<V2>(rr), S1 = S;
        addMatrixSparsity(A, m, S);
        for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) if (a[i][j]) rr[i][j] = true;
        h::check(S.size() == m && eq(S, rr), "R += A gives " + h::showvs(S));
        if (x == 0) { addMatrixSparsity(A, S1); h::check(same(S, S1), "two argument form differs"); }
        h::check(same(A, A0), "operand changed");
    }
}
// A: m x n, B: n x q
template<class V1, class V2> void product(const D& a, const D& b, size_t m, size_t n, size_t q, const D& r0 /* m x q */) {
    D c = r0;
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < q; j++) for (size_t k = 0; k < n; k++) if (a[i][k] && b[k][j]) c[i][j] = true;
    D at = dense(n, m), r0t = dense(q, m), ct = dense(q, m);
    for (size_t i = 0; i < m; i++) for (size_t k = 0; k < n; k++) at[k][i] = a[i][k];
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < q; j++) { r0t[j][i] = r0[i][j]; ct[j][i] = c[i][j]; }
    std::string d = "A=" + h::showvs(pat<CS>(a)) + " B=" + h::showvs(pat<CS>(b)) + " R=" + h::showvs(pat<CS>(r0)) + " (m,n,q)=" + std::to_string(m) + "," + std::to_string(n) + "," + std::to_string(q);
    for (size_t x = 0; x < 2; x++) {
        h::begin("multMatrixMatrixSparsity", d + " extra rows " + std::to_string(x));
        V1 A = pat<V1>(a, x), A0 = A; V2 B = pat<V2>(b, x), B0 = B; CS R = pat<CS>(r0);
        multMatrixMatrixSparsity(A, B, R, m, n, q);
        h::check(R.size() == m && eq(R, c), "R += A*B gives " + h::showvs(R));
        h::check(same(A, A0) && same(B, B0), "operand changed");
        h::begin("multMatrixTransMatrixSparsity", d + " (A given transposed) extra rows " + std::to_string(x));
        V1 T = pat<V1>(at, x), T0 = T; CS R2 = pat<CS>(r0);
        multMatrixTransMatrixSparsity(T, B, R2, n, m, q);
        h::check(R2.size() == m && eq(R2, c), "R += (A^T)^T*B gives " + h::showvs(R2));
        h::check(same(T, T0) && same(B, B0), "operand changed");
        h::begin("multMatrixMatrixSparsityTrans", d + " (A given transposed) extra rows " + std::to_string(x));
        CS R3 = pat<CS>(r0t);
        multMatrixMatrixSparsityTrans(T, B, R3, n, q, m);
        h::check(R3.size() == q && eq(R3, ct), "(R += A*B)^T gives " + h::showvs(R3));
        h::check(same(T, T0) && same(B, B0), "operand changed");
    }
}
SECTION(small_unary) {
    size_t lim = h::thorough() ? 4 : 3;
    for (size_t m = 0; m <= lim; m++) for (size_t n = 0; n <= lim; n++) if (m * n <= 9)
        for (uint64_t b = 0; b < (1ull << (m * n)); b++) { auto g = h::rng(b); unary<VS, CS>(bits(m, n, b), m, n, random(g, n, m)); }
}
SECTION(small_product) {
    for (size_t m = 0; m <= 2; m++) for (size_t n = 0; n <= 2; n++) for (size_t q = 0; q <= 2; q++)
        for (uint64_t a = 0; a < (1ull << (m * n)); a++) for (uint64_t b = 0; b < (1ull << (n * q)); b++) { auto g = h::rng(a * 64 + b); product<VS, CS>(bits(m, n, a), bits(n, q, b), m, n, q, random(g, m, q)); product<CS, VS>(bits(m, n, a), bits(n, q, b), m, n, q, dense(m, q)); }
}
SECTION(random_product) {
    auto g = h::rng(7);
    for (int k = 0; k < (h::thorough() ? 40000 : 3000); k++) {
        size_t m = h::rnd(g, 7), n = h::rnd(g, 7), q = h::rnd(g, 7);
        if (h::rnd(g, 3) == 0) n = m;
        if (h::rnd(g, 3) == 0) q = n;
        D a = random(g, m, n), b = random(g, n, q), r = random(g, m, q);
        product<VS, VS>(a, b, m, n, q, r);
        unary<CS, VS>(a, m, n, random(g, n, m));
    }
}
SECTION(sets) {
    for (unsigned a = 0; a < 32; a++) for (unsigned b = 0; b < 32; b++) {
        std::set<size_t> x, y;
        for (size_t i = 0; i < 5; i++) { if (a >> i & 1) x.insert(i); if (b >> i & 1) y.insert(i); }
        h::begin("intersects", h::show(x) + " " + h::show(y));
        h::check(intersects(x, y) == ((a & b) != 0), "wrong answer of intersects");
    }
}
