// K01: the runtime interface over recording stand-ins for generated code.
#include <cppad/cg/cppadcg.hpp>
#include "h.hpp"
using namespace CppAD::cg;
typedef ArrayView<const double> C;
typedef ArrayView<double> V;
typedef std::vector<double> D;
typedef std::vector<size_t> S;
typedef unsigned long UL;
static size_t m_, n_, nin_;
static long calls;                              // calls of value-computing generated functions
static int retcode;
static std::vector<UL> jr, jc, hr, hc;          // Jacobian and Hessian sparsity lists
static std::vector<std::vector<UL>> fp, rp, tp; // per-seed sparsity
static std::vector<std::vector<UL>> er, ec;     // per-equation Hessian sparsity
static const UL* dp(const std::vector<UL>& v) { static UL none; return v.empty() ? &none : v.data(); }
static double sum(double s, const double* x, size_t n) { for (size_t i = 0; i < n; i++) s = s * 1.25 + x[i]; return s; }
static double X(double f, double const*const* in) { if (nin_ == 1) return sum(f, in[0], n_); for (size_t k = 0; k < nin_; k++) f = f * 1.5 + in[k][0]; return f; }
static void zero(double const*const* in, double* const* out, LangCAtomicFun) { ++calls; for (size_t i = 0; i < m_; i++) out[0][i] = X(1, in) + i; }
static void jacf(double const*const* in, double* const* out, LangCAtomicFun) { ++calls; for (size_t i = 0; i < m_ * n_; i++) out[0][i] = X(2, in) + i; }
static void hesf(double const*const* in, double* const* out, LangCAtomicFun) { ++calls; for (size_t i = 0; i < n_ * n_; i++) out[0][i] = sum(X(3, in), in[nin_], m_) + i; }
static void sjac(double const*const* in, double* const* out, LangCAtomicFun) { ++calls; for (size_t i = 0; i < jr.size(); i++) out[0][i] = X(4, in) + 10 * i; }
static void shes(double const*const* in, double* const* out, LangCAtomicFun) { ++calls; for (size_t i = 0; i < hr.size(); i++) out[0][i] = sum(X(5, in), in[nin_], m_) + 10 * i; }
static int for1(double const* tx, double* ty, LangCAtomicFun) { ++calls; for (size_t i = 0; i < 2 * m_; i++) ty[i] = sum(6, tx, 2 * n_) + i; return retcode; }
static int rev1(double const* tx, double const* ty, double* px, double const* py, LangCAtomicFun) { ++calls; for (size_t i = 0; i < n_; i++) px[i] = sum(sum(sum(7, tx, n_), ty, m_), py, m_) + i; return retcode; }
static int rev2(double const* tx, double const* ty, double* px, double const* py, LangCAtomicFun) { ++calls; for (size_t i = 0; i < 2 * n_; i++) px[i] = sum(sum(sum(8, tx, 2 * n_), ty, 2 * m_), py, 2 * m_) + i; return retcode; }
static double sv(int f, UL j, double const* x, double s, size_t k, const double* w = nullptr) { return sum(w ? sum(f, w, m_) : f, x, n_) + 3.0 * j + 7.0 * s + 11.0 * k; }
static int sfor(UL j, double const*const* in, double* const* out, LangCAtomicFun) { ++calls; for (size_t k = 0; k < fp[j].size(); k++) out[0][k] = sv(9, j, in[0], in[1][0], k); return retcode; }
static int srev(UL j, double const*const* in, double* const* out, LangCAtomicFun) { ++calls; for (size_t k = 0; k < rp[j].size(); k++) out[0][k] = sv(10, j, in[0], in[1][0], k); return retcode; }
static int srv2(UL j, double const*const* in, double* const* out, LangCAtomicFun) { ++calls; for (size_t k = 0; k < tp[j].size(); k++) out[0][k] = sv(11, j, in[0], in[1][0], k, in[2]); return retcode; }
static void pfor(UL j, UL const** p, UL* z) { *p = dp(fp[j]); *z = fp[j].size(); }
static void prev(UL j, UL const** p, UL* z) { *p = dp(rp[j]); *z = rp[j].size(); }
static void prv2(UL j, UL const** p, UL* z) { *p = dp(tp[j]); *z = tp[j].size(); }
static void pjac(UL const** r, UL const** c, UL* z) { *r = dp(jr); *c = dp(jc); *z = jr.size(); }
static void phes(UL const** r, UL const** c, UL* z) { *r = dp(hr); *c = dp(hc); *z = hr.size(); }
static void phe2(UL i, UL const** r, UL const** c, UL* z) { *r = dp(er[i]); *c = dp(ec[i]); *z = er[i].size(); }
static void names(const char*** nm, UL* n) { *nm = nullptr; *n = 0; }
static const char* base = "double  d";
static void info(const char** b, UL* m, UL* n, unsigned int* i, unsigned int* o) { *b = base; *m = m_; *n = n_; *i = nin_; *o = 1; }
struct Fake : FunctorGenericModel<double> {
    typedef FunctorGenericModel<double> B;
    std::set<std::string> missing;
    Fake(const std::set<std::string>& ms = {}) : B("model"), missing(ms) { init(); }
    void close() { modelLibraryClosed(); }
    void* loadFunction(const std::string& f, bool required = true) override {
        typedef ModelCSourceGen<double> G;
        static const std::map<std::string, void*> t{
            {G::FUNCTION_FORWAD_ZERO, (void*) zero}, {G::FUNCTION_JACOBIAN, (void*) jacf}, {G::FUNCTION_HESSIAN, (void*) hesf}, {G::FUNCTION_SPARSE_JACOBIAN, (void*) sjac}, {G::FUNCTION_SPARSE_HESSIAN, (void*) shes},
            {G::FUNCTION_FORWARD_ONE, (void*) for1}, {G::FUNCTION_REVERSE_ONE, (void*) rev1}, {G::FUNCTION_REVERSE_TWO, (void*) rev2}, {G::FUNCTION_SPARSE_FORWARD_ONE, (void*) sfor}, {G::FUNCTION_SPARSE_REVERSE_ONE, (void*) srev}, {G::FUNCTION_SPARSE_REVERSE_TWO, (void*) srv2},
            {G::FUNCTION_FORWARD_ONE_SPARSITY, (void*) pfor}, {G::FUNCTION_REVERSE_ONE_SPARSITY, (void*) prev}, {G::FUNCTION_REVERSE_TWO_SPARSITY, (void*) prv2}, {G::FUNCTION_JACOBIAN_SPARSITY, (void*) pjac}, {G::FUNCTION_HESSIAN_SPARSITY, (void*) phes}, {G::FUNCTION_HESSIAN_SPARSITY2, (void*) phe2},
            {G::FUNCTION_ATOMIC_FUNC_NAMES, (void*) names}, {G::FUNCTION_INFO, (void*) info}};
        if (f.compare(0, 6, "model_") != 0) return nullptr;
        auto it = t.find(f.substr(6));
        return it == t.end() || missing.count(it->first) ? nullptr : it->second;
    }
};
static void handler(bool, int, const char*, const char*, const char* msg) { throw std::runtime_error(msg); }
static std::string sh(const D& d) { std::ostringstream o; for (double x : d) o << x << " "; return o.str(); }
static D vals(std::mt19937_64& g, size_t n) { D d(n); for (auto& x : d) x = int(h::rnd(g, 19)) - 9; return d; }
static void lists(std::mt19937_64& g, size_t r, size_t c, std::vector<UL>& a, std::vector<UL>& b) {
    std::vector<std::pair<UL, UL>> e; a.clear(); b.clear();
    size_t d = h::rnd(g, 5);
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) if (h::rnd(g, 4) < d) e.push_back({i, j});
    std::shuffle(e.begin(), e.end(), g);
    for (auto& p : e) { a.push_back(p.first); b.push_back(p.second); }
}
static std::vector<std::vector<UL>> subsets(std::mt19937_64& g, size_t r, size_t c) {
    std::vector<std::vector<UL>> o(r);
    for (auto& v : o) { std::vector<UL> b; std::vector<UL> a; lists(g, 1, c, a, b); v = b; }
    return o;
}
// runs f with the given sizes; rejected must hold exactly when the sizes are wrong
static bool run(const char* what, bool ok, const std::function<void()>& f) {
    long before = calls; bool thr = false; std::string w;
    try { f(); } catch (const std::exception& e) { thr = true; w = e.what(); }
    if (thr && ok) h::fail(std::string(what) + ": rejected although every size is right: " + w);
    if (!thr && !ok) h::fail(std::string(what) + ": wrong sizes accepted");
    if (thr && !ok && retcode == 0 && std::string(what).find("dense") == std::string::npos) h::check(calls == before, std::string(what) + ": generated code called with wrong sizes");
    return !thr && ok;
}
static void eq(const char* what, const D& a, const D& b) { h::check(a == b, std::string(what) + ": got " + sh(a) + " expected " + sh(b)); }
static size_t off(std::mt19937_64& g, size_t n) { switch (h::rnd(g, 8)) { case 0: return n ? n - 1 : 0; case 1: return n + 1; case 2: return h::rnd(g, 20); default: return n; } }
template<class VB, class SV> static void spars(const char* w, const VB& b, const SV& s, size_t r, size_t c, const std::vector<UL>& rr, const std::vector<UL>& cc) {
    std::set<std::pair<UL, UL>> e; for (size_t k = 0; k < rr.size(); k++) e.insert({rr[k], cc[k]});
    h::check(b.size() == r * c && s.size() == r, std::string(w) + ": size");
    if (b.size() != r * c || s.size() != r) return;
    size_t cnt = 0;
    for (size_t i = 0; i < r; i++) { for (size_t j = 0; j < c; j++) h::check(b[i * c + j] == (e.count({i, j}) > 0) && s[i].count(j) == e.count({i, j}), std::string(w) + ": element (" + std::to_string(i) + "," + std::to_string(j) + ")"); cnt += s[i].size(); }
    h::check(cnt == e.size(), std::string(w) + ": extra elements");
}
static void one(std::mt19937_64& g) {
    m_ = 1 + h::rnd(g, 4); n_ = 1 + h::rnd(g, 4); nin_ = h::rnd(g, 6) ? 1 : 1 + h::rnd(g, 3);
    lists(g, m_, n_, jr, jc); lists(g, n_, n_, hr, hc);
    fp = subsets(g, n_, m_); rp = subsets(g, m_, n_); tp = subsets(g, n_, n_);
    er.assign(m_, {}); ec.assign(m_, {}); for (size_t i = 0; i < m_; i++) lists(g, n_, n_, er[i], ec[i]);
    retcode = 0;
    Fake f0;
    FunctorGenericModel<double>* M = &f0;
    std::string d = "m=" + std::to_string(m_) + " n=" + std::to_string(n_) + " arrays=" + std::to_string(nin_) + " nnzJ=" + std::to_string(jr.size()) + " nnzH=" + std::to_string(hr.size());
    h::begin("dimensions", d);
    h::check(M->Domain() == n_ && M->Range() == m_, "dimensions");
    h::begin("sparsity", d);
    spars("Jacobian sparsity", M->JacobianSparsityBool(), M->JacobianSparsitySet(), m_, n_, jr, jc);
    spars("Hessian sparsity", M->HessianSparsityBool(), M->HessianSparsitySet(), n_, n_, hr, hc);
    { S a(h::rnd(g, 9)), b(h::rnd(g, 9)); M->JacobianSparsity(a, b); h::check(S(jr.begin(), jr.end()) == a && S(jc.begin(), jc.end()) == b, "Jacobian sparsity lists"); M->HessianSparsity(a, b); h::check(S(hr.begin(), hr.end()) == a && S(hc.begin(), hc.end()) == b, "Hessian sparsity lists"); }
    for (size_t i = 0; i < m_; i++) {
        spars("equation Hessian sparsity", M->HessianSparsityBool(i), M->HessianSparsitySet(i), n_, n_, er[i], ec[i]);
        S a, b; M->HessianSparsity(i, a, b); h::check(S(er[i].begin(), er[i].end()) == a && S(ec[i].begin(), ec[i].end()) == b, "equation Hessian sparsity lists");
    }
    for (int rep = 0; rep < 40; rep++) {
        bool s1 = nin_ == 1;
        size_t nx = off(g, n_), nw = off(g, m_);
        D x = vals(g, nx), w = vals(g, nw), x0 = x, w0 = w;
        std::vector<D> xs(nin_); std::vector<const double*> px; for (auto& q : xs) { q = vals(g, n_); px.push_back(q.data()); }
        if (h::rnd(g, 4) == 0) { if (h::rnd(g, 2)) px.push_back(xs[0].data()); else px.pop_back(); }
        bool okx = nx == n_, okw = nw == m_, okp = px.size() == nin_;
        int op = h::rnd(g, 18);
        size_t no = off(g, op == 0 || op == 1 ? m_ : op == 2 || op == 9 ? m_ * n_ : op == 3 || op == 12 ? n_ * n_ : op == 10 || op == 11 ? jr.size() : hr.size());
        D y = vals(g, no), e = y;
        h::begin("call " + std::to_string(op), d + " operation=" + std::to_string(op) + " sizes: x=" + std::to_string(nx) + " w=" + std::to_string(nw) + " result=" + std::to_string(no) + " arrays=" + std::to_string(px.size()));
        auto fill = [&](size_t L, double v, double st) { for (size_t i = 0; i < L; i++) e[i] = v + st * i; };
        std::vector<const double*> one1{x.data(), w.data()}; std::vector<const double*> pw = px; pw.push_back(w.data());
        const size_t *r = nullptr, *c = nullptr;
        S vr(h::rnd(g, 5)), vc(h::rnd(g, 5));
        switch (op) {
        case 0: if (run("ForwardZero", s1 && okx && no == m_, [&] { M->ForwardZero(C(x), V(y)); })) fill(m_, X(1, one1.data()), 1); eq("ForwardZero", y, e); break;
        case 1: if (run("ForwardZero arrays", okp && no == m_, [&] { M->ForwardZero(px, V(y)); })) fill(m_, X(1, px.data()), 1); eq("ForwardZero arrays", y, e); break;
        case 2: if (run("Jacobian", s1 && okx && no == m_ * n_, [&] { M->Jacobian(C(x), V(y)); })) fill(no, X(2, one1.data()), 1); eq("Jacobian", y, e); break;
        case 3: if (run("Hessian", s1 && okx && okw && no == n_ * n_, [&] { M->Hessian(C(x), C(w), V(y)); })) fill(no, sum(X(3, one1.data()), w.data(), m_), 1); eq("Hessian", y, e); break;
        case 4: case 5: {   // forward one
            size_t a = off(g, 2 * n_), b = off(g, 2 * m_); D tx = vals(g, a), ty = vals(g, b), q = ty; retcode = h::rnd(g, 5) == 0;
            if (run("ForwardOne", a >= 2 * n_ && b >= 2 * m_ && !retcode, [&] { M->ForwardOne(C(tx), V(ty)); })) { for (size_t i = 0; i < 2 * m_; i++) q[i] = sum(6, tx.data(), 2 * n_) + i; eq("ForwardOne", ty, q); }
            retcode = 0; break; }
        case 6: {
            size_t a = off(g, n_), b = off(g, m_), a2 = off(g, n_), b2 = off(g, m_); D tx = vals(g, a), ty = vals(g, b), p = vals(g, a2), py = vals(g, b2), q = p; retcode = h::rnd(g, 5) == 0;
            if (run("ReverseOne", a >= n_ && b >= m_ && a2 >= n_ && b2 >= m_ && !retcode, [&] { M->ReverseOne(C(tx), C(ty), V(p), C(py)); })) { for (size_t i = 0; i < n_; i++) q[i] = sum(sum(sum(7, tx.data(), n_), ty.data(), m_), py.data(), m_) + i; eq("ReverseOne", p, q); }
            retcode = 0; break; }
        case 7: {
            size_t a = off(g, 2 * n_), b = off(g, 2 * m_), a2 = off(g, 2 * n_), b2 = off(g, 2 * m_); D tx = vals(g, a), ty = vals(g, b), p = vals(g, a2), py = vals(g, b2), q = p; retcode = h::rnd(g, 5) ? 0 : 1 + h::rnd(g, 2);
            if (run("ReverseTwo", s1 && a >= 2 * n_ && b >= 2 * m_ && a2 >= 2 * n_ && b2 >= 2 * m_ && !retcode, [&] { M->ReverseTwo(C(tx), C(ty), V(p), C(py)); })) { for (size_t i = 0; i < 2 * n_; i++) q[i] = sum(sum(sum(8, tx.data(), 2 * n_), ty.data(), 2 * m_), py.data(), 2 * m_) + i; eq("ReverseTwo", p, q); }
            retcode = 0; break; }
        case 8: {   // sparse seeds
            int k = h::rnd(g, 3); size_t D1 = k == 1 ? m_ : n_, N = k == 0 ? m_ : n_, L = off(g, N), z = h::rnd(g, 5);
            S idx(z); for (auto& i : idx) i = h::rnd(g, D1);
            D t = vals(g, z), res = vals(g, L), q = res; auto& P = k == 0 ? fp : k == 1 ? rp : tp;
            retcode = h::rnd(g, 6) == 0;
            bool good = nx >= n_ && L >= N && (k < 2 || nw >= m_) && !(retcode && z);
            if (!s1) { retcode = 0; break; }
            if (run("sparse seeds", good, [&] { if (k == 0) M->ForwardOne(C(x), z, idx.data(), t.data(), V(res)); else if (k == 1) M->ReverseOne(C(x), V(res), z, idx.data(), t.data()); else M->ReverseTwo(C(x), z, idx.data(), t.data(), V(res), C(w)); })) {
                for (size_t i = 0; i < N; i++) q[i] = 0;
                for (size_t a = 0; a < z; a++) for (size_t b = 0; b < P[idx[a]].size(); b++) q[P[idx[a]][b]] += sv(9 + k, idx[a], x.data(), t[a], b, k == 2 ? w.data() : nullptr);
                eq("sparse seeds", res, q);
            }
            retcode = 0; break; }
        case 9: if (run("dense sparse Jacobian", s1 && okx && no == m_ * n_, [&] { M->SparseJacobian(C(x), V(y)); })) { fill(no, 0, 0); for (size_t k = 0; k < jr.size(); k++) e[jr[k] * n_ + jc[k]] = X(4, one1.data()) + 10 * k; } eq("SparseJacobian", y, e); break;
        case 10: if (run("SparseJacobian", s1 && okx && no == jr.size(), [&] { M->SparseJacobian(C(x), V(y), &r, &c); })) { fill(no, X(4, one1.data()), 10); h::check(r == dp(jr) && c == dp(jc), "index lists"); } eq("SparseJacobian lists", y, e); break;
        case 11: if (run("SparseJacobian arrays", okp && no == jr.size(), [&] { M->SparseJacobian(px, V(y), &r, &c); })) { fill(no, X(4, px.data()), 10); h::check(r == dp(jr) && c == dp(jc), "index lists"); } eq("SparseJacobian arrays", y, e); break;
        case 12: if (run("dense sparse Hessian", s1 && okx && okw && no == n_ * n_, [&] { M->SparseHessian(C(x), C(w), V(y)); })) { fill(no, 0, 0); for (size_t k = 0; k < hr.size(); k++) e[hr[k] * n_ + hc[k]] = sum(X(5, one1.data()), w.data(), m_) + 10 * k; } eq("SparseHessian", y, e); break;
        case 13: if (run("SparseHessian", s1 && okx && okw && no == hr.size(), [&] { M->SparseHessian(C(x), C(w), V(y), &r, &c); })) { fill(no, sum(X(5, one1.data()), w.data(), m_), 10); h::check(r == dp(hr) && c == dp(hc), "index lists"); } eq("SparseHessian lists", y, e); break;
        case 14: if (run("SparseHessian arrays", okp && okw && no == hr.size(), [&] { M->SparseHessian(px, C(w), V(y), &r, &c); })) { fill(no, sum(X(5, pw.data()), w.data(), m_), 10); h::check(r == dp(hr) && c == dp(hc), "index lists"); } eq("SparseHessian arrays", y, e); break;
        case 15: if (run("SparseJacobian vectors", s1 && okx, [&] { M->SparseJacobian(x, y, vr, vc); })) { e.assign(jr.size(), 0); fill(e.size(), X(4, one1.data()), 10); eq("SparseJacobian vectors", y, e); h::check(vr == S(jr.begin(), jr.end()) && vc == S(jc.begin(), jc.end()), "index vectors"); } break;
        case 16: if (run("SparseHessian vectors", s1 && okx && okw, [&] { M->SparseHessian(x, w, y, vr, vc); })) { e.assign(hr.size(), 0); fill(e.size(), sum(X(5, one1.data()), w.data(), m_), 10); eq("SparseHessian vectors", y, e); h::check(vr == S(hr.begin(), hr.end()) && vc == S(hc.begin(), hc.end()), "index vectors"); } break;
        case 17: {
            CppAD::vector<bool> vx(h::rnd(g, 3) ? n_ + h::rnd(g, 2) : h::rnd(g, n_)), vy(h::rnd(g, 6) ? m_ + h::rnd(g, 2) : h::rnd(g, m_));
            for (size_t i = 0; i < vx.size(); i++) vx[i] = h::rnd(g, 2); for (size_t i = 0; i < vy.size(); i++) vy[i] = h::rnd(g, 4) == 0;
            CppAD::vector<bool> ey = vy; no = off(g, m_); y = vals(g, no); e = y;
            if (run("dense ForwardZero with flags", s1 && okx && no == m_ && (vx.size() == 0 || (vx.size() >= n_ && vy.size() >= m_)), [&] { M->ForwardZero(vx, vy, C(x), V(y)); })) {
                fill(m_, X(1, one1.data()), 1); eq("ForwardZero flags", y, e);
                if (vx.size()) for (size_t k = 0; k < jr.size(); k++) if (vx[jc[k]]) ey[jr[k]] = true;
                for (size_t i = 0; i < vy.size(); i++) h::check(vy[i] == ey[i], "variable flag " + std::to_string(i));
            }
            break; }
        }
        h::check(x == x0 && w == w0, "input arrays changed");
    }
    // convenience functions of the generic interface
    if (nin_ == 1) {
        D x = vals(g, n_), w = vals(g, m_), e; std::vector<const double*> in{x.data(), w.data()};
        GenericModel<double>& G = *M;
        h::begin("generic interface", d);
        auto mk = [&](size_t L, double v, double st) { D q(L); for (size_t i = 0; i < L; i++) q[i] = v + st * i; return q; };
        eq("ForwardZero(x)", G.ForwardZero(x), mk(m_, X(1, in.data()), 1));
        D y(h::rnd(g, 9)); G.ForwardZero(x, y); eq("ForwardZero(x,y)", y, mk(m_, X(1, in.data()), 1));
        eq("Jacobian(x)", G.Jacobian(x), mk(m_ * n_, X(2, in.data()), 1)); G.Jacobian(x, y); eq("Jacobian(x,j)", y, mk(m_ * n_, X(2, in.data()), 1));
        double hv = sum(X(3, in.data()), w.data(), m_);
        eq("Hessian(x,w)", G.Hessian(x, w), mk(n_ * n_, hv, 1)); G.Hessian(x, w, y); eq("Hessian(x,w,h)", y, mk(n_ * n_, hv, 1));
        for (size_t i = 0; i < m_; i++) { D u(m_); u[i] = 1; eq("Hessian(x,i)", G.Hessian(x, i), mk(n_ * n_, sum(X(3, in.data()), u.data(), m_), 1)); }
        D tx = vals(g, 2 * n_), ty = vals(g, 2 * m_), py = vals(g, 2 * m_);
        { D q(m_); for (size_t i = 0; i < m_; i++) q[i] = sum(6, tx.data(), 2 * n_) + 2 * i + 1; eq("ForwardOne(tx)", G.ForwardOne(tx), q); }
        eq("ReverseOne(tx,ty,py)", G.ReverseOne(tx, ty, py), mk(n_, sum(sum(sum(7, tx.data(), n_), ty.data(), m_), py.data(), m_), 1));
        eq("ReverseTwo(tx,ty,py)", G.ReverseTwo(tx, ty, py), mk(2 * n_, sum(sum(sum(8, tx.data(), 2 * n_), ty.data(), 2 * m_), py.data(), 2 * m_), 1));
        { D q(m_ * n_); for (size_t k = 0; k < jr.size(); k++) q[jr[k] * n_ + jc[k]] = X(4, in.data()) + 10 * k; eq("SparseJacobian(x)", G.SparseJacobian(x), q); G.SparseJacobian(x, y); eq("SparseJacobian(x,j)", y, q); }
        { D q(n_ * n_); for (size_t k = 0; k < hr.size(); k++) q[hr[k] * n_ + hc[k]] = sum(X(5, in.data()), w.data(), m_) + 10 * k; eq("SparseHessian(x,w)", G.SparseHessian(x, w), q); G.SparseHessian(x, w, y); eq("SparseHessian(x,w,h)", y, q); }
    }
    // after the library is closed nothing is called
    if (h::rnd(g, 4) == 0) {
        h::begin("closed library", d);
        D x = vals(g, n_), y(m_), j(m_ * n_); long b = calls;
        f0.close();
        int thr = 0;
        try { M->ForwardZero(C(x), V(y)); } catch (const std::exception&) { thr++; }
        try { M->Jacobian(C(x), V(j)); } catch (const std::exception&) { thr++; }
        try { M->SparseJacobian(C(x), V(j)); } catch (const std::exception&) { thr++; }
        try { M->JacobianSparsitySet(); } catch (const std::exception&) { thr++; }
        h::check(thr == 4 && calls == b, "model used after its library was closed");
        h::check(!M->isForwardZeroAvailable() && !M->isJacobianAvailable() && !M->isSparseJacobianAvailable() && !M->isSparseHessianAvailable() && !M->isReverseTwoAvailable(), "functions still available");
    }
}
SECTION(interface) {
    CppAD::ErrorHandler eh(handler);
    auto g = h::rng(7);
    int N = h::thorough() ? 12000 : 1500;
    for (int k = 0; k < N; k++) one(g);
}
SECTION(availability) {
    CppAD::ErrorHandler eh(handler);
    typedef ModelCSourceGen<double> G;
    m_ = 2; n_ = 3; nin_ = 1; jr = {0}; jc = {1}; hr = {1}; hc = {1};
    const std::vector<std::pair<std::string, std::function<bool(GenericModel<double>&)>>> t{
        {G::FUNCTION_FORWAD_ZERO, [](GenericModel<double>& m) { return m.isForwardZeroAvailable(); }}, {G::FUNCTION_JACOBIAN, [](GenericModel<double>& m) { return m.isJacobianAvailable(); }},
        {G::FUNCTION_HESSIAN, [](GenericModel<double>& m) { return m.isHessianAvailable(); }}, {G::FUNCTION_SPARSE_JACOBIAN, [](GenericModel<double>& m) { return m.isSparseJacobianAvailable(); }},
        {G::FUNCTION_SPARSE_HESSIAN, [](GenericModel<double>& m) { return m.isSparseHessianAvailable(); }}, {G::FUNCTION_HESSIAN_SPARSITY2, [](GenericModel<double>& m) { return m.isEquationHessianSparsityAvailable(); }}};
    for (size_t k = 0; k <= t.size(); k++) {
        h::begin("availability", k < t.size() ? "without " + t[k].first : "all functions");
        Fake f(k < t.size() ? std::set<std::string>{t[k].first} : std::set<std::string>{});
        for (size_t q = 0; q < t.size(); q++) h::check(t[q].second(f) == (q != k), "availability of " + t[q].first);
        h::check(f.isForwardOneAvailable() && f.isReverseOneAvailable() && f.isReverseTwoAvailable() && f.isSparseForwardOneAvailable() && f.isSparseReverseOneAvailable() && f.isSparseReverseTwoAvailable() && f.isJacobianSparsityAvailable() && f.isHessianSparsityAvailable(), "availability of the others");
    }
    h::begin("availability", "other base type");
    base = "float  f"; bool thr = false;
    try { Fake f; } catch (const std::exception&) { thr = true; }
    h::check(thr, "library for another base type accepted");
}
