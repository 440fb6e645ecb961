// instantiates the functions under contract (extraction roots only; never executed)
#include <cppad/cg/cppadcg.hpp>
#include <valarray>
using namespace CppAD::cg;
typedef ArrayView<double> V;
typedef ArrayView<const double> C;
typedef ArrayView<std::set<size_t>> VS;
void vroot_all(std::vector<double>& v, CppAD::vector<double>& w, std::array<double, 5>& a, std::valarray<double>& l, double* p, size_t n, double x) {
    V e, v1(v), v2(w), v3(a), v4(l), v5(p, n), v6(v1);
    const std::vector<double>& cv = v; const CppAD::vector<double>& cw = w; const std::array<double, 5>& ca = a; const std::valarray<double>& cl = l;
    C c1(cv), c2(cw), c3(ca), c4(cl), c5(v1), c6(p, n);
    const V& k = v1;
    v1.size(); v1.max_size(); v1.empty(); v1.data(); k.data(); v1.fill(x); v1.head(n); k.head(n); v1.tail(n); k.tail(n); v1.segment(n, n); k.segment(n, n);
    v1.swap(v2); v1.begin(); k.begin(); v1.end(); k.end(); v1.cbegin(); v1.cend();
    v1[n] = x; k[n]; v1.at(n); k.at(n); v1.front(); k.front(); v1.back(); k.back();
    v1 = v2; v1 = c1; v1 = v; v1 = w;
    c1[n]; c1.at(n); c1.head(n); c1.tail(n); c1.segment(n, n);
}
