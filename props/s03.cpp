#include <cppad/cg/cppadcg.hpp>
using namespace CppAD;
using namespace CppAD::cg;
using VS = std::vector<std::set<size_t>>;
using CS = CppAD::vector<std::set<size_t>>;
void vroot_all(size_t m, size_t n, const std::vector<size_t>& r, const CppAD::vector<size_t>& r2, VS& s, CS& s2, ArrayView<std::set<size_t>>& av) {
    CustomPosition a;
    CustomPosition b(m, n, r, r);
    CustomPosition b2(m, n, r2, r2);
    CustomPosition c(m, n, s);
    CustomPosition c2(m, n, s2);
    c.filter(s); c.filter(s2); c.filter(av);
    c.setFullElements(s);
    c.getFullElements(); c.isFilterDefined(); c.isFullDefined();
}
