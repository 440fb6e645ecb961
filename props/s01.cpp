// instantiates the functions under contract (extraction roots only; never executed)
#include <cppad/cg/cppadcg.hpp>
using namespace CppAD;
using namespace CppAD::cg;
using VS = std::vector<std::set<size_t>>;
using CS = CppAD::vector<std::set<size_t>>;
bool vroot_ident(const VS& p, size_t m) { return isIdentityPattern(p, m); }
VS vroot_transpose(const VS& p, size_t m, size_t n) { return transposePattern(p, m, n); }
CS vroot_transpose2(const CS& p, size_t m, size_t n) { return transposePattern(p, m, n); }
void vroot_addt(const VS& a, VS& r) { addTransMatrixSparsity(a, r); }
void vroot_add(const VS& a, VS& r) { addMatrixSparsity(a, r); }
void vroot_mult(const VS& a, const VS& b, CS& r, size_t m, size_t n, size_t q) { multMatrixMatrixSparsity(a, b, r, m, n, q); }
void vroot_multt(const VS& a, const VS& b, CS& r, size_t m, size_t n, size_t q) { multMatrixTransMatrixSparsity(a, b, r, m, n, q); }
void vroot_mult_t(const VS& a, const VS& b, CS& r, size_t m, size_t n, size_t q) { multMatrixMatrixSparsityTrans(a, b, r, m, n, q); }
bool vroot_inter(const std::set<size_t>& a, const std::set<size_t>& b) { return intersects(a, b); }
