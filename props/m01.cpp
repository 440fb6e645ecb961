// instantiates the functions under contract (extraction roots only; never executed)
#include <cppad/cg/cppadcg.hpp>
using namespace CppAD::cg;
using A = ArrayIdCompresser<double>;
size_t vroot_r(A& a, const OperationNode<double>& n) { return a.reserveArraySpace(n); }
void vroot_f(A& a, const OperationNode<double>& n) { a.addFreeArraySpace(n); }
size_t vroot_c(A& a) { return a.getIdCount(); }
A* vroot_n(CodeHandlerVector<double, size_t>& v, size_t n) { return new A(v, n); }
