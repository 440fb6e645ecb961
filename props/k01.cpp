// instantiates the functions under contract (extraction roots only; never executed)
#include <cppad/cg/cppadcg.hpp>
using namespace CppAD::cg;
typedef FunctorGenericModel<double> M;
typedef ArrayView<const double> C;
typedef ArrayView<double> V;
typedef std::vector<double> D;
typedef std::vector<size_t> S;
typedef std::vector<const double*> P;
void vroot_a(M& m, C x, V y, C w, V z, C u, P& ps, D& a, D& b, D& c, S& r, S& s, size_t n, const size_t* idx, const double* t, size_t const** pr, size_t const** pc,
             CppAD::vector<bool>& vx, CppAD::vector<bool>& vy) {
    m.JacobianSparsityBool(); m.JacobianSparsitySet(); m.JacobianSparsity(r, s);
    m.HessianSparsityBool(); m.HessianSparsitySet(); m.HessianSparsity(r, s);
    m.HessianSparsityBool(n); m.HessianSparsitySet(n); m.HessianSparsity(n, r, s);
    m.Domain(); m.Range();
    m.ForwardZero(x, y); m.ForwardZero(ps, y); m.ForwardZero(vx, vy, x, y);
    m.Jacobian(x, y); m.Hessian(x, w, y);
    m.ForwardOne(x, y); m.ForwardOne(x, n, idx, t, y);
    m.ReverseOne(x, w, y, u); m.ReverseOne(x, y, n, idx, t);
    m.ReverseTwo(x, w, y, u); m.ReverseTwo(x, n, idx, t, y, w);
    m.SparseJacobian(x, y); m.SparseJacobian(a, b, r, s); m.SparseJacobian(x, y, pr, pc); m.SparseJacobian(ps, y, pr, pc);
    m.SparseHessian(x, w, y); m.SparseHessian(a, b, c, r, s); m.SparseHessian(x, w, y, pr, pc); m.SparseHessian(ps, w, y, pr, pc);
    m.isForwardZeroAvailable(); m.isJacobianAvailable(); m.isHessianAvailable(); m.isForwardOneAvailable(); m.isReverseOneAvailable(); m.isReverseTwoAvailable();
    m.isSparseJacobianAvailable(); m.isSparseHessianAvailable(); m.isSparseForwardOneAvailable(); m.isSparseReverseOneAvailable(); m.isSparseReverseTwoAvailable();
    m.isJacobianSparsityAvailable(); m.isHessianSparsityAvailable(); m.isEquationHessianSparsityAvailable();
}
