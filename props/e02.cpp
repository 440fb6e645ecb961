// instantiates the functions under contract (extraction roots only; never executed)
#include <cppad/cg/cppadcg.hpp>
using namespace CppAD::cg;
typedef OperationNode<double> Nd;
struct Ev : EvaluatorOperations<double, double, double, Ev> {
    typedef EvaluatorOperations<double, double, double, Ev> S;
    friend class EvaluatorBase<double, double, double, Ev>;
    friend class EvaluatorOperations<double, double, double, Ev>;
    Ev(CodeHandler<double>& h) : S(h) {}
    void vroot_e(Nd& n, const std::vector<Argument<double>>& a, const Argument<double>& g, const CG<double>& c, double* y, const CG<double>* d, size_t m, ArrayView<const double> va, ArrayView<double> vb, ArrayView<const CG<double>> vc) {
        evaluate(va, vc); evaluate(va, vb, vc); evaluate(y, m, y, d, m); clear(); evalCG(c); evalArg(a, m); evalArg(g, m); evalOperations(n); saveEvaluation(n, 1.0); evalOperation(n);
        isUnderEvaluation(); prepareNewEvaluation(); analyzeOutIndeps(y, m); evalArrayCreationOperation(n); evalSparseArrayCreationOperation(n);
        evalAssign(n); evalAbs(n); evalAcos(n); evalAdd(n); evalAlias(n); evalArrayElement(n); evalAsin(n); evalAtan(n); evalCompareLt(n); evalCompareLe(n); evalCompareEq(n); evalCompareGe(n); evalCompareGt(n); evalCompareNe(n);
        evalCosh(n); evalCos(n); evalDiv(n); evalExp(n); evalIndependent(n); evalLog(n); evalMul(n); evalPow(n); evalPrint(n); evalSign(n); evalSinh(n); evalSin(n); evalSqrt(n); evalSub(n); evalTanh(n); evalTan(n); evalMinus(n); evalUnsupportedOperation(n);
    }
};
void vroot_x(Ev& l, Nd& n, const std::vector<Argument<double>>& a, const Argument<double>& g, const CG<double>& c, double* y, const CG<double>* d, size_t m, ArrayView<const double> va, ArrayView<double> vb, ArrayView<const CG<double>> vc) { l.vroot_e(n, a, g, c, y, d, m, va, vb, vc); }
struct Eg : EvaluatorCG<double, double, Eg> {
    typedef EvaluatorCG<double, double, Eg> S;
    friend class EvaluatorBase<double, double, CG<double>, Eg>;
    friend class EvaluatorOperations<double, double, CG<double>, Eg>;
    friend class EvaluatorCG<double, double, Eg>;
    Eg(CodeHandler<double>& h) : S(h) {}
    void vroot_g(Nd& n, CG<double>& c, const CG<double>* x, size_t m, const std::vector<CG<double>>& a, std::vector<double>& v, bool& b1, bool& b2) {
        processActiveOut(n, c); processArray(a, v, b1, b2); evalPrint(n); evalArrayElement(n); makeArray(n); makeArray(n, v, b1, b2); makeDenseArray(n); makeSparseArray(n); analyzeOutIndeps(x, m); evalAtomicOperation(n);
        evaluate(x, m, &c, x, m); setPrintOutPrintOperations(b1); isPrintOutPrintOperations();
    }
};
void vroot_y(Eg& e, Nd& n, CG<double>& c, const CG<double>* x, size_t m, const std::vector<CG<double>>& a, std::vector<double>& v, bool& b1, bool& b2) { e.vroot_g(n, c, x, m, a, v, b1, b2); }
// the library's own evaluators must build for the same operations
template class CppAD::cg::Evaluator<double, double, CG<double>>;
