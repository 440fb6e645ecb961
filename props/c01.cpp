// instantiates the functions under contract (extraction roots only; never executed)
#include <cppad/cg/cppadcg.hpp>
using namespace CppAD::cg;
struct L : LanguageC<double> {
    using LanguageC<double>::LanguageC;
    void vroot_l(OperationNode<double>& n, const Argument<double>& a, const std::string& s, bool b) {
        pushExpressionNoVarCheck(n); pushExpressionNoVarCheck2(n); pushExpression(n); push(a); pushAssignment(n, a); pushAssignment(n, n); pushAssignmentStart(n); pushAssignmentStart(n, s, b); pushAssignmentEnd(n);
        pushAssignOp(n); pushUnaryFunction(n); pushPowFunction(n); pushSignFunction(n); pushOperationAlias(n); pushOperationAdd(n); pushOperationMinus(n); pushOperationDiv(n); pushOperationMul(n);
        pushOperationUnaryMinus(n); pushConditionalAssignment(n); pushIndependentVariableName(n); pushParameter(1.0); printParameter(1.0); pushPrintOperation(n); getComparison(CGOpCode::ComLt);
        isFunction(CGOpCode::Abs); isUnaryFunction(CGOpCode::Abs); isCondAssign(CGOpCode::Abs);
        encloseInParenthesesDiv(&n); encloseInParenthesesMul(&n); getPrintfBaseFormat();
    }
};
void vroot_x(L& l, OperationNode<double>& n, const Argument<double>& a, const std::string& s) { l.vroot_l(n, a, s, true); }
