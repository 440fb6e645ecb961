// instantiates the functions under contract (extraction roots only; never executed)
#include <cppad/cg/cppadcg.hpp>
using namespace CppAD;
using namespace CppAD::cg;
using G = CG<double>;
G vroot_add(const G& a, const G& b) { return a + b; }
G vroot_sub(const G& a, const G& b) { return a - b; }
G vroot_mul(const G& a, const G& b) { return a * b; }
G vroot_div(const G& a, const G& b) { return a / b; }
G vroot_add1(const G& a, double b) { return a + b; }
G vroot_sub1(const G& a, double b) { return a - b; }
G vroot_mul1(const G& a, double b) { return a * b; }
G vroot_div1(const G& a, double b) { return a / b; }
G vroot_add2(double a, const G& b) { return a + b; }
G vroot_sub2(double a, const G& b) { return a - b; }
G vroot_mul2(double a, const G& b) { return a * b; }
G vroot_div2(double a, const G& b) { return a / b; }
G vroot_add3(const G& a, int b) { return a + b; }
G vroot_sub3(const G& a, int b) { return a - b; }
G vroot_mul3(const G& a, int b) { return a * b; }
G vroot_div3(const G& a, int b) { return a / b; }
G vroot_add4(int a, const G& b) { return a + b; }
G vroot_sub4(int a, const G& b) { return a - b; }
G vroot_mul4(int a, const G& b) { return a * b; }
G vroot_div4(int a, const G& b) { return a / b; }
void vroot_cadd(G& a, const G& b) { a += b; }
void vroot_csub(G& a, const G& b) { a -= b; }
void vroot_cmul(G& a, const G& b) { a *= b; }
void vroot_cdiv(G& a, const G& b) { a /= b; }
void vroot_cadd1(G& a, double b) { a += b; }
void vroot_csub1(G& a, double b) { a -= b; }
void vroot_cmul1(G& a, double b) { a *= b; }
void vroot_cdiv1(G& a, double b) { a /= b; }
void vroot_cadd2(G& a, int b) { a += b; }
void vroot_csub2(G& a, int b) { a -= b; }
void vroot_cmul2(G& a, int b) { a *= b; }
void vroot_cdiv2(G& a, int b) { a /= b; }
G vroot_pos(const G& a) { return +a; }
G vroot_neg(const G& a) { return -a; }
#define F(n) G vroot_##n(const G& a) { return CppAD::n(a); }
F(abs) F(fabs) F(acos) F(asin) F(atan) F(cos) F(cosh) F(exp) F(log) F(sin) F(sinh) F(sqrt) F(tan) F(tanh)
F(erf) F(erfc) F(asinh) F(acosh) F(atanh) F(expm1) F(log1p) F(log10) F(sign)
G vroot_pow(const G& a, const G& b) { return CppAD::pow(a, b); }
G vroot_pow1(const G& a, double b) { return CppAD::pow(a, b); }
G vroot_pow2(double a, const G& b) { return CppAD::pow(a, b); }
G vroot_pow3(int a, const G& b) { return CppAD::pow<double>(a, b); }
G vroot_lt(const G& a, const G& b, const G& c, const G& d) { return CppAD::CondExpLt(a, b, c, d); }
G vroot_le(const G& a, const G& b, const G& c, const G& d) { return CppAD::CondExpLe(a, b, c, d); }
G vroot_eq(const G& a, const G& b, const G& c, const G& d) { return CppAD::CondExpEq(a, b, c, d); }
G vroot_ge(const G& a, const G& b, const G& c, const G& d) { return CppAD::CondExpGe(a, b, c, d); }
G vroot_gt(const G& a, const G& b, const G& c, const G& d) { return CppAD::CondExpGt(a, b, c, d); }
G vroot_op(CompareOp o, const G& a, const G& b, const G& c, const G& d) { return CppAD::CondExpOp(o, a, b, c, d); }
void vroot_asg(G& a, const G& b) { a = b; }
void vroot_asgm(G& a, G& b) { a = std::move(b); }
void vroot_asgb(G& a, double b) { a = b; }
void vroot_setv(G& a, double b) { a.setValue(b); }
double vroot_getv(const G& a) { return a.getValue(); }
bool vroot_q1(const G& a) { return a.isVariable(); }
bool vroot_q2(const G& a) { return a.isParameter(); }
bool vroot_q3(const G& a) { return a.isValueDefined(); }
bool vroot_q4(const G& a) { return a.isIdenticalZero(); }
bool vroot_q5(const G& a) { return a.isIdenticalOne(); }
OperationNode<double>* vroot_q6(const G& a) { return a.getOperationNode(); }
CodeHandler<double>* vroot_q7(const G& a) { return a.getCodeHandler(); }
bool vroot_c1(const G& a, const G& b) { return a == b; }
bool vroot_c2(const G& a, const G& b) { return a != b; }
bool vroot_c3(const G& a, const G& b) { return a < b; }
bool vroot_c4(const G& a, const G& b) { return a <= b; }
bool vroot_c5(const G& a, const G& b) { return a > b; }
bool vroot_c6(const G& a, const G& b) { return a >= b; }
bool vroot_c7(const G& a, double b) { return a == b; }
bool vroot_c8(double a, const G& b) { return a == b; }
bool vroot_c10(double a, const G& b) { return a != b; }
bool vroot_i0(const G& a) { return CppAD::IdenticalZero(a); }
bool vroot_i1(const G& a) { return CppAD::IdenticalOne(a); }
bool vroot_o1(const G& a) { return CppAD::GreaterThanZero(a); }
bool vroot_o2(const G& a) { return CppAD::GreaterThanOrZero(a); }
bool vroot_o3(const G& a) { return CppAD::LessThanZero(a); }
bool vroot_o4(const G& a) { return CppAD::LessThanOrZero(a); }
bool vroot_o5(const G& a, const G& b) { return CppAD::abs_geq(a, b); }
bool vroot_i2(const G& a) { return CppAD::IdenticalCon(a); }
bool vroot_i3(const G& a, const G& b) { return CppAD::IdenticalEqualCon(a, b); }
