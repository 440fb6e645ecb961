// instantiates the functions under contract (extraction roots only; never executed)
#include <cppad/cg/cppadcg.hpp>
using namespace CppAD::cg;
long vroot_lin(const LinearIndexPattern& l, long x) { return l.evaluate(x); }
std::map<size_t, IndexPattern*> vroot_secv(const std::vector<size_t>& v, size_t m) { return SectionedIndexPattern::detectLinearSections(v, m); }
std::map<size_t, IndexPattern*> vroot_secm(const std::map<size_t, size_t>& v, size_t m) { return SectionedIndexPattern::detectLinearSections(v, m); }
IndexPattern* vroot_detv(const std::vector<size_t>& v) { return IndexPattern::detect(v); }
IndexPattern* vroot_detm(const std::map<size_t, size_t>& v) { return IndexPattern::detect(v); }
Plane2DIndexPattern* vroot_plane(const std::map<size_t, std::map<size_t, size_t> >& v) { return Plane2DIndexPattern::detectPlane2D(v); }
Random2DIndexPattern* vroot_r2(const std::map<size_t, std::map<size_t, size_t> >& v) { return new Random2DIndexPattern(v); }
bool vroot_c(const IndexPattern& p) { return IndexPattern::isConstant(p); }
