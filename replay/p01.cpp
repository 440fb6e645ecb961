// detected index patterns reproduce the indexes they were detected from: exhaustive small inputs and random ones
#include <cppad/cg/cppadcg.hpp>
#include "h.hpp"
using namespace CppAD::cg;

// meaning of a pattern (written from the documentation of the classes, not from the generator)
static long value(const IndexPattern* p, long x, bool& ok) {
    if (p == nullptr) return 0;
    if (p->getType() == IndexPatternType::Linear) {
        const LinearIndexPattern* l = static_cast<const LinearIndexPattern*>(p);
        if (l->getLinearSlopeDx() == 0) { ok = false; return 0; }
        return (x - l->getXOffset()) / l->getLinearSlopeDx() * l->getLinearSlopeDy() + l->getLinearConstantTerm();
    }
    if (p->getType() == IndexPatternType::Sectioned) {
        const auto& s = static_cast<const SectionedIndexPattern*>(p)->getLinearSections();
        auto it = s.upper_bound(size_t(x));
        if (it == s.begin()) { ok = false; return 0; }
        --it;
        return value(it->second, x, ok);
    }
    if (p->getType() == IndexPatternType::Random1D) {
        const auto& v = static_cast<const Random1DIndexPattern*>(p)->getValues();
        auto it = v.find(size_t(x));
        if (it == v.end()) { ok = false; return 0; }
        return long(it->second);
    }
    ok = false;
    return 0;
}

template<class C> static std::string str(const C& v) {
    std::ostringstream s;
    for (auto x : v) s << x << ' ';
    return s.str();
}
static std::string strm(const std::map<size_t, size_t>& m) {
    std::ostringstream s;
    for (auto& x : m) s << x.first << ':' << x.second << ' ';
    return s.str();
}

static void sections(const std::map<size_t, IndexPattern*>& sec, const std::map<size_t, size_t>& m, size_t maxc, const std::string& d, const char* key) {
    if (sec.empty()) {
        h::begin(key, d);
        h::check(maxc != 0, "no sections although there is no limit");
        return;
    }
    SectionedIndexPattern p(sec);
    for (auto& x : m) {
        bool ok = true;
        long v = value(&p, long(x.first), ok);
        h::begin(key, d);
        h::check(ok && v == long(x.second), "index " + std::to_string(x.first) + " is reproduced as " + std::to_string(v) + (ok ? "" : " (no section)"));
    }
    h::begin(key, d);
    h::check(maxc == 0 || sec.size() <= maxc, "more sections than allowed");
}

static void one(const std::vector<size_t>& v) {
    std::map<size_t, size_t> m;
    for (size_t i = 0; i < v.size(); i++) m[i] = v[i];
    for (size_t maxc : {0, 1, 2, 3}) sections(SectionedIndexPattern::detectLinearSections(v, maxc), m, maxc, str(v) + " max " + std::to_string(maxc), "sections-list");
    std::unique_ptr<IndexPattern> p(IndexPattern::detect(v));
    for (auto& x : m) {
        bool ok = true;
        long r = value(p.get(), long(x.first), ok);
        h::begin("detect-list", str(v));
        h::check(ok && r == long(x.second), "index " + std::to_string(x.first) + " is reproduced as " + std::to_string(r));
    }
    h::begin("constant", str(v));
    bool all = true;
    for (size_t x : v) all = all && x == v[0];
    h::check(IndexPattern::isConstant(*p) == all, "isConstant");
}

static void onem(const std::map<size_t, size_t>& m) {
    for (size_t maxc : {0, 1, 2, 3}) sections(SectionedIndexPattern::detectLinearSections(m, maxc), m, maxc, strm(m) + " max " + std::to_string(maxc), "sections-map");
    std::unique_ptr<IndexPattern> p(IndexPattern::detect(m));
    for (auto& x : m) {
        bool ok = true;
        long r = value(p.get(), long(x.first), ok);
        h::begin("detect-map", strm(m));
        h::check(ok && r == long(x.second), "index " + std::to_string(x.first) + " is reproduced as " + std::to_string(r));
    }
}

static void plane(const std::map<size_t, std::map<size_t, size_t> >& z) {
    std::ostringstream d;
    for (auto& x : z)
        for (auto& y : x.second) d << x.first << ',' << y.first << ':' << y.second << ' ';
    h::begin("plane", d.str());
    std::unique_ptr<Plane2DIndexPattern> p(Plane2DIndexPattern::detectPlane2D(z));
    if (p)
        for (auto& x : z)
            for (auto& y : x.second) {
                bool ok = true;
                long r = value(p->getPattern1(), long(x.first), ok) + value(p->getPattern2(), long(y.first), ok);
                h::begin("plane", d.str());
                h::check(ok && r == long(y.second), "(" + std::to_string(x.first) + "," + std::to_string(y.first) + ") is reproduced as " + std::to_string(r));
            }
    Random2DIndexPattern q(z);
    h::begin("random2d", d.str());
    h::check(q.getValues() == z, "the table differs from the indexes");
}

SECTION(lists) {
    std::vector<int> lim = h::thorough() ? std::vector<int>{0, 6, 6, 6, 5, 4, 3, 3} : std::vector<int>{0, 6, 5, 5, 4, 3, 3, 2};
    for (size_t n = 1; n < lim.size(); n++) {
        std::vector<size_t> v(n, 0);
        for (;;) {
            one(v);
            size_t i = 0;
            while (i < n && ++v[i] == size_t(lim[n])) v[i++] = 0;
            if (i == n) break;
        }
    }
}

SECTION(random_lists) {
    auto g = h::rng(1);
    for (int k = 0; k < (h::thorough() ? 60000 : 6000); k++) {
        std::vector<size_t> v;
        int secs = 1 + h::rnd(g, 5);
        for (int s = 0; s < secs; s++) {
            long b = h::rnd(g, 30) + 60, dy = h::rnd(g, 3) == 0 ? 0 : h::rnd(g, 9) - 4;
            int len = 1 + h::rnd(g, 10);
            for (int i = 0; i < len; i++) v.push_back(size_t(b + dy * i));
            if (h::rnd(g, 2)) for (int i = h::rnd(g, 4); i > 0; i--) v.push_back(v.back());
        }
        one(v);
        std::map<size_t, size_t> m;
        size_t x = h::rnd(g, 4);
        int dx = 1 + h::rnd(g, 3), irr = h::rnd(g, 3);
        for (size_t y : v) {
            m[x] = y;
            x += irr ? dx : 1 + h::rnd(g, 3);
            if (h::rnd(g, 12) == 0) { dx = 1 + h::rnd(g, 3); }
        }
        onem(m);
    }
}

SECTION(maps) {
    // every assignment of values (or absence) to the keys 0..n-1
    int n = h::thorough() ? 8 : 7, nv = 3;
    std::vector<int> v(n, 0);
    for (;;) {
        std::map<size_t, size_t> m;
        for (int i = 0; i < n; i++)
            if (v[i]) m[i] = size_t(v[i] - 1);
        if (!m.empty()) onem(m);
        int i = 0;
        while (i < n && ++v[i] == nv + 1) v[i++] = 0;
        if (i == n) break;
    }
}

SECTION(planes) {
    // every table on a 3x3 grid with values 0..1 or absent, and sums of two patterns with a fault
    std::vector<int> v(9, 0);
    for (;;) {
        std::map<size_t, std::map<size_t, size_t> > z;
        for (int i = 0; i < 9; i++)
            if (v[i]) z[i / 3][i % 3] = size_t(v[i] - 1);
        if (!z.empty()) plane(z);
        int i = 0;
        while (i < 9 && ++v[i] == 3) v[i++] = 0;
        if (i == 9) break;
    }
    auto g = h::rng(2);
    for (int k = 0; k < (h::thorough() ? 60000 : 10000); k++) {
        std::map<size_t, std::map<size_t, size_t> > z;
        int nx = 1 + h::rnd(g, 6), ny = 1 + h::rnd(g, 6), a = h::rnd(g, 5), b = h::rnd(g, 5), sx = 1 + h::rnd(g, 2), sy = 1 + h::rnd(g, 2), x0 = h::rnd(g, 3), y0 = h::rnd(g, 3);
        int brk = h::rnd(g, 8), brky = h::rnd(g, 8), ja = h::rnd(g, 20), jb = h::rnd(g, 20), hole = h::rnd(g, 3);
        for (int x = 0; x < nx; x++)
            for (int y = 0; y < ny; y++) {
                if (hole == 0 && h::rnd(g, 5) == 0) continue;
                z[x0 + x * sx][y0 + y * sy] = size_t(40 + a * x + b * y + (x >= brk ? ja : 0) - (y >= brky ? jb : 0));
            }
        if (z.empty()) continue;
        if (h::rnd(g, 3) == 0) z.rbegin()->second.rbegin()->second++;
        plane(z);
    }
}

