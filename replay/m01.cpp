// M01: sequences of reservations and releases on the real ArrayIdCompresser against a cell-by-cell model of the shared array.
#include <cppad/cg/cppadcg.hpp>
#include "h.hpp"
using namespace CppAD;
using namespace CppAD::cg;
typedef CG<double> G;
typedef OperationNode<double> Nd;
typedef std::unique_ptr<CodeHandlerVector<double, size_t>> Ids;
struct Live { Nd* n; size_t b, len; };
static void run(std::mt19937_64& g, size_t steps, size_t maxLen, const std::string& name, int pRelease) {
    CodeHandler<double> h;
    std::vector<G> x(3);
    h.makeVariables(x);
    CodeHandlerVector<double, size_t> id(h);
    id.adjustSize();
    ArrayIdCompresser<double> c(id, steps * maxLen);
    std::vector<Live> live;
    size_t cnt = 1, sum = 0;
    std::ostringstream d;
    d << name << ": ";
    h::begin("newStorage", d.str());
    h::check(c.getIdCount() == 1, "initial size is not zero");
    std::set<size_t> used; // live cells
    for (size_t s = 0; s < steps; s++) {
        bool rel = !live.empty() && (int) h::rnd(g, 100) < pRelease;
        if (!rel) {
            size_t n = h::rnd(g, maxLen + 1);
            // now and then an array whose arguments are elements of an array which is released just before it
            std::vector<Live> now;
            if (h::rnd(g, 3) == 0) for (size_t q = 0; q < live.size(); q++) if (h::rnd(g, 2) && live[q].len) { now.push_back(live[q]); live.erase(live.begin() + q); q--; }
            std::vector<Argument<double>> a;
            std::set<size_t> black;
            for (size_t i = 0; i < n; i++) {
                auto& pool = !now.empty() && h::rnd(g, 2) ? now : live;
                size_t k = h::rnd(g, 4);
                if (k < 2 && !pool.empty()) {
                    Live& o = pool[h::rnd(g, pool.size())];
                    if (o.len) {
                        size_t e = h::rnd(g, o.len);
                        Nd* el = h.makeNode(CGOpCode::ArrayElement, std::vector<size_t>{e}, std::vector<Argument<double>>{*o.n, *x[0].getOperationNode()});
                        id.adjustSize(*el);
                        a.push_back(*el);
                        black.insert(o.b + e);
                        continue;
                    }
                }
                if (k == 2) a.push_back(Argument<double>(double(h::rnd(g, 2)))); else a.push_back(*x[h::rnd(g, 3)].getOperationNode());
            }
            for (auto& o : now) {
                d << "free@" << o.b << "+" << o.len << " ";
                h::begin("addFreeArraySpace", d.str());
                c.addFreeArraySpace(*o.n);
                h::check(c.getIdCount() == cnt, "releasing changes the size");
                for (size_t i = 0; i < o.len; i++) used.erase(o.b + i);
            }
            Nd* node = h.makeNode(CGOpCode::ArrayCreation, std::vector<size_t>{}, a);
            id.adjustSize(*node);
            d << "new(" << n;
            for (size_t b : black) d << " x" << b;
            d << ")";
            h::begin("reserveArraySpace", d.str());
            size_t b = c.reserveArraySpace(*node), cn = c.getIdCount();
            d << "=" << b << " ";
            h::begin("reserveArraySpace", d.str());
            id[*node] = b + 1;
            sum += n;
            h::check(cn >= cnt, "the size shrinks");
            h::check(cn - 1 <= sum, "the size exceeds the sum of all arrays");
            if (n) h::check(b + n <= cn - 1, "range outside the reported size " + std::to_string(cn - 1));
            for (size_t i = 0; i < n; i++) {
                if (used.count(b + i)) { h::fail("cell " + std::to_string(b + i) + " of a live array is handed out"); return; }
                if (black.count(b + i)) { h::fail("cell " + std::to_string(b + i) + " is read to build the new array"); return; }
            }
            for (size_t i = 0; i < n; i++) used.insert(b + i);
            cnt = cn;
            live.push_back({node, b, n});
        } else {
            size_t q = h::rnd(g, live.size());
            Live o = live[q];
            live.erase(live.begin() + q);
            d << "free@" << o.b << "+" << o.len << " ";
            h::begin("addFreeArraySpace", d.str());
            c.addFreeArraySpace(*o.n);
            h::check(c.getIdCount() == cnt, "releasing changes the size");
            for (size_t i = 0; i < o.len; i++) used.erase(o.b + i);
        }
        if (h::fails()) return;
        // "releasing returns exactly its range": a probe copy must be able to reuse all free cells below the size, and only those
        if (h::rnd(g, 5) == 0) {
            ArrayIdCompresser<double> p(c);
            size_t gap = 0, free = 0, pc = cnt;
            std::set<size_t> u = used;
            (void) gap;
            for (size_t i = 0; i + 1 < cnt; i++) free += !used.count(i);
            h::begin("addFreeArraySpace", d.str() + "(then single cells)");
            for (size_t i = 0; i < free; i++) {
                Nd* one = h.makeNode(CGOpCode::ArrayCreation, std::vector<size_t>{}, std::vector<Argument<double>>{*x[0].getOperationNode()});
                id.adjustSize(*one);
                size_t b = p.reserveArraySpace(*one);
                if (u.count(b)) { h::fail("cell " + std::to_string(b) + " of a live array is handed out"); return; }
                if (b + 1 >= pc) { h::fail("free cells are lost: a new cell is added although free ones exist"); return; }
                u.insert(b);
            }
        }
    }
}
SECTION(sequences) {
    auto g = h::rng(101);
    size_t N = h::thorough() ? 6000 : 700;
    for (size_t i = 0; i < N && !h::fails(); i++) run(g, 4 + h::rnd(g, 40), 1 + h::rnd(g, 6), "sequence " + std::to_string(i), 30 + (int) h::rnd(g, 45));
}
SECTION(short_sequences) {
    auto g = h::rng(102);
    size_t N = h::thorough() ? 40000 : 5000;
    for (size_t i = 0; i < N && !h::fails(); i++) run(g, 3 + h::rnd(g, 6), 1 + h::rnd(g, 4), "short sequence " + std::to_string(i), 40);
}
