// C26 graph neighbourhoods are the rows of the CSR: all small graphs, from every source, visited alone and by a team
#include "mat.h"
#include "types.h"
#include "bin.h"
#include <omp.h>
namespace {
using namespace h;
enum Src { COOSRC, MEM, ELFILE, BINFILE, DIGRAPH, DIBIN, COPYSRC, SORTED, NSRC };
const char* SN[] = {"from a COO", "in memory", "from an edge list", "from a binary file", "DiGraph from a COO", "DiGraph from a binary file", "copied view", "sorted"};
template <class L, class O, int S, class W, bool wgt> struct Nb : omc::Suite {
    typedef pigo::COO<L, O, typename St<L, S>::t, false, false, false, wgt, W, typename St<W, S>::t> A;
    typedef pigo::BaseGraph<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> G;
    typedef pigo::DiGraph<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> D;
    char nm[60]; int kind, src; std::vector<Entry> e; Dims d; SeqEnum en{0, 0, 0}; std::vector<std::vector<ll>> rows, cols;
    Nb(int k) : Suite(nm), kind(k), src(0) { snprintf(nm, sizeof nm, "%s_%s%s%s%s", k == 2 ? "many" : k ? "large" : "small", tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    size_t count() override { en = SeqEnum{9, 0, omc::thorough() ? 4u : 3u}; return (kind == 2 ? (S == VEC && OB > 255 ? 5 : many_count(OB, LB)) : kind ? 20 : en.count()) * NSRC; }
    static constexpr ull OB = cap<O>(), LB = S == VEC ? (cap<L>() < 255 ? cap<L>() : 255) : cap<L>() < 32769 ? cap<L>() : 32769;
    void prepare(size_t i) override {
        src = i % NSRC; i /= NSRC; e.clear();
        if (kind == 2) { many_case(i, OB, e, d, LB, LB); if (S == VEC && e.size() > 300) e.resize(300); if (e.size() > 5000) e.resize(5000); } // vector iterators copy the vector
        else if (kind) { int n = i == 0 ? 1 : i * 11, m = i % 4 == 3 ? 900 + i : i * i + 2; if (n > 120) n = 120; if (cap<O>() < 256 && (ull)m > cap<O>() - 5) m = cap<O>() - 5; if (S == VEC) { n = std::min(n, 40); m = std::min(m, 300); } for (int k = 0; k < m; ++k) e.push_back(Entry{(k * (i % 3 == 1 ? 0 : 7) + k / 9) % n, (k * k + (int)i) % n, wval(k)}); d = Dims{n, n, n}; }
        else { e = entries_of(en.get(i), 3); d = Dims{3, 3, 3}; }
        if (!wgt) zero_w(e);
        if (src == ELFILE) { string s; char b[60]; for (auto& k : e) { snprintf(b, sizeof b, wgt ? "%lld %lld %g\n" : "%lld %lld\n", k.x, k.y, k.w); s += b; } if (e.empty()) s = "# none\n"; put_file(path("in.el"), s); d = ref_dims(e); }
        auto se = by_row(e), sc = by_row(swapped(e));
        if (src == BINFILE) put_file(path("in.bin"), csr_bin<L, O, W>(se, d, wgt));
        if (src == DIBIN) put_file(path("in.bin"), digraph_bin<L, O, W>(e, d, wgt));
        rows.assign(d.n, {}); cols.assign(d.n, {}); for (auto& k : se) rows[k.x].push_back(k.y); for (auto& k : sc) cols[k.x].push_back(k.y);
    }
    string describe() override { return string(nm) + " " + SN[src] + " n=" + std::to_string(d.n) + " entries " + show(e); }
    void configs(std::vector<Config>& o) override { if (kind == 2 && (e.size() > 2000 || d.n > 300)) cfg_policy(o, {1, 4}); else if (kind) cfg_policy(o, {1, 2, 3, 4, 8}); else { cfg_full(o, {1, 2}); cfg_policy(o, {3, 4}); } }
    // one vertex: what it visits, in order, is what the row holds
    static void visit(G& g, ll v, const std::vector<ll>& want, bool exact, const char* what) {
        size_t a = g.neighbor_start((L)v), b = g.neighbor_end((L)v), deg = g.degree((L)v);
        auto off = raw(g.offsets()); auto ep = raw(g.endpoints());
        if (a != (size_t)off[v] || b != (size_t)off[v + 1]) omc::fail(string(what) + ": start and end of vertex " + std::to_string(v) + " are " + std::to_string(a) + ", " + std::to_string(b) + " instead of " + std::to_string(off[v]) + ", " + std::to_string(off[v + 1]));
        if (deg != want.size()) omc::fail(string(what) + ": the degree of " + std::to_string(v) + " is " + std::to_string(deg) + " instead of " + std::to_string(want.size()));
        std::vector<ll> got; size_t k = 0; { omc::Quiet q; got.reserve(deg + 1); }
        auto nb = g.neighbors((L)v);
        for (auto u : nb) {
            if (k >= deg) omc::fail(string(what) + ": more neighbours than the degree of " + std::to_string(v));
            if (u != ep[a + k]) omc::fail(string(what) + ": neighbour " + std::to_string(k) + " of " + std::to_string(v) + " is " + std::to_string(u) + " instead of " + std::to_string(ep[a + k]));
            ++k; omc::Quiet q; got.push_back((ll)u);
        }
        if (k != deg) omc::fail(string(what) + ": " + std::to_string(k) + " neighbours of " + std::to_string(v) + " instead of " + std::to_string(deg));
        // visited again by hand, the iterator object used more than once
        k = 0; auto it = nb.begin(); auto en = nb.end(); for (; it != en; ++it) { if (*it != ep[a + k] || *it != ep[a + k]) omc::fail(string(what) + ": the second visit differs"); ++k; if (k > deg) break; }
        if (k != deg) omc::fail(string(what) + ": the second visit has " + std::to_string(k) + " neighbours");
        omc::Quiet q; auto w = want; if (!exact) { std::sort(got.begin(), got.end()); std::sort(w.begin(), w.end()); }
        if (got != w) omc::fail(string(what) + ": the neighbours of " + std::to_string(v) + " are " + show(got) + " instead of " + show(w));
        std::vector<ll>().swap(got); std::vector<ll>().swap(w);
    }
    static void all(G& g, const std::vector<std::vector<ll>>& want, bool exact, const char* what) {
        if ((size_t)g.n() < want.size() || ((size_t)g.n() > want.size() && !want.empty())) omc::fail(string(what) + ": n is " + std::to_string(g.n()));
        for (size_t v = 0; v < want.size(); ++v) visit(g, v, want[v], exact, what);
        size_t total = 0;
        #pragma omp parallel for schedule(static) reduction(+ : total)
        for (size_t v = 0; v < want.size(); ++v) { size_t k = 0; for (auto u : g.neighbors((L)v)) { (void)u; ++k; } if (k != (size_t)g.degree((L)v)) omc::fail("a concurrent visit has another number of neighbours"); total += k; }
        if (total != (size_t)g.m()) omc::fail(string(what) + ": the degrees add up to " + std::to_string(total));
        omc::outcome(total);
    }
    void body() override {
        string p; { omc::Quiet q; p = path(src == ELFILE ? "in.el" : "in.bin"); }
        if (src == DIGRAPH || src == DIBIN) {
            D* g; if (src == DIBIN) g = new D(p); else { A* a = make_coo<A, wgt>(e, d); g = new D(*a); a->free(); delete a; }
            all(g->out(), rows, src == DIBIN, "out"); all(g->in(), cols, src == DIBIN, "in"); g->free(); delete g;
        } else {
            G* g = nullptr; auto se = [&] { omc::Quiet q; return by_row(e); }();
            if (src == COOSRC || src == COPYSRC || src == SORTED) { A* a = make_coo<A, wgt>(e, d); g = new G(*a); a->free(); delete a; }
            else if (src == MEM) g = make_csr<G, wgt>(se, d); else g = new G(p);
            if (src == SORTED) g->sort();
            if (src == COPYSRC) { G c(*g); all(c, rows, false, "copied view"); }
            all(*g, rows, src == MEM || src == BINFILE, "graph");
            if (kind == 0 && src != SORTED && !rows.empty()) { // the vertices moved on by one, in place
                size_t n = rows.size(), at = 0; std::vector<std::vector<ll>> r2; { omc::Quiet q; r2 = rows; } for (size_t v = 0; v < n; ++v) { { omc::Quiet q; r2[v] = rows[(v + 1) % n]; } put(g->offsets(), v, at); for (ll u : r2[v]) put(g->endpoints(), at++, u); }
                put(g->offsets(), n, at); all(*g, r2, true, "graph changed in place"); omc::Quiet q; std::vector<std::vector<ll>>().swap(r2); }
            g->free(); delete g; { omc::Quiet q; std::vector<Entry>().swap(se); }
        }
        omc::Quiet q; string().swap(p);
    }
};
#define GR(...) OMC_ADD(Nb<__VA_ARGS__>(0)); OMC_ADD(Nb<__VA_ARGS__>(1)); OMC_ADD(Nb<__VA_ARGS__>(2));
}
