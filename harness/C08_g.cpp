// C08 for GRAPH files, whose entries become those of both views
#include "C08.h"
#include "graphfile.h"
namespace {
template <int obj, class L, class O, int S> struct FromGraph : omc::Suite {
    typedef Make<obj, L, O, S, float, false> M; typedef typename M::D D;
    char nm[60]; string text; std::vector<Entry> e; Dims d; SeqEnum en{0, 0, 0};
    FromGraph() : Suite(nm) { snprintf(nm, sizeof nm, "%s_graph_%s%s%s", obj == MATRIX ? "matrix" : "digraph", tname<L>(), tname<O>(), sname(S)); }
    size_t count() override { en = SeqEnum{5, 1, omc::thorough() ? 4u : 3u}; return en.count() * 2; }
    void prepare(size_t i) override {
        static const char* R1[] = {"\n", "1\n", "3 2 1\n", "2 5\n", "3 1 1\n"};
        static const char* R0[] = {"\n", "0\n", "2 1 0\n", "0 4\n", "1 0 0\n"};
        string b; int k = 0; bool z = i % 2; for (int v : en.get(i / 2)) { b += z ? R0[v] : R1[v]; ++k; }
        RefGraph c("1 1\n" + b); text = std::to_string(k) + " " + std::to_string(c.ints) + "\n" + b;
        RefGraph g(text); ll first = g.zero ? 0 : 1; e.clear();
        for (ll v = 0; v < g.n; ++v) for (ll y : g.rows[v]) e.push_back(Entry{v + first, y, 0});
        d = Dims{0, g.n + first, g.maxl + 1}; d.n = std::max(d.nrows, d.ncols); put_file(path("in.graph"), text);
    }
    string describe() override { return string(nm) + " " + esc(text); }
    void configs(std::vector<Config>& o) override { cfg_full(o, {1, 2}); cfg_policy(o, {3, 4}); }
    void body() override {
        D* m = nullptr; string p; { omc::Quiet q; p = path("in.graph"); }
        try { m = M::file(p, 0); } catch (std::exception& x) { omc::fail(string("refused: ") + x.what()); }
        check_csr<typename std::remove_reference<decltype(M::rows(*m))>::type, false>(M::rows(*m), e, d, "row view");
        { std::vector<Entry> s; { omc::Quiet q; s = swapped(e); } check_csr<typename std::remove_reference<decltype(M::cols(*m))>::type, false>(M::cols(*m), s, d, "column view"); drop(s); }
        m->free(); delete m; { omc::Quiet q; string().swap(p); }
    }
};
OMC_ADD(FromGraph<MATRIX, uint32_t, uint32_t, PTR>); OMC_ADD(FromGraph<DIGRAPH, uint32_t, uint32_t, PTR>); OMC_ADD(FromGraph<DIGRAPH, uint8_t, uint32_t, VEC>); OMC_ADD(FromGraph<DIGRAPH, uint64_t, uint32_t, SP>);
}
