// C07 for GRAPH files: the COO lists the rows of the file
#include "mat.h"
#include "types.h"
#include "graphfile.h"
namespace {
using namespace h;
template <bool sym, bool ut> struct G : omc::Suite {
    typedef pigo::COO<uint32_t, uint32_t, uint32_t*, sym, ut> A;
    int kind; string text; std::vector<Entry> want; Dims d; char nm[40]; SeqEnum en{0, 0, 0};
    G(int k) : Suite(nm), kind(k) { static const char* kn[] = {"graph_zero", "graph_one", "graph_one_last"}; snprintf(nm, sizeof nm, "%s%s%s", kn[k], sym ? "_S" : "", ut ? "U" : ""); }
    size_t count() override { en = kind == 0 ? SeqEnum{9, 0, 3} : SeqEnum{7, 0, kind == 1 ? 3u : 2u}; return en.count() * (kind == 2 ? 3 : 2); }
    void prepare(size_t i) override {
        static const char* Z[] = {"\n", "1\n", "2 3\n", "#c\n", "0\n", "0 3\n", " 2\r\n", "1 1\n", "3 0 2\n"};
        static const char* N[] = {"\n", "1\n", "2 3\n", "%\n", " 2\r\n", "1 3\n", "3 1 2\n"};
        string b; int nl = 0, rows = 0; int v = i % (kind == 2 ? 3 : 2); i /= kind == 2 ? 3 : 2;
        for (int k : en.get(i)) { const char* l = kind == 0 ? Z[k] : N[k]; b += l; if (*l != '#' && *l != '%') ++rows; }
        if (kind == 0) { b += "1 0"; if (v) b += '\n'; ++rows; }
        if (kind == 1) { b += v ? "3 2\n\n" : "1\n \n"; rows += 2; }
        if (kind == 2) { static const char* t[] = {"1\n", "2 1", "3\n"}; b += t[v]; ++rows; }
        (void)nl; RefGraph c("1 1\n" + b);
        text = std::to_string(rows) + " " + std::to_string(c.ints) + "\n" + b;
        if (sym && ut && c.ints % 2 == 0) text = std::to_string(rows) + " " + std::to_string(c.ints / 2) + "\n" + b;
        RefGraph g(text); ll first = g.zero ? 0 : 1;
        want.clear(); d = Dims{g.n, g.n + first, g.maxl + 1}; if (sym) { if (d.nrows > d.ncols) d.ncols = d.nrows; else d.nrows = d.ncols; }
        for (ll r = 0; r < g.n; ++r) for (ll y : g.rows[r]) {
            Entry k{r + first, y, 0}; if (sym && ut && k.x > k.y) std::swap(k.x, k.y);
            want.push_back(k); if (sym && !ut) { std::swap(k.x, k.y); want.push_back(k); }
        }
        put_file(path("in.graph"), text);
    }
    string describe() override { return string(nm) + " " + esc(text); }
    void configs(std::vector<Config>& o) override { cfg_full(o, {1, 2}); if (omc::thorough()) cfg_full(o, {3}); cfg_policy(o, {3, 4, 7}); }
    void body() override {
        string p; { omc::Quiet q; p = path("in.graph"); } A* a = nullptr;
        try { a = new A(p); } catch (std::exception& x) { omc::fail(string("refused: ") + x.what()); }
        if ((size_t)a->m() != want.size()) omc::fail("m is " + std::to_string(a->m()) + " instead of " + std::to_string(want.size()));
        { omc::Quiet q; expect_dims(dims_of(*a), d, "COO"); }
        auto got = CooView<A, uint32_t, float, false>::get(*a);
        { omc::Quiet q; out_entries(got); auto w = want; if (sym && !ut) for (size_t k = 0; k + 1 < got.size(); k += 2) { if (got[k + 1] < got[k]) std::swap(got[k], got[k + 1]); if (w[k + 1] < w[k]) std::swap(w[k], w[k + 1]); }
          expect_entries(got, w, "COO"); std::vector<Entry>().swap(got); }
        a->free(); delete a; { omc::Quiet q; string().swap(p); }
    }
};
OMC_ADD(G<false, false>(0)); OMC_ADD(G<true, true>(0)); OMC_ADD(G<false, false>(1)); OMC_ADD(G<true, true>(1)); OMC_ADD(G<false, false>(2)); OMC_ADD(G<true, true>(2)); OMC_ADD(G<true, false>(2));
}
