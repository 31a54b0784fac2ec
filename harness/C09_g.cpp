// C09 for CSRs loaded from GRAPH files: the row of the last vertex of a one-based file lies beyond n
#include "C09.h"
#include "graphfile.h"
namespace {
template <class L, class O, int S> struct FromGraph : omc::Suite {
    typedef pigo::CSR<L, O, typename St<L, S>::t, typename St<O, S>::t, false> C;
    char nm[60]; string text; std::vector<std::vector<ll>> rows; ll first, n, m, maxl; SeqEnum en{0, 0, 0};
    FromGraph() : Suite(nm) { snprintf(nm, sizeof nm, "graph_%s%s%s", tname<L>(), tname<O>(), sname(S)); }
    size_t count() override { en = SeqEnum{6, 1, omc::thorough() ? 4u : 3u}; return en.count() * 2; }
    void prepare(size_t i) override {
        static const char* R1[] = {"\n", "1\n", "3 2 1\n", "2 2 1 1\n", "1 1 1\n", "3 1 3 2\n"};
        static const char* R0[] = {"\n", "0\n", "2 1 0\n", "2 2 0 0\n", "0 0 0\n", "1 0 1 2\n"};
        string b; int k = 0; bool z = i % 2; for (int v : en.get(i / 2)) { b += z ? R0[v] : R1[v]; ++k; }
        RefGraph c("1 1\n" + b); text = std::to_string(k) + " " + std::to_string(c.ints) + "\n" + b;
        RefGraph g(text); rows = g.rows; first = g.zero ? 0 : 1; n = g.n; m = g.ints; maxl = g.maxl; put_file(path("in.graph"), text);
    }
    string describe() override { return string(nm) + " " + esc(text); }
    void configs(std::vector<Config>& o) override { cfg_full(o, {1, 2}); cfg_policy(o, {3, 4}); }
    void expect(C& c, const std::vector<std::vector<ll>>& rows, const char* what) {
        auto off = raw(c.offsets()); auto ep = raw(c.endpoints()); size_t mm = 0; for (auto& r : rows) mm += r.size();
        if ((size_t)c.m() != mm) omc::fail(string(what) + ": m is " + std::to_string(c.m()));
        if ((ll)c.n() != n || (ll)c.nrows() != n + first || (ll)c.ncols() != maxl + 1) omc::fail(string(what) + ": n, nrows, ncols are " + std::to_string(c.n()) + ", " + std::to_string(c.nrows()) + ", " + std::to_string(c.ncols()));
        size_t pos = 0;
        for (ll v = 0; v < n; ++v) {
            if ((size_t)off[v + first] != pos) omc::fail(string(what) + ": row " + std::to_string(v + first) + " starts at " + std::to_string(off[v + first]));
            for (ll y : rows[v]) { if ((ll)ep[pos] != y) omc::fail(string(what) + ": endpoint " + std::to_string(pos) + " is " + std::to_string(ep[pos]) + " instead of " + std::to_string(y)); ++pos; }
            omc::outcome(pos);
        }
    }
    void body() override {
        string p; std::vector<std::vector<ll>> sorted, unique; { omc::Quiet q; p = path("in.graph"); sorted = rows; for (auto& r : sorted) std::sort(r.begin(), r.end()); unique = sorted; for (auto& r : unique) r.erase(std::unique(r.begin(), r.end()), r.end()); }
        {
            C c(p, pigo::GRAPH);
            expect(c, rows, "CSR");
            { auto d = c.template new_csr_without_dups<L, O, typename St<L, S>::t, typename St<O, S>::t, false>();
              expect(c, sorted, "sorted CSR"); expect(d, unique, "de-duplicated CSR"); d.free(); }
            c.free();
        }
        { omc::Quiet q; std::vector<std::vector<ll>>().swap(sorted); std::vector<std::vector<ll>>().swap(unique); string().swap(p); }
    }
};
OMC_ADD(FromGraph<uint32_t, uint32_t, PTR>); OMC_ADD(FromGraph<uint8_t, uint16_t, VEC>); OMC_ADD(FromGraph<int64_t, int32_t, SP>);
}
