// C18 a container loaded from a File holds what follows the cursor, exactly as loaded from a file with only those bytes
#include "text.h"
#include "bin.h"
namespace {
using namespace h;
typedef std::vector<double> Dump;
enum Kind { K_COO, K_SYM, K_CSR, K_DIG, K_TNS, K_GRA };
template <class L, class O, int S, class W, bool wgt> struct Cursor : omc::Suite {
    typedef pigo::COO<L, O, typename St<L, S>::t, false, false, false, wgt, W, typename St<W, S>::t> Coo;
    typedef pigo::COO<L, O, typename St<L, S>::t, true, false, false, wgt, W, typename St<W, S>::t> Sym;
    typedef pigo::CSR<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> Csr;
    typedef pigo::BaseGraph<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> Gra;
    typedef pigo::DiGraph<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> Dig;
    typedef pigo::Tensor<L, O, typename St<L, S>::t, W, typename St<W, S>::t, wgt> Tns;
    struct Case { Kind k; pigo::FileType t; string s; bool bin; bool cut = false; };
    std::vector<Case> cs; std::vector<string> pre; char nm[50]; size_t ci, pi; int how;
    Cursor(int) : Suite(nm), ci(0), pi(0), how(0) { snprintf(nm, sizeof nm, "cursor_%s%s%s%s", tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    static Case mk(Kind k, pigo::FileType t, const string& s, bool b) { Case c; c.k = k; c.t = t; c.s = s; c.bin = b; return c; }
    void fill() {
        if (!cs.empty()) return;
        pre = {"", "7", "7 ", "9 9 9\n", "9 9 9", "\n", "#", "# c\n9 8 7\r\n", "-", "PIGO-COO-v1", "%%MatrixMarket matrix coordinate real general\n2 2 0\n", string(4090, '5') + "\n", string("\0\xff", 2), string(200, '\n')};
        string w = wgt ? " 5" : "";
        std::vector<string> el = {"1 2" + w + "\n3 0" + w + "\n", "1 0" + w, "# x\n12 3" + w + "\n%y\n 4 4" + w + "\n\n5 1" + w + "\r\n", "", "\n", "10 11" + w + "\n1 1" + w + "\n2 3" + w + "\n9 9" + w + "\n0 0" + w + "\n"};
        for (Kind k : {K_COO, K_SYM, K_CSR, K_DIG, K_GRA}) for (auto& s : el) cs.push_back(mk(k, pigo::EDGE_LIST, s, false));
        for (Kind k : {K_COO, K_SYM, K_CSR, K_DIG, K_GRA}) for (auto s : {"4 4 2\n1 2" + w + "\n3 4" + w + "\n", "% c\n2 3 1\n2 1" + w, "2 2 2\n1 1" + w + "\n"}) cs.push_back(mk(k, pigo::MATRIX_MARKET, "%%MatrixMarket matrix coordinate real general\n" + s, false));
        if (!wgt) for (Kind k : {K_COO, K_SYM, K_CSR, K_GRA}) for (auto s : {"3 4\n2 3\n1\n1\n", "% c\n2 1\n\n1", "2 2\n1 1\n", "1 1\n1\n"}) cs.push_back(mk(k, pigo::GRAPH, s, false));
        for (auto s : {"1 2 3" + w + "\n4 5 6" + w + "\n", "#c\n7" + w + "\n", "1 2" + w, string("")}) cs.push_back(mk(K_TNS, pigo::EDGE_LIST, s, false));
        std::vector<Entry> e = {{0, 2, 3}, {1, 1, 2}, {3, 0, 7}, {3, 3, 1}}; if (!wgt) zero_w(e); Dims d{4, 4, 4};
        std::vector<TEntry> te = {{{1, 2, 3}, 4}, {{0, 9, 8}, 5}};
        for (auto& x : {e, std::vector<Entry>()}) {
            for (Kind k : {K_COO, K_CSR, K_DIG}) { cs.push_back(mk(k, pigo::PIGO_COO_BIN, coo_bin<L, O, W>(x, d, wgt), true)); cs.push_back(mk(k, pigo::PIGO_CSR_BIN, csr_bin<L, O, W>(x, d, wgt), true)); }
            cs.push_back(mk(K_GRA, pigo::PIGO_CSR_BIN, csr_bin<L, O, W>(x, d, wgt), true)); cs.push_back(mk(K_DIG, pigo::PIGO_DIGRAPH_BIN, digraph_bin<L, O, W>(x, d, wgt), true));
        }
        cs.push_back(mk(K_TNS, pigo::PIGO_TENSOR_BIN, tensor_bin<L, O, W>(te, 3, wgt), true));
        for (size_t k = cs.size(); k-- > 0;) if (cs[k].bin) { Case c = cs[k]; c.cut = true; c.s = c.s.substr(0, c.s.size() - 1); cs.push_back(c); } // one byte short
    }
    size_t count() override { fill(); return cs.size() * pre.size() * 4; }
    const char* ext() { return cs[ci].t == pigo::MATRIX_MARKET ? "mtx" : cs[ci].t == pigo::GRAPH ? "graph" : "el"; }
    string fn(const char* b) { return path((string(b) + "." + ext()).c_str()); }
    // how: 0 explicit type, 1 AUTO, 2 explicit, in a file that goes on after a binary, 3 AUTO after reading the prefix
    void prepare(size_t i) override { fill(); how = i % 4; pi = i / 4 % pre.size(); ci = i / 4 / pre.size(); put_file(fn("one"), cs[ci].s); put_file(fn("two"), pre[pi] + cs[ci].s + (how == 2 && cs[ci].bin && !cs[ci].cut ? "|rest of the file" : "")); }
    string describe() override { return string(nm) + " container " + std::to_string(cs[ci].k) + " type " + std::to_string(cs[ci].t) + " how " + std::to_string(how) + " behind " + esc(pre[pi], 60) + " " + esc(cs[ci].s); }
    void configs(std::vector<Config>& o) override { if (pi == 1 || pi == 4) cfg_full(o, {1, 2}); cfg_policy(o, {1, 2, 3}); if (pi < 8) cfg_policy(o, {5}); }
    template <class C> static void d_coo(C& c, Dump& o) { size_t m = c.m(); auto x = raw(c.x()); auto y = raw(c.y()); o.push_back(c.n()); o.push_back(c.nrows()); o.push_back(c.ncols()); o.push_back(m); for (size_t k = 0; k < m; ++k) { o.push_back(x[k]); o.push_back(y[k]); o.push_back(getw(c.w(), k, std::integral_constant<bool, wgt>())); } }
    template <class C> static void d_csr(C& c, Dump& o) { o.push_back(c.n()); o.push_back(c.nrows()); o.push_back(c.ncols()); o.push_back(c.m()); size_t n = c.n(), m = c.m(); auto off = raw(c.offsets()); auto ep = raw(c.endpoints());
        std::vector<Entry> e; for (size_t v = 0; v <= n; ++v) { size_t a = off[v], b = v < n ? (size_t)off[v + 1] : m; if (b > m || a > b) omc::fail("the offsets are wrong"); for (size_t k = a; k < b; ++k) e.push_back(Entry{(ll)v, (ll)ep[k], getw(c.weights(), k, std::integral_constant<bool, wgt>())}); } std::sort(e.begin(), e.end()); for (auto& k : e) { o.push_back(k.x); o.push_back(k.y); o.push_back(k.w); } }
    static void dump(Coo& c, Dump& o) { d_coo(c, o); }
    static void dump(Sym& c, Dump& o) { d_coo(c, o); }
    static void dump(Csr& c, Dump& o) { d_csr(c, o); }
    static void dump(Gra& c, Dump& o) { d_csr(c, o); }
    static void dump(Dig& c, Dump& o) { d_csr(c.out(), o); d_csr(c.in(), o); }
    static void dump(Tns& c, Dump& o) { size_t m = c.m(), od = c.order(); o.push_back(m); o.push_back(m ? od : 0); for (size_t k = 0; k < m * od; ++k) o.push_back(raw(c.c())[k]); for (size_t k = 0; k < m; ++k) o.push_back(getw(c.w(), k, std::integral_constant<bool, wgt>())); }
    template <class C> static Dump get(pigo::File& f, pigo::FileType t) { Dump o; C* c = nullptr; try { c = new C(f, t); } catch (pigo::Error&) { o.push_back(-1); } if (c) { dump(*c, o); c->free(); delete c; } return o; }
    static Dump load(Kind k, pigo::File& f, pigo::FileType t) { switch (k) { case K_COO: return get<Coo>(f, t); case K_SYM: return get<Sym>(f, t); case K_CSR: return get<Csr>(f, t); case K_DIG: return get<Dig>(f, t); case K_GRA: return get<Gra>(f, t); default: return get<Tns>(f, t); } }
    void body() override {
        string a, b; { omc::Quiet q; a = fn("one"); b = fn("two"); } const Case& c = cs[ci]; size_t P = pre[pi].size();
        pigo::FileType t = how & 1 ? pigo::AUTO : c.t; if (c.k == K_TNS && !c.bin) t = pigo::EDGE_LIST;
        Dump x, y; bool none = c.s.empty();
        if (none) { bool threw = false; try { pigo::ROFile f(b); f.seek(P); } catch (pigo::Error&) { threw = true; } if (!threw) omc::fail("a cursor at the end of the file is accepted"); }
        else {
            { pigo::ROFile f(a); x = load(c.k, f, t); }
            { pigo::ROFile f(b); if (how == 3) { char* z = (char*)malloc(P + 1); f.parallel_read(z, P); free(z); } else f.seek(P); auto at = f.fp(); y = load(c.k, f, t);
              bool ok = !(x.size() == 1 && x[0] == -1);
              if (how == 2 && c.bin && ok && (size_t)(f.fp() - at) != c.s.size()) omc::fail("the cursor moves by " + std::to_string(f.fp() - at) + " instead of " + std::to_string(c.s.size()));
            }
            if (x != y) { omc::Quiet q; omc::fail("loaded from behind the cursor: " + show(y) + " instead of " + show(x)); }
        }
        for (double v : y) omc::outcome(v);
        omc::Quiet q; string().swap(a); string().swap(b);
    }
};
OMC_ADD(Cursor<uint32_t, uint32_t, PTR, float, true>(0));
OMC_ADD(Cursor<uint64_t, uint16_t, VEC, float, false>(0));
OMC_ADD(Cursor<int, int64_t, SP, int, true>(0));
OMC_ADD(Cursor<uint8_t, uint32_t, PTR, float, false>(0));
}
