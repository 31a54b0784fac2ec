// C08 a Matrix's CSR and CSC, and a DiGraph's in and out edges, are the same entries
#include "mat.h"
#include "types.h"
#include "bin.h"
namespace {
using namespace h;
enum Src { MEM, EL, MM, COOBIN, CSRBIN, DGBIN };
enum Obj { MATRIX, DIGRAPH };
template <int obj, class L, class O, int S, class W, bool wgt> struct Make;
template <class L, class O, int S, class W, bool wgt> struct Make<MATRIX, L, O, S, W, wgt> {
    typedef pigo::Matrix<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> D;
    static D* file(const string& p, int) { return new D(p); }
    static auto& rows(D& d) { return d.csr(); }
    static auto& cols(D& d) { return d.csc(); }
    static void extra(D&, size_t, Dims) {}
};
template <class L, class O, int S, class W, bool wgt> struct Make<DIGRAPH, L, O, S, W, wgt> {
    typedef pigo::DiGraph<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> D;
    static D* file(const string& p, int how) {
        if (how == 0) return new D(p);
        pigo::FileType t = p.size() > 4 && p.substr(p.size() - 4) == ".mtx" ? pigo::MATRIX_MARKET : p.find("edges") != string::npos ? pigo::EDGE_LIST : pigo::AUTO;
        if (how == 1) return new D(p, t);
        pigo::File f(p, pigo::READ); return new D(f, t);
    }
    static auto& rows(D& d) { return d.out(); }
    static auto& cols(D& d) { return d.in(); }
    static void extra(D& d, size_t m, Dims dm) {
        if ((size_t)d.m() != m) omc::fail("DiGraph::m is " + std::to_string(d.m()) + " instead of " + std::to_string(m));
        if ((ll)d.n() != dm.n) omc::fail("DiGraph::n is " + std::to_string(d.n()) + " instead of " + std::to_string(dm.n));
    }
};
template <int obj, class L, class O, int S, class W, bool wgt, int src, class CL = L, class CO = O, int CS = S, class CW = W> struct Two : omc::Suite {
    typedef Make<obj, L, O, S, W, wgt> M; typedef typename M::D D;
    typedef pigo::COO<CL, CO, typename St<CL, CS>::t, false, false, false, wgt, CW, typename St<CW, CS>::t> A;
    static constexpr ull OB = cap<O>() < cap<CO>() ? cap<O>() : cap<CO>();
    static constexpr ull LC = cap<L>() < cap<CL>() ? cap<L>() : cap<CL>(), LB = src == EL || src == MM ? 0 : LC;
    int kind; char nm[80]; std::vector<Entry> e; Dims d; SeqEnum en{0, 0, 0}; int how; const char* fn; string text;
    Two(int k) : Suite(nm), kind(k), how(0), fn("in") {
        static const char* kn[] = {"three", "two", "large", "empty", "many"}; static const char* sn[] = {"mem", "el", "mm", "coobin", "csrbin", "dgbin"};
        snprintf(nm, sizeof nm, "%s_%s_%s_%s%s%s%s%s_%s%s%s", kn[k], obj == MATRIX ? "matrix" : "digraph", sn[src], tname<L>(), tname<O>(), sname(S), wgt ? "_" : "", wgt ? tname<W>() : "", tname<CL>(), tname<CO>(), sname(CS));
    }
    size_t count() override {
        bool t = omc::thorough();
        switch (kind) { case 0: en = SeqEnum{9, 1, t ? 3u : src == MEM ? 3u : 2u}; break; case 1: en = SeqEnum{4, 3, 4u}; break; case 2: return t ? 200 : 40; case 4: return many_count(OB, LB); default: return src == EL || src == MM ? 0 : 24; }
        return en.count();
    }
    void prepare(size_t i) override {
        e.clear(); how = i % 3;
        switch (kind) {
            case 0: e = entries_of(en.get(i), 3); d = ref_dims(e); break;
            case 1: e = entries_of(en.get(i), 2); d = i % 2 ? Dims{3, 3, 2} : Dims{4, 2, 4}; break;
            case 2: { int m = 1 + (i * 37) % 70, n = 1 + (i * 11) % 23; for (int k = 0; k < m; ++k) { int x = (k * k * 7 + i * k + 3) % n, y = (k * 5 + i) % n; if (i % 4 == 1) x = n / 2; if (i % 4 == 2) y = k % 2 ? n - 1 : 0; e.push_back(Entry{x, y, wval(k)}); } d = Dims{n, n, n}; if (i % 3 == 0) d.n = n + (int)(i % 7); break; }
            case 4: many_case(i, OB, e, d, LC, LB); break;
            default: d = Dims{(ll)i % 6, (ll)i % 4, (ll)i % 5}; d.n = std::max(d.n, std::max(d.nrows, d.ncols)); break;
        }
        if (!wgt) zero_w(e); else if (src != EL && src != MM) vary_w<W, CW>(e);
        text.clear();
        if (src == EL || src == MM) {
            for (auto& k : e) { text += std::to_string(k.x) + " " + std::to_string(k.y); if (wgt) text += " " + std::to_string((ll)k.w); text += "\n"; }
            if (src == EL) { d = ref_dims(e); fn = "in.edges"; if (i & 1) text.pop_back(); }
            else { text = "%%MatrixMarket matrix coordinate real general\n" + std::to_string(d.nrows) + " " + std::to_string(d.ncols + 1) + " " + std::to_string(e.size()) + "\n" + text; d.nrows += 1; d.ncols += 2; d.n = std::max(d.nrows, d.ncols); fn = "in.mtx"; }
        } else if (src == COOBIN) { text = coo_bin<L, O, W>(e, d, wgt); fn = "in.mtx.bin"; }
        else if (src == CSRBIN) { e = by_row(e); text = csr_bin<L, O, W>(e, d, wgt); }
        else if (src == DGBIN) text = digraph_bin<L, O, W>(e, d, wgt);
        if (src != MEM) put_file(path(fn), text);
    }
    string describe() override { return string(nm) + " n=" + std::to_string(d.n) + " how=" + std::to_string(how) + " entries " + show(e); }
    void configs(std::vector<Config>& o) override {
        if (kind == 4) { if (e.size() > 9999 || d.n > 9999) cfg_policy(o, {1, 4}); else cfg_policy(o, {1, 2, 3, 8}); return; }
        if (kind == 2) { cfg_policy(o, {1, 2, 3, 4, 7, 8, 16}); return; }
        cfg_full(o, {1, 2}); if (e.size() <= (omc::thorough() ? 3u : 2u)) cfg_full(o, {3}); else cfg_policy(o, {3}); if (e.size() <= (omc::thorough() ? 2u : 1u)) cfg_full(o, {4});
    }
    void body() override {
        D* m = nullptr; A* a = nullptr; string p;
        if (src == MEM) a = make_coo<A, wgt>(e, d); else { omc::Quiet q; p = path(fn); }
        try { m = src == MEM ? new D(*a) : M::file(p, how); } catch (std::exception& x) { omc::fail(string("refused: ") + x.what()); }
        check_csr<typename std::remove_reference<decltype(M::rows(*m))>::type, wgt>(M::rows(*m), e, d, "row view");
        { std::vector<Entry> s; { omc::Quiet q; s = swapped(e); } check_csr<typename std::remove_reference<decltype(M::cols(*m))>::type, wgt>(M::cols(*m), s, d, "column view"); drop(s); }
        if ((ll)m->nrows() != d.nrows || (ll)m->ncols() != d.ncols) omc::fail("nrows, ncols are " + std::to_string(m->nrows()) + ", " + std::to_string(m->ncols()));
        M::extra(*m, e.size(), d);
        if (a) { check_coo<A, CL, CW, wgt>(*a, e, d, "source COO"); a->free(); delete a; }
        m->free(); delete m;
        { omc::Quiet q; string().swap(p); }
    }
};
#define TW(...) OMC_ADD(Two<__VA_ARGS__>(0)); OMC_ADD(Two<__VA_ARGS__>(1)); OMC_ADD(Two<__VA_ARGS__>(2)); OMC_ADD(Two<__VA_ARGS__>(3)); OMC_ADD(Two<__VA_ARGS__>(4));
}
