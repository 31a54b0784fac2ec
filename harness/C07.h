// C07 building a COO from a CSR keeps every entry and weight
#include "mat.h"
#include "types.h"
#include "bin.h"
#include "graphfile.h"
namespace {
using namespace h;
enum Src { MEM, BIN, BINAUTO, OPENFILE };
// CSR types/storage -> COO types/storage, with flags
template <class L1, class O1, int S1, class W1, class L2, class O2, int S2, class W2, bool wgt, bool sym, bool ut, bool sl, int src> struct Back : omc::Suite {
    typedef pigo::CSR<L1, O1, typename St<L1, S1>::t, typename St<O1, S1>::t, wgt, W1, typename St<W1, S1>::t> B;
    typedef pigo::COO<L2, O2, typename St<L2, S2>::t, sym, ut, sl, wgt, W2, typename St<W2, S2>::t> A;
    static constexpr ull LB = cap<L1>() < cap<L2>() ? cap<L1>() : cap<L2>();
    int kind; char nm[80]; std::vector<Entry> e, want; Dims d, wd; SeqEnum en{0, 0, 0};
    Back(int k) : Suite(nm), kind(k) {
        static const char* kn[] = {"three", "two", "large", "empty", "huge", "many"}; static const char* sn[] = {"mem", "bin", "auto", "file"};
        snprintf(nm, sizeof nm, "%s_%s_%s%s%s_%s%s%s%s%s%s_%s%s%s", kn[k], sn[src], tname<L1>(), tname<O1>(), sname(S1), tname<L2>(), tname<O2>(), sname(S2), wgt ? "_" : "", wgt ? tname<W1>() : "", wgt ? tname<W2>() : "", sym ? "S" : "", ut ? "U" : "", sl ? "L" : "");
    }
    bool refused() const { return sl || (ut && !sym); }
    size_t count() override {
        bool t = omc::thorough();
        switch (kind) { case 0: en = SeqEnum{9, 1, refused() ? 2u : t ? 4u : 3u}; break; case 1: en = SeqEnum{4, 4, t ? 5u : 4u}; break; case 2: return refused() ? 2 : t ? 240 : 60; case 3: return 30; case 5: return refused() ? 2 : many_count(cap<O1>(), LB); default: return refused() || sizeof(L1) < 4 || sizeof(L2) < 4 ? 0 : 2; }
        return en.count();
    }
    void prepare(size_t i) override {
        e.clear();
        switch (kind) {
            case 0: e = entries_of(en.get(i), 3); d = ref_dims(e); break;
            case 1: e = entries_of(en.get(i), 2); d = i % 2 ? Dims{3, 3, 2} : Dims{4, 2, 4}; break;
            case 2: { int m = 1 + (i * 37) % 90, n = 1 + (i * 11) % 23; for (int k = 0; k < m; ++k) { int x = (k * k * 7 + i * k + 3) % n, y = (k * 5 + i) % n; if (i % 4 == 1) x = n / 2; if (i % 4 == 2) x = k % 2 ? n - 1 : 0; e.push_back(Entry{x, y, wval(k)}); } d = Dims{n, n, n}; if (i % 3 == 0) d.n = n + (int)(i % 7); break; }
            case 3: d = Dims{(ll)i % 6, (ll)i % 4, (ll)i % 5}; break;
            case 5: { many_case(i, cap<O1>(), e, d, LB, LB); size_t top = cap<O2>(); if (sym && !ut) top /= 2; if (e.size() > top) e.resize(top); break; } // what either ordinal type can count
            default: for (int x = 0; x < 20485 + (int)i; x += 1 + x % 3) { e.push_back(Entry{x, x / 2, wval(x)}); if (x % 5 == 0) e.push_back(Entry{x, 20490 - x, wval(x + 1)}); } d = Dims{20500, 20500, 20500};
        }
        if (sym && !ut) e.erase(std::remove_if(e.begin(), e.end(), [](const Entry& k) { return k.x == k.y; }), e.end());
        if (!wgt) zero_w(e); else vary_w<W1, W2>(e);
        e = by_row(e); want.clear(); wd = d;
        if (sym) { if (wd.nrows > wd.ncols) wd.ncols = wd.nrows; else wd.nrows = wd.ncols; }
        for (auto k : e) { if (sym && ut && k.x > k.y) std::swap(k.x, k.y); want.push_back(k); if (sym && !ut) { std::swap(k.x, k.y); want.push_back(k); } }
        if (src != MEM) put_file(path("in.mtx"), csr_bin<L1, O1, W1>(e, d, wgt));
    }
    string describe() override { return string(nm) + " n=" + std::to_string(d.n) + " entries " + show(e); }
    void configs(std::vector<Config>& o) override {
        if (kind == 5) { if (e.size() > 9999 || d.n > 9999) cfg_policy(o, {1, 4}); else cfg_policy(o, {1, 2, 3, 8}); return; }
        if (kind == 4) { cfg_policy(o, {1, 2, 3, 4}); return; }
        if (kind == 2) { cfg_policy(o, {1, 2, 3, 4, 7, 8, 16}); if (d.n <= 6) cfg_full(o, {2}); return; }
        cfg_full(o, {1, 2}); if (d.n <= 3 && true) cfg_full(o, {3}); if (e.size() <= (omc::thorough() ? 3u : 2u) && d.n <= 3) cfg_full(o, {4});
    }
    void check(A* a) {
        if ((size_t)a->m() != want.size()) omc::fail("COO: m is " + std::to_string(a->m()) + " instead of " + std::to_string(want.size()));
        { omc::Quiet q; expect_dims(dims_of(*a), wd, "COO"); }
        auto got = CooView<A, L2, W2, wgt>::get(*a);
        omc::Quiet q; out_entries(got);
        auto w = want;
        if (sym && !ut) for (size_t k = 0; k + 1 < got.size(); k += 2) { if (got[k + 1] < got[k]) std::swap(got[k], got[k + 1]); if (w[k + 1] < w[k]) std::swap(w[k], w[k + 1]); } // either direction first
        expect_entries(got, w, "COO"); std::vector<Entry>().swap(got);
    }
    void body() override {
        B* b = nullptr; A* a = nullptr; string p;
        if (src == MEM) b = make_csr<B, wgt>(e, d); else { omc::Quiet q; p = path("in.mtx"); }
        bool no = false;
        try {
            if (src == MEM) a = new A(*b);
            else if (src == BIN) a = new A(p, pigo::PIGO_CSR_BIN);
            else if (src == BINAUTO) a = new A(p);
            else { pigo::File f(p, pigo::READ); a = new A(f, pigo::AUTO); }
        } catch (pigo::NotYetImplemented&) { no = true; } catch (std::exception& x) { omc::fail(string("conversion failed: ") + x.what()); }
        if (no != refused()) omc::fail(no ? "the conversion is refused" : "an unsupported combination of flags is accepted");
        omc::outcome(no);
        if (src == MEM) { check_csr<B, wgt>(*b, e, d, "source CSR after the conversion", true); b->free(); delete b; }
        if (a) { check(a); a->free(); delete a; }
        { omc::Quiet q; string().swap(p); }
    }
};
#define BK1(S, ...) OMC_ADD(Back<__VA_ARGS__, S>(0)); OMC_ADD(Back<__VA_ARGS__, S>(1)); OMC_ADD(Back<__VA_ARGS__, S>(2)); OMC_ADD(Back<__VA_ARGS__, S>(3)); OMC_ADD(Back<__VA_ARGS__, S>(4)); OMC_ADD(Back<__VA_ARGS__, S>(5));
#define BKF(S, ...) BK1(S, __VA_ARGS__, false, false, false) BK1(S, __VA_ARGS__, true, false, false) BK1(S, __VA_ARGS__, true, true, false)
#define BKR(S, ...) OMC_ADD(Back<__VA_ARGS__, false, true, false, S>(0)); OMC_ADD(Back<__VA_ARGS__, false, false, true, S>(0)); OMC_ADD(Back<__VA_ARGS__, true, true, true, S>(0)); OMC_ADD(Back<__VA_ARGS__, false, true, true, S>(0)); OMC_ADD(Back<__VA_ARGS__, true, false, true, S>(0));
}
