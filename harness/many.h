// Text files with more entries than narrow labels can count, loaded with flags as edge list or Matrix Market file.
#ifndef HARNESS_MANY_H
#define HARNESS_MANY_H
#include "mat.h"
#include "types.h"
namespace h {
template <class L, class O, int S, bool sym, bool ut, bool sl, bool wgt, class W, bool mm> struct ManyText : omc::Suite {
    typedef pigo::COO<L, O, typename St<L, S>::t, sym, ut, sl, wgt, W, typename St<W, S>::t> C;
    char nm[60]; string text; std::vector<Entry> file, want; Dims dims; bool ok = true;
    ManyText() : Suite(nm) { snprintf(nm, sizeof nm, "many_%s_%s%s%s_%s%s%s_%s", mm ? "mm" : "el", tname<L>(), tname<O>(), sname(S), sym ? "S" : "", ut ? "U" : "", sl ? "L" : "", wgt ? tname<W>() : ""); }
    size_t count() override { return many_count(cap<O>()) * (mm ? 4 : 1); }
    void prepare(size_t i) override {
        int v = 0; if (mm) { v = i % 4; i /= 4; }
        many_case(i, cap<O>(), file, dims, cap<L>() - (mm ? 4 : 0));
        if (file.size() > 9999 && i % 5 != 2) file.resize(1500);
        size_t top = cap<O>(); if (sym && !ut && file.size() > top / 2) file.resize(top / 2);
        if (!wgt) zero_w(file);
        text.clear(); size_t k = 0;
        for (auto& x : file) { ++k; text += (k % 7 == 3 ? " " : "") + std::to_string(x.x) + (k % 11 == 5 ? "\t" : " ") + std::to_string(x.y); if (wgt) text += " " + std::to_string((ll)x.w); text += k % 13 == 1 ? " 9\r\n" : "\n"; if (k % 50 == 49) text += "# 1 2\n\n"; }
        if (i & 1) text.pop_back();
        want = ref_flags(file, sym, ut, sl); dims = ref_dims(want); ok = true;
        if (mm) { // v: exact, one entry too many or too few announced, largest label beyond the header
            Dims a = ref_dims(file); ll R = std::max<ll>(a.nrows - 1 - (v == 3), 0), Cc = a.ncols + 1, N = (ll)file.size() + (v == 1) - (v == 2); if (v == 3) Cc = sym ? R : Cc; 
            text = "%%MatrixMarket matrix coordinate real general\n" + std::to_string(R) + " " + std::to_string(Cc) + " " + std::to_string(N) + "\n" + text;
            dims.nrows = R + 1; dims.ncols = Cc + 1; if (sym) dims.nrows = dims.ncols = std::max(R, Cc) + 1; dims.n = std::max(dims.nrows, dims.ncols);
            Dims w = ref_dims(want); ok = v != 1 && v != 2 && w.nrows <= dims.nrows && w.ncols <= dims.ncols;
        }
        put_file(path("in"), text);
    }
    bool unclear() { for (auto& k : file) if (k.x >= dims.nrows || k.y >= dims.ncols) return true; return false; } // refused or not: entries that the flags drop
    string describe() override { return string(nm) + " " + std::to_string(file.size()) + " lines " + esc(text, 300); }
    void configs(std::vector<Config>& o) override { if (want.size() > 9999) cfg_policy(o, {1, 4}); else cfg_policy(o, {1, 2, 3, 8}); }
    void body() override {
        string p; { omc::Quiet q; p = path("in"); }
        C* c = nullptr; bool refused = false; string why;
        try { c = new C(p, mm ? pigo::MATRIX_MARKET : pigo::EDGE_LIST); } catch (pigo::Error& e) { refused = true; omc::Quiet q; why = e.what(); } catch (std::exception& e) { omc::fail(string("foreign exception: ") + e.what()); }
        { omc::Quiet q; string().swap(p); omc::outcome(refused); if (refused && ok && !(mm && unclear())) omc::fail("refused: " + why); if (!refused && !ok) omc::fail("a file whose header contradicts its contents is loaded"); string().swap(why); }
        if (refused) return;
        auto got = CooView<C, L, W, wgt>::get(*c);
        { omc::Quiet q; expect_entries(got, want, "entries"); if (mm || !want.empty()) expect_dims(dims_of(*c), dims, "sizes"); out_entries(got); std::vector<Entry>().swap(got); }
        c->free(); delete c;
    }
};
}
#endif
