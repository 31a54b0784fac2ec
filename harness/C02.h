// C02 the flags keep exactly the right entries
#include "el.h"
namespace {
using namespace h;
template <class W> struct Wt;
template <> struct Wt<float> { static string s(int i) { static const char* k[] = {"1.5", "-2", "3e1", ".25", "10", "-0.5"}; return k[i % 6]; } static const char* n() { return "f"; } };
template <> struct Wt<int> { static string s(int i) { static const char* k[] = {"1", "-2", "30", "+4", "-55", "6"}; return k[i % 6]; } static const char* n() { return "i"; } };
template <> struct Wt<unsigned> { static string s(int i) { static const char* k[] = {"1", "2", "30", "4", "55", "6"}; return k[i % 6]; } static const char* n() { return "u"; } };
template <> struct Wt<void> { static string s(int) { return ""; } static const char* n() { return "0"; } };
template <class W> struct NV { typedef W t; enum { wgt = 1 }; };
template <> struct NV<void> { typedef float t; enum { wgt = 0 }; };

template <bool sym, bool ut, bool sl, class WW> struct Flag : omc::Suite {
    typedef typename NV<WW>::t W; static const bool wgt = NV<WW>::wgt;
    typedef pigo::COO<uint32_t, uint32_t, uint32_t*, sym, ut, sl, wgt, W, W*> C;
    int kind; string text; std::vector<Entry> file, want; char nm[40];
    Flag(int k) : Suite(nm), kind(k) { snprintf(nm, sizeof nm, "%s_%s%s%s_%s", k == 0 ? "edges" : k == 1 ? "shift" : "mm", sym ? "S" : "", ut ? "U" : "", sl ? "L" : "", Wt<WW>::n()); }
    SeqEnum en{9, 1, 3};
    size_t count() override {
        if (kind == 0) { en = SeqEnum{9, 1, 3}; if (omc::thorough()) en.hi = 4; return 2 * en.count(); }
        if (kind == 1) return omc::thorough() ? 400 : 60;
        en = SeqEnum{4, 1, 3}; return en.count();
    }
    string line(int x, int y, int pos) { string s = std::to_string(x) + " " + std::to_string(y); if (wgt) s += " " + Wt<WW>::s(pos); return s; }
    void prepare(size_t i) override {
        text.clear(); file.clear();
        if (kind == 0) {
            int pos = 0; for (int k : en.get(i / 2)) { text += line(k / 3, k % 3, pos++) + "\n"; }
            if (i & 1) text.pop_back();
            ref_el(text, wgt, file);
        } else if (kind == 1) {
            int pad = i % 20, var = i / 20;
            if (pad) { text = "%"; while ((int)text.size() + 1 < pad) text += '1'; text += "\n"; }
            for (int j = 0; j < 20 + 3 * var; ++j) {
                int x, y; switch ((j * (var + 1) + var) % 5) { case 0: x = y = j; break; case 1: x = j; y = j + 100; break; case 2: x = 12345 + j; y = j; break; case 3: x = 7; y = 7; break; default: x = 0; y = j; }
                text += (j % 4 == 3 ? "  " : "") + line(x, y, j) + (j % 3 == 2 ? " 999 8\r\n" : "\n"); if (j % 7 == 5) text += "#c 1 2\n\n";
            }
            if (var & 1) text.pop_back();
            ref_el(text, wgt, file);
        } else {
            // Matrix Market with labels 1..2 plus a wide column
            static const int X[] = {1, 1, 2, 3}, Y[] = {1, 2, 1, 2};
            string body; int pos = 0; auto v = en.get(i); for (int k : v) body += line(X[k], Y[k], pos++) + "\n";
            text = "%%MatrixMarket matrix coordinate real general\n% c\n3 4 " + std::to_string(v.size()) + "\n" + body;
            ref_el(body, wgt, file);
        }
        want = ref_flags(file, sym, ut, sl);
        put_file(path("in"), text);
    }
    string describe() override { return string(nm) + " " + esc(text, 800); }
    void configs(std::vector<Config>& o) override { if (kind == 1) cfg_policy(o, {1, 2, 3, 4, 5, 7, 8}); else cfg_full(o, {1, 2, 3}); if (kind == 0 && omc::thorough() && file.size() <= 3) cfg_full(o, {4}); }
    void body() override {
        string p; { omc::Quiet q; p = path("in"); }
        C* c = nullptr;
        try { c = new C(p, kind == 2 ? pigo::MATRIX_MARKET : pigo::EDGE_LIST); } catch (std::exception& e) { omc::fail(string("refused: ") + e.what()); }
        auto got = CooView<C, uint32_t, W, wgt>::get(*c);
        {
            omc::Quiet q;
            expect_entries(got, want, "entries");
            if (kind == 2) { Dims d{5, 4, 5}; if (sym) d.nrows = 5; expect_dims(dims_of(*c), d, "matrix market with flags"); }
            else if (!want.empty()) expect_dims(dims_of(*c), ref_dims(want), "sizes");
            out_entries(got); got = std::vector<Entry>();
        }
        c->free(); delete c;
        { omc::Quiet q; p = string(); }
    }
};
#define F3(S, U, L, W) OMC_ADD(Flag<S, U, L, W>(0)); OMC_ADD(Flag<S, U, L, W>(1)); OMC_ADD(Flag<S, U, L, W>(2));
#define F7(W) F3(false, false, true, W) F3(false, true, false, W) F3(false, true, true, W) F3(true, false, false, W) F3(true, false, true, W) F3(true, true, false, W) F3(true, true, true, W)
}
