// C04 Matrix Market headers and contents have to agree
#include "el.h"
namespace {
using namespace h;
template <bool sym, bool ut, bool sl, bool wgt> struct MM : omc::Suite {
    typedef pigo::COO<uint32_t, uint32_t, uint32_t*, sym, ut, sl, wgt, double, double*> C;
    int kind; string text, file; std::vector<Entry> all, want; bool ok; Dims dims; char nm[40];
    MM(int k) : Suite(nm), kind(k) { snprintf(nm, sizeof nm, "%s_%s%s%s%s", k == 0 ? "header" : k == 1 ? "shapes" : k == 2 ? "long" : "banner", sym ? "S" : "", ut ? "U" : "", sl ? "L" : "", wgt ? "W" : "_"); }
    std::vector<std::vector<int>> lists;
    static std::vector<string> banners() {
        std::vector<string> b = {"%%MatrixMarket matrix coordinate real general", "%%MatrixMarket matrix coordinate pattern symmetric", "%%MatrixMarket matrix coordinate", "%%MatrixMarket matrix coordinate integer general 5 6",
            "%%MatrixMarket matrix array real general", "%%MatrixMarket vector coordinate real general", "%%matrixmarket matrix coordinate real general", "%MatrixMarket matrix coordinate real general", " %%MatrixMarket matrix coordinate real general", "%%MatrixMarket  matrix coordinate real", "3 3 1"};
        string f = "%%MatrixMarket matrix coordinate"; for (size_t k = 0; k < f.size(); ++k) b.push_back(f.substr(0, k)); // every prefix
        for (size_t k = 0; k < f.size(); ++k) { string g = f; g[k] = g[k] == 'x' ? 'y' : 'x'; b.push_back(g); } // every changed character
        return b;
    }
    size_t count() override {
        if (lists.empty()) {
            SeqEnum a{9, 0, 2}; for (size_t i = 0; i < a.count(); ++i) lists.push_back(a.get(i));
            SeqEnum b{omc::thorough() ? 9u : 3u, 3, 3}; for (size_t i = 0; i < b.count(); ++i) { auto v = b.get(i); if (b.a == 3) for (int& k : v) k = k == 0 ? 0 : k == 1 ? 5 : 6; lists.push_back(v); }
        }
        switch (kind) { case 0: return lists.size() * 4 * 4 * 4; case 1: return lists.size() * 6; case 2: return omc::thorough() ? 200 : 40; default: return banners().size() * 2; }
    }
    string lines(const std::vector<int>& v, const char* eol = "\n") { string s; int pos = 0; for (int k : v) { s += std::to_string(k / 3 + 1) + " " + std::to_string(k % 3 + 1); if (wgt) { ++pos; s += " " + std::to_string(pos) + ".5"; } s += eol; } return s; }
    void prepare(size_t i) override {
        ll R, Cc, N; string body; const string ban = "%%MatrixMarket matrix coordinate real general\n"; bool good_banner = true;
        if (kind == 0) {
            auto& v = lists[i / 64]; R = i % 4; Cc = i / 4 % 4; int d = i / 16 % 4; N = d == 0 ? (ll)v.size() : d == 1 ? (ll)v.size() + 1 : d == 2 ? (v.size() ? (ll)v.size() - 1 : 2) : 2 * (ll)v.size() + 1;
            body = lines(v); text = ban + std::to_string(R) + " " + std::to_string(Cc) + " " + std::to_string(N) + "\n" + body;
        } else if (kind == 1) {
            auto& v = lists[i / 6]; R = 3; Cc = 5; N = v.size(); string hd = "3 5 " + std::to_string(N);
            body = lines(v);
            switch (i % 6) {
                case 0: text = ban + "% 1 1 1\n%\n" + hd + "\n" + body; break;
                case 1: if (!body.empty()) body.pop_back(); text = ban + hd + "\n" + body; break;
                case 2: body = lines(v, "\r\n"); text = "%%MatrixMarket matrix coordinate real general\r\n" + hd + "\r\n" + body; break;
                case 3: text = ban + "\n  " + hd + " \n\n" + body + "\n\n"; break;
                case 4: text = ban + "3\t5  " + std::to_string(N) + "\n% 9 9 9\n" + body + "% end 4 4\n"; break;
                default: text = ban + hd + (v.empty() ? "" : "\n") + body; break;
            }
        } else if (kind == 2) {
            int var = i; ll m = 0; for (int j = 0; j < 15 + var; ++j) { ll x = (j * 7 + var) % 90 + 1, y = (j * 13) % 40 + 1; body += std::to_string(x) + " " + std::to_string(y) + (wgt ? " " + std::to_string(j) + ".25" : "") + "\n"; ++m; if (j % 9 == 4) body += "%c\n"; }
            R = 90 + var % 3; Cc = 40 + var % 2; N = m + (var % 5 == 3) - (var % 5 == 4); if (var & 1) body.pop_back();
            text = ban + string(var % 40, '%') + "\n" + std::to_string(R) + " " + std::to_string(Cc) + " " + std::to_string(N) + "\n" + body;
        } else {
            auto b = banners(); string s = b[i / 2]; R = 3; Cc = 3; N = 2; body = wgt ? "1 2 3\n3 1 4\n" : "1 2\n3 1\n"; good_banner = i / 2 < 4;
            text = (i & 1) ? s : s + "\n3 3 2\n" + body; if (text.empty()) text = "%";
            if ((i & 1) && good_banner) good_banner = false, text += "\n3 3 3\n" + body; // complete but wrong count
        }
        ref_el(body, wgt, all); want = ref_flags(all, sym, ut, sl);
        Dims w = ref_dims(want); dims.nrows = R + 1; dims.ncols = Cc + 1; if (sym) dims.nrows = dims.ncols = std::max(R, Cc) + 1; dims.n = std::max(dims.nrows, dims.ncols);
        ok = good_banner && N == (ll)all.size() && w.nrows <= dims.nrows && w.ncols <= dims.ncols;
        put_file(path("in.mtx"), text);
    }
    // an entry that a flag drops or mirrors and whose own labels exceed the header may be refused or not
    bool ambiguous() { if (!ok || kind == 3) return false; for (auto& k : all) { if (!sym && (k.x >= dims.nrows || k.y >= dims.ncols)) return true; } return false; }
    string describe() override { return string(nm) + " " + esc(text, 900); }
    void configs(std::vector<Config>& o) override { if (kind == 2) cfg_policy(o, {1, 2, 3, 5, 8}); else if (kind == 3) cfg_full(o, {1, 2}); else if (kind == 0 && !(i_small())) cfg_policy(o, {1, 2, 3}); else cfg_full(o, {1, 2, 3}); }
    bool i_small() { return all.size() <= 2 || omc::thorough(); }
    void body() override {
        string p; { omc::Quiet q; p = path("in.mtx"); }
        C* c = nullptr; bool refused = false;
        try { c = new C(p, pigo::MATRIX_MARKET); } catch (pigo::Error& e) { refused = true; } catch (std::exception& e) { omc::fail(string("foreign exception: ") + e.what()); }
        { omc::Quiet q; p = string(); omc::outcome(refused); }
        if (refused) { if (ok && !ambiguous()) omc::fail("a file whose header and contents agree is refused"); return; }
        if (!ok) omc::fail("a file whose header contradicts its contents is loaded");
        auto got = CooView<C, uint32_t, double, wgt>::get(*c);
        { omc::Quiet q; expect_entries(got, want, "entries"); expect_dims(dims_of(*c), dims, "sizes"); out_entries(got); got = std::vector<Entry>(); }
        c->free(); delete c;
    }
};
#define M4(S, U, L, W) OMC_ADD(MM<S, U, L, W>(0)); OMC_ADD(MM<S, U, L, W>(1)); OMC_ADD(MM<S, U, L, W>(2)); OMC_ADD(MM<S, U, L, W>(3));
}
