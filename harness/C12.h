// C12 writing a COO as text
#include "text.h"
namespace {
using namespace h;
enum { SMALL, MEDIUM, LARGE };
static const char* kn[] = {"small", "medium", "large"};
template <class L, class O, int S, class W, bool wgt> struct Wr : omc::Suite {
    typedef pigo::COO<L, O, typename St<L, S>::t, false, false, false, wgt, W, typename St<W, S>::t> C;
    char nm[80]; int kind, old = 0; SeqEnum en{0, 0, 0}; std::vector<L> x, y; std::vector<W> w; string want; bool reload = true;
    Wr(int k) : Suite(nm), kind(k) { snprintf(nm, sizeof nm, "%s_%s%s%s_%s", kn[k], tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    size_t count() override { bool t = omc::thorough(); en = SeqEnum{4, 0, t ? 5u : 4u}; return kind == SMALL ? en.count() * 3 : kind == MEDIUM ? (t ? 300 : 60) : cap<O>() < 32767 ? 0 : (t ? 24 : 6); }
    void prepare(size_t i) override {
        x.clear(); y.clear(); w.clear(); want.clear(); auto ls = labels_of<L>(); if (i % 2) for (L& l : ls) if (l == (std::numeric_limits<L>::max)()) l -= 1; auto& ws = weights_of<W>(); size_t nl = ls.size(), nw = ws.size();
        auto add = [&](L a, L b, W c) { x.push_back(a); y.push_back(b); if (wgt) w.push_back(c); };
        old = i % 3;
        if (kind == SMALL) { auto v = en.get(i / 3); size_t j = i; for (int k : v) { add(k & 1 ? ls[nl - 1 - j % 4] : ls[j % 3], k & 2 ? ls[nl - 1 - (j + 1) % 5] : ls[(j + k) % 3], ws[(j * 3 + k) % nw]); ++j; } }
        else { size_t m = kind == MEDIUM ? i + 4 : 500 + 700 * i; for (size_t k = 0; k < m; ++k) { size_t q = k * 7 + i; add(ls[(q * q + k) % nl], ls[(q + k / 3) % nl], ws[(q / 2) % nw]); } }
        for (size_t k = 0; k < x.size(); ++k) { want += int_text(x[k]) + " " + int_text(y[k]); if (wgt) want += " " + w_text(w[k]); want += "\n"; }
        old_file("out.el", old, want.size());
    }
    string describe() override { return string(nm) + " old file " + std::to_string(old) + " text " + esc(want); }
    void configs(std::vector<Config>& o) override {
        if (kind == SMALL) { cfg_full(o, {1, 2}); if (x.size() <= 3) cfg_full(o, {3}); cfg_policy(o, {4, 8}); if (x.size() <= 1 || omc::thorough()) cfg_full(o, {4}); }
        else if (kind == MEDIUM) { cfg_policy(o, {1, 2, 3, 4, 5, 7, 8, 16}); if (x.size() < 20) cfg_full(o, {2}); }
        else cfg_policy(o, {1, 2, 3, 8});
    }
    template <class P> static const typename std::remove_const<P>::type* r(const P* p) { return p; }
    void check(C& c, const char* what, bool exact) {
        if ((size_t)c.m() != x.size()) omc::fail(string(what) + " has " + std::to_string(c.m()) + " entries");
        auto px = raw(c.x()); auto py = raw(c.y());
        for (size_t k = 0; k < x.size(); ++k) if (px[k] != x[k] || py[k] != y[k]) omc::fail(string(what) + ": coordinates of entry " + std::to_string(k) + " differ");
        checkw(c, what, exact, std::integral_constant<bool, wgt>());
    }
    void checkw(C& c, const char* what, bool exact, std::true_type) { auto p = raw(c.w()); for (size_t k = 0; k < w.size(); ++k) { W v = p[k]; if (exact ? v != w[k] : !close_to(v, w[k])) omc::fail(string(what) + ": weight of entry " + std::to_string(k) + " is " + std::to_string(v) + " instead of " + std::to_string(w[k])); } }
    void checkw(C&, const char*, bool, std::false_type) {}
    void body() override {
        C* c = new C((L)3, (L)4, (L)5, (O)x.size());
        { L* p = (L*)raw(c->x()); L* q = (L*)raw(c->y()); for (size_t k = 0; k < x.size(); ++k) { p[k] = x[k]; q[k] = y[k]; } }
        fillw(*c, std::integral_constant<bool, wgt>());
        string f; { omc::Quiet q; f = path("out.el"); }
        bool refused = false;
        try { c->write(f); } catch (pigo::Error&) { refused = true; } catch (std::exception& e) { omc::fail(string("write failed: ") + e.what()); }
        if (refused && x.size()) omc::fail("writing is refused");
        if (!refused) expect_text("out.el", want);
        check(*c, "the written COO", true);
        bool top = false; for (size_t k = 0; k < x.size(); ++k) if (x[k] == (std::numeric_limits<L>::max)() || y[k] == (std::numeric_limits<L>::max)()) top = true; // no edge list may hold this label
        if (x.size() && !top) { // and back, with all threads
            C* b = nullptr;
            try { b = new C(f, pigo::EDGE_LIST); } catch (std::exception& e) { omc::fail(string("the written file is refused: ") + e.what()); }
            check(*b, "the reloaded COO", false);
            b->free(); delete b;
        }
        c->free(); delete c; { omc::Quiet q; string().swap(f); }
    }
    void fillw(C& c, std::true_type) { W* p = (W*)raw(c.w()); for (size_t k = 0; k < w.size(); ++k) p[k] = w[k]; }
    void fillw(C&, std::false_type) {}
};
#define WRS(...) OMC_ADD(Wr<__VA_ARGS__>(SMALL)); OMC_ADD(Wr<__VA_ARGS__>(MEDIUM)); OMC_ADD(Wr<__VA_ARGS__>(LARGE));
}
