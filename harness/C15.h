// C15 Tensor maxima and text output
#include "text.h"
namespace {
using namespace h;
enum { SMALL, PERM, MEDIUM, LARGE };
static const char* kn[] = {"small", "positions", "medium", "large"};
template <class L, class O, int S, class W, bool wgt> struct Tn : omc::Suite {
    typedef pigo::Tensor<L, O, typename St<L, S>::t, W, typename St<W, S>::t, wgt> C;
    char nm[80]; int kind, old = 0; size_t order = 0, m = 0; std::vector<L> c0, mx; std::vector<W> w; string want; bool writes = true;
    Tn(int k) : Suite(nm), kind(k) { snprintf(nm, sizeof nm, "%s_%s%s%s_%s", kn[k], tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    size_t count() override { bool t = omc::thorough(); return kind == SMALL ? 5 * (t ? 6 : 5) * 12 : kind == PERM ? (t ? 2000 : 400) : kind == MEDIUM ? (t ? 300 : 60) : cap<O>() < 32767 ? 0 : (t ? 16 : 5); }
    void prepare(size_t i) override {
        c0.clear(); w.clear(); want.clear(); auto& ls = labels_of<L>(); auto& ws = weights_of<W>(); size_t nl = ls.size(), nw = ws.size();
        old = i % 3;
        if (kind == SMALL) { size_t v = i % 12; order = i / 12 % 5; m = i / 60; for (size_t k = 0; k < m * order; ++k) c0.push_back(ls[(k * (v + 1) + v * 5 + k * k) % nl]); }
        else if (kind == PERM) { order = 1 + i % 3; m = 2 + (i / 3) % 7; size_t p = (i / 21) % m; for (size_t k = 0; k < m; ++k) for (size_t j = 0; j < order; ++j) c0.push_back((p + j * ((i / 50) % 3)) % m == k ? ls[nl - 1 - j] : ls[(k + j + i) % (nl - 4)]); } // the largest value in turn at every position
        else { m = kind == MEDIUM ? i + 4 : 300 + 500 * i; order = 1 + i % 5; if (kind == MEDIUM && i % 9 == 5) order = 20; if (m > cap<O>()) m = cap<O>(); for (size_t k = 0; k < m * order; ++k) c0.push_back(ls[(k * k * 3 + k / 5 + i) % (nl - (i & 1) * 3)]); }
        mx.assign(order, 0); for (size_t k = 0; k < m; ++k) { for (size_t j = 0; j < order; ++j) { mx[j] = std::max(mx[j], c0[k * order + j]); want += (j ? " " : "") + int_text(c0[k * order + j]); } if (wgt) { w.push_back(ws[(k * 3 + i) % nw]); want += (order ? " " : "") + w_text(w.back()); } want += "\n"; }
        old_file("out.tns", old, want.size());
    }
    string describe() override { return string(nm) + " order " + std::to_string(order) + " old file " + std::to_string(old) + " text " + esc(want); }
    void configs(std::vector<Config>& o) override {
        if (kind == SMALL || kind == PERM) { cfg_full(o, {1, 2}); if (m <= 3) cfg_full(o, {3}); else cfg_policy(o, {3}); if (m <= 1 || omc::thorough()) cfg_full(o, {4}); cfg_policy(o, {4, 5, 8, 16}); }
        else if (kind == MEDIUM) { cfg_policy(o, {1, 2, 3, 4, 5, 7, 8, 16}); if (m < 16) cfg_full(o, {2}); }
        else cfg_policy(o, {1, 2, 3, 8});
    }
    void check(C& c, const char* what, bool exact) {
        if ((size_t)c.m() != m || (size_t)c.order() != order) omc::fail(string(what) + " has order " + std::to_string(c.order()) + " and " + std::to_string(c.m()) + " entries");
        auto p = raw(c.c()); for (size_t k = 0; k < c0.size(); ++k) if (p[k] != c0[k]) omc::fail(string(what) + ": coordinate " + std::to_string(k) + " differs");
        checkw(c, what, exact, std::integral_constant<bool, wgt>());
    }
    void checkw(C& c, const char* what, bool exact, std::true_type) { auto p = raw(c.w()); for (size_t k = 0; k < m; ++k) { W v = p[k]; if (exact ? v != w[k] : !close_to(v, w[k])) omc::fail(string(what) + ": weight of entry " + std::to_string(k) + " is " + std::to_string(v) + " instead of " + std::to_string(w[k])); } }
    void checkw(C&, const char*, bool, std::false_type) {}
    void fillw(C& c, std::true_type) { W* p = (W*)raw(c.w()); for (size_t k = 0; k < m; ++k) p[k] = w[k]; }
    void fillw(C&, std::false_type) {}
    void maxima(C& c, const char* what) {
        std::vector<L> g = c.max_labels();
        if (g.size() != order) omc::fail(string(what) + ": " + std::to_string(g.size()) + " maxima for order " + std::to_string(order));
        for (size_t j = 0; j < order; ++j) { L v = g[j]; if (v != mx[j]) omc::fail(string(what) + ": the maximum of dimension " + std::to_string(j) + " is " + std::to_string(v) + " instead of " + std::to_string(mx[j])); omc::outcome(v); }
    }
    void body() override {
        C* c = new C((O)order, (O)m); { L* p = (L*)raw(c->c()); for (size_t k = 0; k < c0.size(); ++k) p[k] = c0[k]; } fillw(*c, std::integral_constant<bool, wgt>());
        maxima(*c, "max_labels");
        string f; { omc::Quiet q; f = path("out.tns"); }
        bool refused = false;
        try { c->write(f); } catch (pigo::Error&) { refused = true; } catch (std::exception& e) { omc::fail(string("write failed: ") + e.what()); }
        if (refused && want.size()) omc::fail("writing is refused");
        if (!refused) expect_text("out.tns", want);
        check(*c, "the written tensor", true);
        if (m && order) {
            C* b = nullptr;
            try { b = new C(f, pigo::EDGE_LIST); } catch (std::exception& e) { omc::fail(string("the written file is refused: ") + e.what()); }
            check(*b, "the reloaded tensor", false); maxima(*b, "max_labels after reloading");
            b->free(); delete b;
        }
        c->free(); delete c; { omc::Quiet q; string().swap(f); }
    }
};
#define TNW(...) OMC_ADD(Tn<__VA_ARGS__>(SMALL)); OMC_ADD(Tn<__VA_ARGS__>(PERM)); OMC_ADD(Tn<__VA_ARGS__>(MEDIUM)); OMC_ADD(Tn<__VA_ARGS__>(LARGE));
}
