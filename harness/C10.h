// C10 binary save and load is the identity
#include "mat.h"
#include "types.h"
#include "bin.h"
namespace {
using namespace h;
enum { OVER_NONE, OVER_SHORTER, OVER_LONGER };
inline ull mixb(ull k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdULL; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ULL; k ^= k >> 33; return k; }
// the i-th value of array `which` under a pattern: counting, all bits set, every bit mixed, zero except the last
template <class T> T pat(int p, size_t i, size_t m, int which) {
    ull v = p == 0 ? i + 1 : p == 1 ? ~0ULL : p == 2 ? mixb(i * 3 + which + 1) : (i + 1 == m ? mixb(which + 7) : 0);
    T t; memcpy(&t, &v, sizeof t); return t;
}
inline void prior(int over, const string& want) {
    string p = path("out.bin");
    if (over == OVER_NONE) unlink(p.c_str());
    else put_file(p, string(over == OVER_SHORTER ? want.size() / 2 : want.size() * 2 + 5000, 'Z'));
}
inline void expect_file(const char* name, const string& want) {
    omc::Quiet q; string got;
    if (!get_file(path(name), got)) omc::fail("the saved file cannot be read");
    if (got.size() != want.size()) omc::fail("the saved file has " + std::to_string(got.size()) + " bytes instead of " + std::to_string(want.size()));
    if (got != want) { size_t k = 0; while (got[k] == want[k]) ++k; omc::fail("the saved file differs at byte " + std::to_string(k) + " of " + std::to_string(want.size())); }
    omc::outcome_bytes(got);
}
// monitored comparison of an array with the values it has to have
template <class S, class T> void same(S& s, const std::vector<T>& v, const char* what) {
    const T* p = raw(s);
    for (size_t i = 0; i < v.size(); ++i) { T t = p[i]; if (memcmp(&t, &v[i], sizeof t)) omc::fail(string(what) + " differs at position " + std::to_string(i)); }
}
template <class S, class T> void fill(S& s, const std::vector<T>& v) { T* p = (T*)raw(s); for (size_t i = 0; i < v.size(); ++i) p[i] = v[i]; }
inline void confs(size_t bytes, std::vector<Config>& o) { if (bytes > 2000) { cfg_policy(o, {1, 2, 3, 4, 8, 16}); return; } cfg_full(o, {1, 2, 3}); cfg_policy(o, {4, 7, 8, 16}); }
// how a file is loaded: by name (type detected), by name and type, from an open file, from inside an open file
template <class C> C* load(int how, pigo::FileType t) {
    string p; { omc::Quiet q; p = path(how == 3 ? "off.bin" : "out.bin"); }
    C* c = nullptr;
    try {
        if (how == 0) c = new C(p);
        else if (how == 1) c = new C(p, t);
        else if (how == 2) { pigo::File f(p, pigo::READ); c = new C(f, pigo::AUTO); }
        else { pigo::File f(p, pigo::READ); f.seek(5); c = new C(f, t); }
    } catch (std::exception& x) { omc::fail(string("loading the saved file failed: ") + x.what()); }
    { omc::Quiet q; string().swap(p); }
    return c;
}
struct Common : omc::Suite {
    bool big; size_t m, n; int p, over, how; string want; char nm[80];
    Common(bool b) : Suite(nm), big(b) {}
    ull ob = ~0ull;
    size_t sizes() { return big ? ob > 66000 ? 9 : ob > 20011 ? 8 : ob > 254 ? 6 : 2 : omc::thorough() ? 34 : 14; }
    size_t size_of(size_t k) { static const size_t s[] = {100, 257, 300, 1000, 4096, 4097, 10240, 20011, 66000}, s1[] = {100, 127, 128, 200, 254, 255}; return !big ? k : ob < 256 ? s1[k] : s[k]; }
    string describe() override { return string(nm) + " m=" + std::to_string(m) + " n=" + std::to_string(n) + " pattern=" + std::to_string(p) + " before=" + std::to_string(over) + " how=" + std::to_string(how); }
    void configs(std::vector<Config>& o) override { confs(want.size(), o); }
    void setup() { prior(over, want); if (how == 3) put_file(path("off.bin"), string("PIGO-") + want + "trailer"); }
};
template <class L, class O, int S, class W, bool wgt> struct Coo : Common {
    typedef pigo::COO<L, O, typename St<L, S>::t, false, false, false, wgt, W, typename St<W, S>::t> C;
    std::vector<L> x, y; std::vector<W> w; L d[3];
    Coo(bool b) : Common(b) { ob = cap<O>(); snprintf(nm, sizeof nm, "coo%s_%s%s%s_%s", b ? "_big" : "", tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    size_t count() override { return sizes() * 4 * (big ? 1 : 12); }
    void prepare(size_t i) override {
        p = i % 4; i /= 4; over = big ? 2 : i % 3; how = big ? 0 : (i / 3) % 4; if (!big) i /= 12; m = size_of(i); n = 0;
        x.clear(); y.clear(); w.clear(); for (size_t k = 0; k < m; ++k) { x.push_back(pat<L>(p, k, m, 0)); y.push_back(pat<L>(p, k, m, 1)); if (wgt) w.push_back(pat<W>(p, k, m, 2)); }
        for (int k = 0; k < 3; ++k) d[k] = pat<L>(p, k, 3, 5);
        want = "PIGO-COO-v1"; app<uint8_t>(want, sizeof(L)); app<uint8_t>(want, sizeof(O)); app<L>(want, d[0]); app<L>(want, d[1]); app<L>(want, d[2]); app<O>(want, m);
        for (L v : x) app(want, v); for (L v : y) app(want, v); for (W v : w) app(want, v);
        setup();
    }
    void check(C& c, const char* what) {
        if (c.nrows() != d[0] || c.ncols() != d[1] || c.n() != d[2] || (size_t)c.m() != m) omc::fail(string(what) + ": the sizes differ");
        same(c.x(), x, what); same(c.y(), y, what); if (wgt) same(c.w(), w, what);
    }
    void body() override {
        C* c = new C(d[2], d[0], d[1], (O)m); fill(c->x(), x); fill(c->y(), y); if (wgt) fill(c->w(), w);
        string f; { omc::Quiet q; f = path("out.bin"); }
        try { c->save(f); } catch (std::exception& e) { omc::fail(string("save failed: ") + e.what()); }
        expect_file("out.bin", want); check(*c, "saved COO");
        C* r = load<C>(how, pigo::PIGO_COO_BIN); check(*r, "reloaded COO");
        try { r->save(f); } catch (std::exception& e) { omc::fail(string("second save failed: ") + e.what()); }
        expect_file("out.bin", want);
        r->free(); delete r; c->free(); delete c; { omc::Quiet q; string().swap(f); }
    }
};
template <class L, class O, int S, class W, bool wgt> struct Csr : Common {
    typedef pigo::CSR<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> C;
    std::vector<L> ep; std::vector<O> off; std::vector<W> w; L d[2];
    Csr(bool b) : Common(b) { ob = cap<O>(); snprintf(nm, sizeof nm, "csr%s_%s%s%s_%s", b ? "_big" : "", tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    size_t count() override { return sizes() * 4 * (big ? 1 : 12 * 5); }
    void prepare(size_t i) override {
        p = i % 4; i /= 4; over = big ? 2 : i % 3; how = big ? 0 : (i / 3) % 4; if (!big) { i /= 12; n = i % 5; i /= 5; } m = n || big ? size_of(i) : 0; if (big) n = m / 3 + i; if (n >= cap<L>()) n = cap<L>() - 5 + i % 5;
        ep.clear(); off.clear(); w.clear(); for (size_t k = 0; k < m; ++k) { ep.push_back(pat<L>(p, k, m, 0)); if (wgt) w.push_back(pat<W>(p, k, m, 2)); }
        for (size_t v = 0; v <= n; ++v) off.push_back(v == 0 ? 0 : v == n ? m : (O)(m * ((v * (p + 1)) % (n + 1)) / (n + 1))); std::sort(off.begin(), off.end()); off.back() = m; if (n == 0) off[0] = (O)m;
        for (int k = 0; k < 2; ++k) d[k] = pat<L>(p, k, 2, 5);
        want = "PIGO-CSR-v2"; app<uint8_t>(want, sizeof(L)); app<uint8_t>(want, sizeof(O)); app<L>(want, n); app<O>(want, m); app<L>(want, d[0]); app<L>(want, d[1]);
        for (O v : off) app(want, v); for (L v : ep) app(want, v); for (W v : w) app(want, v);
        setup();
    }
    void check(C& c, const char* what) {
        if (c.nrows() != d[0] || c.ncols() != d[1] || (size_t)c.n() != n || (size_t)c.m() != m) omc::fail(string(what) + ": the sizes differ");
        same(c.offsets(), off, what); same(c.endpoints(), ep, what); if (wgt) same(c.weights(), w, what);
    }
    void body() override {
        C* c = new C((L)n, (O)m, d[0], d[1]); fill(c->offsets(), off); fill(c->endpoints(), ep); if (wgt) fill(c->weights(), w);
        if (c->save_size() != want.size()) omc::fail("save_size is " + std::to_string(c->save_size()) + " instead of " + std::to_string(want.size()));
        string f; { omc::Quiet q; f = path("out.bin"); }
        try { if (over == OVER_SHORTER) { pigo::WFile wf(f, want.size()); c->save(wf); } else c->save(f); } catch (std::exception& e) { omc::fail(string("save failed: ") + e.what()); }
        expect_file("out.bin", want); check(*c, "saved CSR");
        C* r = load<C>(how, pigo::PIGO_CSR_BIN); check(*r, "reloaded CSR");
        if (over == OVER_NONE) { // into the middle of a file, through a cursor
            string g; { omc::Quiet q; g = path("mid.bin"); }
            try { pigo::WFile wf(g, want.size() + 9); wf.seek(4); r->save(wf); wf.write('!'); } catch (std::exception& e) { omc::fail(string("save into an open file failed: ") + e.what()); }
            { omc::Quiet q; string got; get_file(g, got); if (got.size() != want.size() + 9 || got.substr(4, want.size()) != want || got[4 + want.size()] != '!') omc::fail("saving into an open file wrote something else or moved the cursor elsewhere"); string().swap(g); }
        }
        r->free(); delete r; c->free(); delete c; { omc::Quiet q; string().swap(f); }
    }
};
template <class L, class O, int S, class W, bool wgt> struct Tns : Common {
    typedef pigo::Tensor<L, O, typename St<L, S>::t, W, typename St<W, S>::t, wgt> C;
    std::vector<L> c0; std::vector<W> w;
    Tns(bool b) : Common(b) { ob = cap<O>(); snprintf(nm, sizeof nm, "tensor%s_%s%s%s_%s", b ? "_big" : "", tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    size_t count() override { return sizes() * 4 * (big ? 1 : 12 * 5); }
    void prepare(size_t i) override { // n is the order
        p = i % 4; i /= 4; over = big ? 2 : i % 3; how = big ? 0 : (i / 3) % 4; if (!big) { i /= 12; n = i % 5; i /= 5; } m = size_of(i); if (big) n = 1 + i % 4;
        c0.clear(); w.clear(); for (size_t k = 0; k < m * n; ++k) c0.push_back(pat<L>(p, k, m * n, 0)); if (wgt) for (size_t k = 0; k < m; ++k) w.push_back(pat<W>(p, k, m, 2));
        want = "PIGO-Tensor-2"; app<uint8_t>(want, sizeof(L)); app<uint8_t>(want, sizeof(O)); if (wgt) app<uint8_t>(want, sizeof(W)); app<O>(want, n); app<O>(want, m);
        for (L v : c0) app(want, v); for (W v : w) app(want, v);
        setup();
    }
    void check(C& c, const char* what) {
        if ((size_t)c.order() != n || (size_t)c.m() != m) omc::fail(string(what) + ": the sizes differ");
        same(c.c(), c0, what); if (wgt) same(c.w(), w, what);
    }
    void body() override {
        C* c = new C((O)n, (O)m); fill(c->c(), c0); if (wgt) fill(c->w(), w);
        string f; { omc::Quiet q; f = path("out.bin"); }
        try { c->save(f); } catch (std::exception& e) { omc::fail(string("save failed: ") + e.what()); }
        expect_file("out.bin", want); check(*c, "saved Tensor");
        C* r = load<C>(how, pigo::PIGO_TENSOR_BIN); check(*r, "reloaded Tensor");
        try { r->save(f); } catch (std::exception& e) { omc::fail(string("second save failed: ") + e.what()); }
        expect_file("out.bin", want);
        r->free(); delete r; c->free(); delete c; { omc::Quiet q; string().swap(f); }
    }
};
// the bytes are those of the two views in memory
template <class L, class O, int S, class W, bool wgt> struct Dig : omc::Suite {
    typedef pigo::COO<L, O, typename St<L, S>::t, false, false, false, wgt, W, typename St<W, S>::t> A;
    typedef pigo::DiGraph<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> G;
    char nm[80]; int kind, how; std::vector<Entry> e; Dims d; SeqEnum en{0, 0, 0};
    Dig(int k) : Suite(nm), kind(k) { snprintf(nm, sizeof nm, "digraph_%s_%s%s%s_%s", k ? "large" : "small", tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    size_t count() override { en = SeqEnum{9, 0, omc::thorough() ? 3u : 2u}; return kind ? 24 + high_sizes(cap<L>()).size() * 3 : en.count() * 4; }
    void prepare(size_t i) override {
        how = i % 4; e.clear();
        if (kind && i >= 24) high_case(i - 24, e, d, high_sizes(cap<L>())[(i - 24) / 3]);
        else if (kind) { int m = 1 + i * 53, n = 3 + i; if ((ull)m > cap<O>()) m = cap<O>(); if ((ull)n > cap<L>()) n = cap<L>(); for (int k = 0; k < m; ++k) e.push_back(Entry{(k * 7 + (int)i) % n, (k * k + 3) % n, wval(k)}); d = Dims{n, n, n}; }
        else { e = entries_of(en.get(i / 4), 3); d = Dims{3 + (ll)(i % 3), 3, 2}; if (e.empty()) d = Dims{(ll)i, 0, 0}; }
        if (!wgt) zero_w(e); else vary_w<W, W>(e);
        prior(kind ? 1 : i % 3, string(300, 'x'));
    }
    string describe() override { return string(nm) + " n=" + std::to_string(d.n) + " how=" + std::to_string(how) + " entries " + show(e); }
    void configs(std::vector<Config>& o) override { if (d.n > 9999) { cfg_policy(o, {1, 4}); return; } if (kind) { cfg_policy(o, {1, 2, 3, 4, 8, 16}); return; } cfg_full(o, {1, 2}); if (e.size() < 2) cfg_full(o, {3}); else cfg_policy(o, {3, 4}); }
    template <class C> string bytes(C& c) {
        auto off = vec(raw(c.offsets()), (size_t)c.n() + 1); auto ep = vec(raw(c.endpoints()), (size_t)c.m());
        string s = "PIGO-CSR-v2"; app<uint8_t>(s, sizeof(L)); app<uint8_t>(s, sizeof(O)); app<L>(s, c.n()); app<O>(s, c.m()); app<L>(s, c.nrows()); app<L>(s, c.ncols());
        for (O v : off) app(s, v); for (L v : ep) app(s, v); if (wgt) for (size_t k = 0; k < (size_t)c.m(); ++k) app<W>(s, (W)getw(c.weights(), k, std::integral_constant<bool, wgt>()));
        return s;
    }
    void body() override {
        A* a = make_coo<A, wgt>(e, d); G* g = new G(*a); a->free(); delete a;
        string f; { omc::Quiet q; f = path("out.bin"); }
        try { g->save(f); } catch (std::exception& x) { omc::fail(string("save failed: ") + x.what()); }
        string want; { omc::Quiet q; want = "PIGO-DiGraph-v1" + bytes(g->in()) + bytes(g->out()); string got; get_file(f, got); if (got != want) omc::fail("the saved file is not the two views (" + std::to_string(got.size()) + " bytes, " + std::to_string(want.size()) + " expected)"); if (how == 3) put_file(path("off.bin"), "PIGO-" + want + "trailer"); }
        G* r = load<G>(how, pigo::PIGO_DIGRAPH_BIN);
        { omc::Quiet q; string got = "PIGO-DiGraph-v1" + bytes(r->in()) + bytes(r->out()); if (got != want) omc::fail("the reloaded DiGraph differs"); }
        check_csr<typename std::remove_reference<decltype(r->out())>::type, wgt>(r->out(), e, d, "reloaded out-edges");
        r->free(); delete r; g->free(); delete g; { omc::Quiet q; string().swap(f); string().swap(want); }
    }
};
#define BINS(...) OMC_ADD(Coo<__VA_ARGS__>(false)); OMC_ADD(Coo<__VA_ARGS__>(true)); OMC_ADD(Csr<__VA_ARGS__>(false)); OMC_ADD(Csr<__VA_ARGS__>(true)); OMC_ADD(Tns<__VA_ARGS__>(false)); OMC_ADD(Tns<__VA_ARGS__>(true)); OMC_ADD(Dig<__VA_ARGS__>(0)); OMC_ADD(Dig<__VA_ARGS__>(1));
}
