// C16 text loaders are memory safe and terminate on any bytes
#include "text.h"
namespace {
using namespace h;
enum Form { EL, MM, GR };
typedef void (*Loader)(const string& p, pigo::FileType t, int how);
static volatile char sink;
template <class T> void touch(const T* p, size_t n) { for (size_t k = 0; k < n; ++k) { T v = p[k]; (void)v; } }
template <class WS> void touchw(WS& w, size_t n, std::true_type) { touch(raw(w), n); }
template <class WS> void touchw(WS&, size_t, std::false_type) {}
// every element of the result is read, and what it consists of is released
template <bool w, class C> void use_coo(C& c) { touch(raw(c.x()), (size_t)c.m()); touch(raw(c.y()), (size_t)c.m()); touchw(c.w(), (size_t)c.m(), std::integral_constant<bool, w>()); }
template <bool w, class C> void use_csr(C& c) {
    size_t n = (size_t)c.n(), m = (size_t)c.m(); auto off = raw(c.offsets()); auto ep = raw(c.endpoints());
    if ((size_t)off[n] > m) omc::fail("the last offset of the loaded CSR is beyond its entries");
    for (size_t v = 0; v < n; ++v) { if (off[v + 1] < off[v]) omc::fail("the offsets of the loaded CSR decrease"); for (size_t k = off[v]; k < (size_t)off[v + 1]; ++k) { auto e = ep[k]; (void)e; } }
    touchw(c.weights(), m, std::integral_constant<bool, w>());
}
template <class C> C* open_as(const string& p, pigo::FileType t, int how) { if (how == 0) return new C(p, t); if (how == 1) return new C(p); pigo::File f(p, pigo::READ); return new C(f, t); }
template <class L, class O, int S, bool sym, bool ut, bool sl, bool w, class W> void l_coo(const string& p, pigo::FileType t, int how) { typedef pigo::COO<L, O, typename St<L, S>::t, sym, ut, sl, w, W, typename St<W, S>::t> C; C* c = open_as<C>(p, t, how); use_coo<w>(*c); c->free(); delete c; }
template <class L, class O, int S, bool w, class W> void l_csr(const string& p, pigo::FileType t, int how) { typedef pigo::CSR<L, O, typename St<L, S>::t, typename St<O, S>::t, w, W, typename St<W, S>::t> C; C* c = open_as<C>(p, t, how); use_csr<w>(*c); c->free(); delete c; }
template <class L, class O, int S, bool w, class W> void l_dig(const string& p, pigo::FileType t, int how) { typedef pigo::DiGraph<L, O, typename St<L, S>::t, typename St<O, S>::t, w, W, typename St<W, S>::t> C; C* c = open_as<C>(p, t, how); use_csr<w>(c->in()); use_csr<w>(c->out()); c->free(); delete c; }
template <class L, class O, int S, bool w, class W> void l_mat(const string& p, pigo::FileType, int) { typedef pigo::Matrix<L, O, typename St<L, S>::t, typename St<O, S>::t, w, W, typename St<W, S>::t> C; C* c = new C(p); use_csr<w>(c->csr()); use_csr<w>(c->csc()); c->free(); delete c; }
template <class L, class O, int S, bool w, class W> void l_tns(const string& p, pigo::FileType t, int how) { typedef pigo::Tensor<L, O, typename St<L, S>::t, W, typename St<W, S>::t, w> C; C* c = open_as<C>(p, t, how); touch(raw(c->c()), (size_t)c->m() * c->order()); touchw(c->w(), (size_t)c->m(), std::integral_constant<bool, w>()); c->free(); delete c; }

struct Any : omc::Suite {
    char nm[60]; Form f; Loader ld; string text; int how = 0; const char* fn = "in";
    Any(Form f, const char* kind, const char* l, Loader ld) : Suite(nm), f(f), ld(ld) { snprintf(nm, sizeof nm, "%s_%s_%s", kind, f == EL ? "el" : f == MM ? "mm" : "graph", l); fn = f == EL ? "in.el" : f == MM ? "in.mtx" : "in.graph"; }
    void set(const string& s, size_t h) { text = s; how = h % 3; put_file(path(fn), s); }
    string describe() override { return string(nm) + " how=" + std::to_string(how) + " " + esc(text); }
    void configs(std::vector<Config>& o) override { cfg_full(o, {1, 2}); cfg_policy(o, {3, 5}); if (omc::thorough() && text.size() < 20) cfg_full(o, {3}); }
    void body() override {
        string p; { omc::Quiet q; p = path(fn); }
        try { ld(p, f == EL ? pigo::EDGE_LIST : f == MM ? pigo::MATRIX_MARKET : pigo::GRAPH, how); }
        catch (pigo::Error&) {} catch (std::bad_alloc&) {}
        catch (std::exception& e) { omc::fail(string("something else than a PIGO Error is thrown: ") + e.what()); }
        { omc::Quiet q; string().swap(p); }
    }
};
static const string BANNER = "%%MatrixMarket matrix coordinate real general\n";
// every string over an alphabet
struct Strings : Any {
    string A; size_t N; SeqEnum en{0, 0, 0}; int pre;
    Strings(Form f, const char* l, Loader ld, const char* kind, const string& a, int n, int p = 0) : Any(f, kind, l, ld), A(a), N(n), pre(p) {}
    size_t count() override { en = SeqEnum{A.size(), 0, N + omc::thorough()}; return en.count(); }
    void prepare(size_t i) override {
        string s; for (int k : en.get(i)) s += A[k];
        static const char* mmp[] = {"1 1 1\n", "2 2 2\n", ""}; static const char* grp[] = {"", "2 2\n", "1 1\n"};
        if (f == MM) s = BANNER + mmp[pre % 3] + s; else if (f == GR) s = grp[pre % 3] + s; else if (pre == 1) s = "1 2 3\n" + s; else if (pre == 2) s += "\n1 2 3\n4 5";
        set(s, i);
    }
};
// every byte value in place of, and inserted before, every byte of typical files; every truncation
struct Bytes : Any {
    std::vector<string> base; struct D { int b; int pos; int v; }; std::vector<D> ds;
    Bytes(Form f, const char* l, Loader ld) : Any(f, "bytes", l, ld) {
        if (f == EL) base = {"12 3 4.5e-1\n# c\n3 12 -7\r\n", "0 1 2\n3 4 5"};
        else if (f == MM) base = {BANNER + "%c\n3 4 2\n1 2 5.5\n3 4 -1e2\n"};
        else base = {"3 2\n2 3\n%c\n1\n1\n", "2 1\n1\n0"};
    }
    size_t count() override {
        if (ds.empty()) for (size_t b = 0; b < base.size(); ++b) for (int p = 0; p <= (int)base[b].size(); ++p) { ds.push_back(D{(int)b, p, -1}); for (int v = 0; v < 512; ++v) { if (!omc::thorough() && f == MM && p < (int)BANNER.size() && v % 256 % 16 != 10) continue; ds.push_back(D{(int)b, p, v}); } }
        return ds.size();
    }
    void prepare(size_t i) override { count(); D d = ds[i]; string s = base[d.b]; if (d.v < 0) s = s.substr(0, d.pos); else if (d.v < 256) { if (d.pos < (int)s.size()) s[d.pos] = (char)d.v; else s += (char)d.v; } else s.insert(d.pos, 1, (char)(d.v - 256)); set(s, i); }
    void configs(std::vector<Config>& o) override { cfg_full(o, {2}); cfg_policy(o, {1, 4}); }
};
// two lines exchanged, dropped, doubled or cut, and numbers at the limits of the types
struct Pieces : Any {
    std::vector<string> P; SeqEnum en{0, 0, 0}; int pre;
    Pieces(Form f, const char* l, Loader ld) : Any(f, "pieces", l, ld) {
        P = {"1 2", "255 1", "1 256 3", "65535 65536 -", "4294967295 0 1", "2 4294967294 .e", "18446744073709551615 1 1e99", "1", "-", "1 2 3 4 5 6", "#", "e", "0 0 1e", "99999999999999999999999 3 5.", "2 2 1.0e+", "+", "127 2147483648 9", "2147483647 128 -9", "9223372036854775808 32768"};
    }
    size_t count() override { en = SeqEnum{P.size(), 1, omc::thorough() ? 3u : 2u}; return en.count() * 4; }
    void prepare(size_t i) override {
        static const char* seps[] = {"\n", "\r\n", " ", "\n\n"}; string s; if (f == MM) s = BANNER; auto v = en.get(i / 4);
        for (size_t k = 0; k < v.size(); ++k) { if (k) s += seps[i % 4]; s += P[v[k]]; } if (i / 4 % 2) s += "\n"; set(s, i / 4);
    }
};
// pages: a file that fills its last page up to the last byte
struct Pages : Any {
    static std::vector<string> tails() { return {"1 2 3", "1 2", "1", "-", "+", "1 2 -", "1 2 3e", "1 2 3e-", "1 2 3.", "#", "%", " ", "\n", "\r", "e", ".", "1 2 3\n#", "0", "1 2 3\n0", "\n\n"}; }
    Pages(Form f, const char* l, Loader ld) : Any(f, "pages", l, ld) {}
    size_t count() override { return tails().size() * 6; }
    void prepare(size_t i) override {
        string t = tails()[i % tails().size()]; size_t v = i / tails().size(); string s = f == MM ? BANNER + "900 900 400\n" : f == GR ? "700 400\n" : "";
        size_t target = v < 3 ? 4096 : 8192, n = v % 3; string row = n == 0 ? "1 2 3\n" : n == 1 ? "# comment\n" : "\n";
        while (s.size() + row.size() + t.size() <= target) s += row;
        while (s.size() + t.size() < target) s += n == 0 ? ' ' : n == 1 ? '9' : '\n';
        set(s + t, i);
    }
    void configs(std::vector<Config>& o) override { cfg_policy(o, {1, 2, 3, 8}); }
};
// more rows, entries or larger labels than narrow types can count
struct Narrow : Any {
    size_t lo; Narrow(Form f, const char* l, Loader ld, size_t lo = 248) : Any(f, "narrow", l, ld), lo(lo) {}
    size_t count() override { return 24 * 6; }
    void prepare(size_t i) override {
        size_t m = lo + i % 24, v = i / 24; string s;
        if (f == GR) { size_t e = v % 3 == 0 ? m : v % 3 == 1 ? m * 2 : m % 256; s = std::to_string(v < 3 ? m : m % 256) + " " + std::to_string(e) + "\n"; for (size_t k = 0; k < m; ++k) s += v % 3 == 1 ? "1 2\n" : std::to_string(1 + k % 300) + "\n"; }
        else { if (f == MM) s = BANNER + std::to_string(v & 1 ? m : 300) + " 300 " + std::to_string(v & 2 ? m % 256 : m) + "\n"; size_t c = v < 3 ? m : 3; for (size_t k = 0; k < c; ++k) s += (v % 3 == 1 ? std::to_string(m) + " " + std::to_string(k) : v % 3 == 2 ? std::to_string(k) + " " + std::to_string(m) : std::to_string(k) + " " + std::to_string((k * 7) % 250)) + " 1\n"; }
        set(s, i);
    }
    void configs(std::vector<Config>& o) override { cfg_policy(o, {1, 2, 5}); }
};
#define BOTH(F, N, ...) OMC_ADD(Strings(F, N, __VA_ARGS__, "strings", "1 \n#-.e0", 4)); OMC_ADD(Bytes(F, N, __VA_ARGS__)); OMC_ADD(Pieces(F, N, __VA_ARGS__)); OMC_ADD(Pages(F, N, __VA_ARGS__));
#define DEEP(F, N, ...) OMC_ADD(Strings(F, N, __VA_ARGS__, "deep", "1 \n#", 6)); OMC_ADD(Strings(F, N, __VA_ARGS__, "deep1", "2\n %", 5, 1)); OMC_ADD(Strings(F, N, __VA_ARGS__, "deep2", "0\n +", 5, 2));
typedef uint8_t B8; typedef uint32_t U; typedef uint64_t Q;
}
