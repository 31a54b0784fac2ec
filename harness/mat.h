// Containers built in memory, and comparisons of CSRs with lists of entries.
#ifndef HARNESS_MAT_H
#define HARNESS_MAT_H
#include "el.h"
#include <cmath>
#include <limits>
namespace h {
template <bool wgt> struct PutW { template <class C> static void go(C& c, size_t i, double w) { raw_w(c.w(), i, w); }
    template <class W> static void raw_w(W* p, size_t i, double w) { p[i] = (W)w; }
    template <class W> static void raw_w(std::vector<W>& p, size_t i, double w) { p[i] = (W)w; }
    template <class W> static void raw_w(std::shared_ptr<W>& p, size_t i, double w) { p.get()[i] = (W)w; } };
template <> struct PutW<false> { template <class C> static void go(C&, size_t, double) {} };
template <class T> void put(T* p, size_t i, ll v) { p[i] = (T)v; }
template <class T> void put(std::vector<T>& p, size_t i, ll v) { p[i] = (T)v; }
template <class T> void put(std::shared_ptr<T>& p, size_t i, ll v) { p.get()[i] = (T)v; }

// a COO with these entries, filled through the public accessors
template <class C, bool wgt> C* make_coo(const std::vector<Entry>& e, Dims d) {
    C* c = new C(d.n, d.nrows, d.ncols, e.size());
    for (size_t i = 0; i < e.size(); ++i) { put(c->x(), i, e[i].x); put(c->y(), i, e[i].y); PutW<wgt>::go(*c, i, e[i].w); }
    return c;
}
template <class C> void PutWcsr(C& c, size_t i, double w, std::true_type) { PutW<true>::raw_w(c.weights(), i, w); }
template <class C> void PutWcsr(C&, size_t, double, std::false_type) {}
// a CSR with these entries row by row (entries sorted by row by the caller)
template <class C, bool wgt> C* make_csr(const std::vector<Entry>& e, Dims d) {
    C* c = new C(d.n, e.size(), d.nrows, d.ncols); size_t k = 0;
    for (ll v = 0; v <= d.n; ++v) { while (k < e.size() && e[k].x < v) ++k; put(c->offsets(), v, k); }
    for (size_t i = 0; i < e.size(); ++i) { put(c->endpoints(), i, e[i].y); PutWcsr(*c, i, e[i].w, std::integral_constant<bool, wgt>()); }
    return c;
}

template <class WS> double getw(WS& ws, size_t i, std::true_type) { auto p = raw(ws); return (double)p[i]; }
template <class WS> double getw(WS&, size_t, std::false_type) { return 0; }

// all entries of a CSR in storage order; fails when the offsets are not those of m entries
template <class C, bool wgt> std::vector<Entry> csr_entries(C& c, const char* what) {
    std::vector<Entry> r; size_t n = (size_t)c.n(), m = (size_t)c.m();
    vsize(c.endpoints(), m, "endpoints"); if (wgt) vsize(c.weights(), m, "weights");
    auto off = raw(c.offsets()); auto ep = raw(c.endpoints());
    if (off[0] != 0) omc::fail(string(what) + ": the first offset is " + std::to_string(off[0]));
    if ((size_t)off[n] != m) omc::fail(string(what) + ": the last offset is " + std::to_string(off[n]) + " instead of " + std::to_string(m));
    for (size_t v = 0; v < n; ++v) {
        size_t a = off[v], b = off[v + 1];
        if (b < a || b > m) omc::fail(string(what) + ": the offsets decrease at row " + std::to_string(v) + ": " + std::to_string(a) + ", " + std::to_string(b));
        for (size_t k = a; k < b; ++k) { ll y = (ll)ep[k]; double w = getw(c.weights(), k, std::integral_constant<bool, wgt>()); omc::Quiet q; Entry e; e.x = v; e.y = y; e.w = w; r.push_back(e); }
    }
    return r;
}
inline void drop(std::vector<Entry>& v) { omc::Quiet q; std::vector<Entry>().swap(v); }
// the CSR holds exactly these entries, rows in any order inside
template <class C, bool wgt> void check_csr(C& c, const std::vector<Entry>& e, Dims d, const char* what, bool in_order = false) {
    if ((size_t)c.m() != e.size()) omc::fail(string(what) + ": m is " + std::to_string(c.m()) + " instead of " + std::to_string(e.size()));
    { omc::Quiet q; expect_dims(dims_of(c), d, what); }
    auto got = csr_entries<C, wgt>(c, what);
    {
        omc::Quiet q; auto want = e;
        if (in_order) std::stable_sort(want.begin(), want.end(), [](const Entry& a, const Entry& b) { return a.x < b.x; });
        else { std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); }
        expect_entries(got, want, what); out_entries(got); std::vector<Entry>().swap(got);
    }
}
template <class C, class L, class W, bool wgt> void check_coo(C& c, const std::vector<Entry>& e, Dims d, const char* what, bool any_order = false) {
    if ((size_t)c.m() != e.size()) omc::fail(string(what) + ": m is " + std::to_string(c.m()) + " instead of " + std::to_string(e.size()));
    { omc::Quiet q; expect_dims(dims_of(c), d, what); }
    auto got = CooView<C, L, W, wgt>::get(c);
    { omc::Quiet q; auto want = e; if (any_order) { std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); } expect_entries(got, want, what); out_entries(got); std::vector<Entry>().swap(got); }
}
inline double wval(int pos) { static const double w[] = {3, 1, 2, 1, 7, 5, 4, 9, 6, 8}; return w[pos % 10]; }
inline std::vector<Entry> entries_of(const std::vector<int>& v, int labels) { std::vector<Entry> e; for (size_t i = 0; i < v.size(); ++i) { Entry k; k.x = v[i] / labels; k.y = v[i] % labels; k.w = wval(i); e.push_back(k); } return e; }
// Long containers: the numbers of entries straddle the limits of the narrow types, as far as the ordinals still count them
template <class T> constexpr ull cap() { return (ull)(std::numeric_limits<T>::max)(); }
inline std::vector<int> many_sizes(ull ocap) {
    std::vector<int> v;
    if (ocap < 256) { for (int x : {60, 99, 126, 127, 128, 129, 200, 254, 255}) if ((ull)x <= ocap && (ocap < 128 || x > 60)) v.push_back(x); return v; }
    v = {127, 128, 255, 256, 257, 511, 600, 1300, 4099};
    if (ocap > 66000) v.push_back(66000);
    return v;
}
// Large labels: numbers of vertices that straddle the limits of narrow types (lcap: the largest value of the labels, 0 for none)
inline std::vector<ll> high_sizes(ull lcap) {
    std::vector<ll> v;
    for (ll x : {126, 127, 128, 129, 255, 256, 257, 300, 32767, 32769, 65535, 65536, 65537, 66000}) if ((ull)x <= lcap && (x > 127 || lcap < 128)) v.push_back(x);
    return v;
}
inline size_t many_count(ull ocap, ull lcap = 0) { return many_sizes(ocap).size() * 5 + high_sizes(lcap).size() * 3; }
inline void high_case(size_t i, std::vector<Entry>& e, Dims& d, ll n) {
    std::vector<ll> v{n - 1, 0, n / 2, std::max<ll>(0, n - 2), (n - 1) & 127, n >> 8, n - 1};
    int m = i % 3 == 0 ? 1 : i % 3 == 1 ? 5 : 60;
    for (ll k = 0; k < m; ++k) e.push_back(m < 60 ? Entry{v[k], v[(k + 1 + k / 2) % 7], wval(k)} : Entry{k % 3 ? (k * n / 61 + k) % n : n - 1, k % 5 ? (k * k * 37 + n - 1) % n : n - 1, wval(k)});
    d = Dims{n, n, n}; if (i % 3 == 0 && n > 100) { d.ncols = 7; e[0].y = 3; }
}
// case i: labels below min(top, 251); rows in file order, not sorted
inline void many_case(size_t i, ull ocap, std::vector<Entry>& e, Dims& d, ull top = 251, ull lcap = 0) {
    e.clear(); size_t low = many_sizes(ocap).size() * 5; if (lcap && i >= low) { high_case(i - low, e, d, high_sizes(lcap)[(i - low) / 3]); return; }
    auto z = many_sizes(ocap); int m = z[i / 5 % z.size()], pat = i % 5; if (top > 251) top = 251; ll n = std::min<ll>(top, pat == 4 ? 17 : 251);
    for (ll k = 0; k < m; ++k) {
        ll x, y;
        switch (pat) {
            case 0: x = (k * 7 + 3) % n; y = (k / n * 13 + k * 5) % n; break;      // spread
            case 1: x = n / 2; y = (k * 11) % n; break;                             // one row
            case 2: x = (k / (n - 1)) % n; y = (n - 1) - k % (n - 1); break;        // dense rows, distinct columns, falling
            case 3: x = k % 2 ? n - 1 : 0; y = (k * k + k / 3) % n; break;          // first and last row
            default: x = (k * k) % n; y = (k * 3) % n;                              // few labels, many duplicates
        }
        e.push_back(Entry{x, y, wval(k)});
    }
    d = Dims{n, n, n}; if (pat == 1) d.n = std::min<ll>(top, n + 3);
}
// weights of either sign and with fractions, where the types have them
template <class W1, class W2> void vary_w(std::vector<Entry>& e) {
    bool sg = std::is_signed<W1>::value && std::is_signed<W2>::value, fp = std::is_floating_point<W1>::value && std::is_floating_point<W2>::value;
    for (auto& k : e) { if (fp) k.w = k.w * 1000.25 - 2; else if (sg) k.w = k.w * 11 + 1; if (sg && (int)std::fabs(k.w) % 2) k.w = -k.w; }
}
inline void zero_w(std::vector<Entry>& e) { for (auto& k : e) k.w = 0; }
}
#endif
