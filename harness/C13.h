// C13 numbers are printed exactly and their size is predicted exactly
#include "types.h"
#include <cmath>
namespace {
using namespace h;
enum { BLOCK = 512 };
// one value printed at every alignment, into the middle of a buffer and up to the end of one
struct Bufs {
    char *mid, *end;
    Bufs() : mid(new char[2048]), end(new char[1024]) { memset(mid, 0x7e, 2048); }
    ~Bufs() { delete[] mid; delete[] end; }
    // the text of v, or a failure
    template <class T, class F> void print(T v, size_t sz, int al, F judge) {
        char* p = mid + 64 + al; pigo::FilePos fp = p;
        pigo::write_ascii(fp, v);
        size_t adv = fp - p;
        pigo::FilePos fe = end + 1024 - sz; pigo::write_ascii(fe, v);
        omc::Quiet q;
        if (adv != sz) omc::fail(what(v) + ": the position moved by " + std::to_string(adv) + " but the predicted size is " + std::to_string(sz));
        if (fe != end + 1024) omc::fail(what(v) + ": the position moved differently at another place");
        for (int k = 0; k < 64 + al; ++k) if (mid[k] != 0x7e) omc::fail(what(v) + ": a byte before the text was touched");
        for (int k = 64 + al + sz; k < 2048; ++k) { if (mid[k] != 0x7e) omc::fail(what(v) + ": the byte " + std::to_string(k - 64 - al - sz) + " after the text was touched"); if (k > 64 + al + (int)sz + 520) break; }
        if (memcmp(p, end + 1024 - sz, sz)) omc::fail(what(v) + ": the text differs at another place");
        string bad = judge(p, sz); if (!bad.empty()) omc::fail(what(v) + ": printed as " + esc(string(p, sz)) + ", " + bad);
        memset(p, 0x7e, sz);
    }
    static string what(double v) { char b[64]; snprintf(b, sizeof b, "%.17g (%a)", v, v); return b; }
    static string what(float v) { return what((double)v); }
    template <class T> static string what(T v) { return std::to_string(v); }
};
template <class T> struct Ints : omc::Suite {
    char nm[40]; std::vector<T> all; size_t lo = 0, hi = 0;
    Ints() : Suite(nm) { snprintf(nm, sizeof nm, "int_%s", tname<T>()); }
    void make() {
        typedef __int128 I; I mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max();
        auto add = [&](I v) { if (v >= mn && v <= mx) all.push_back((T)v); if (-v >= mn && -v <= mx) all.push_back((T)-v); };
        if (sizeof(T) <= 2) { for (I v = mn; v <= mx; ++v) all.push_back((T)v); return; }
        I dense = omc::thorough() ? 1 << 20 : 1 << 15, around = omc::thorough() ? 2000 : 150;
        for (I v = 0; v < dense; ++v) add(v);
        I p = 1; for (int k = 0; k < 20; ++k, p *= 10) {
            for (I j = -around; j <= around; ++j) add(p + j);
            for (int d = 1; d < 10; ++d) { add(p * d); add((p * 10 - 1) / 9 * d); add(p * 10 - d); I q = 1; for (int l = 0; l < k; ++l, q *= 10) for (int f = 1; f < 10; ++f) { add(p * d + q * f); add(p * d - q * f); } }
        }
        for (int k = 0; k < 64; ++k) for (I j = -around / 2; j <= around / 2; ++j) add(((I)1 << k) + j);
        for (I j = 0; j < around; ++j) { add(mn + j); add(mx - j); }
        std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
    }
    size_t count() override { if (all.empty()) make(); return (all.size() + BLOCK - 1) / BLOCK; }
    void prepare(size_t i) override { count(); lo = i * BLOCK; hi = std::min(lo + BLOCK, all.size()); }
    string describe() override { return string(nm) + " " + std::to_string(all[lo]) + " to " + std::to_string(all[hi - 1]); }
    void configs(std::vector<Config>& o) override { cfg_full(o, {1}); }
    void body() override {
        Bufs b;
        for (size_t k = lo; k < hi; ++k) {
            T v = all[k]; size_t sz = pigo::write_size(v); if (sz > 40) omc::fail(Bufs::what(v) + ": the predicted size is " + std::to_string(sz));
            b.print(v, sz, k & 7, [&](const char* p, size_t n) { string w = std::to_string(v); return w == string(p, n) ? string() : "not " + w; });
            omc::outcome(sz);
        }
    }
};
// the text has to be a plain decimal number within half of the sixth decimal of the value, or read back as exactly the value
inline string judge(double v, const char* p, size_t n) {
    size_t k = 0; bool neg = false; if (k < n && p[k] == '-') { neg = true; ++k; }
    if (neg != std::signbit(v)) return "with the wrong sign";
    size_t d0 = k; while (k < n && p[k] >= '0' && p[k] <= '9') ++k;
    if (k == d0) return "without digits";
    if (k - d0 > 1 && p[d0] == '0') return "with a leading zero";
    if (k < n && p[k] == '.') { size_t f0 = ++k; while (k < n && p[k] >= '0' && p[k] <= '9') ++k; if (k == f0) return "without digits after the point"; }
    if (k != n) return "with other characters";
    string t(p, n); long double r = strtold(t.c_str(), nullptr), d = fabsl(r - (long double)v);
    if (d <= 0.5e-6L * (1 + 1e-6L) || strtod(t.c_str(), nullptr) == v) return "";
    char b[80]; snprintf(b, sizeof b, "off by %.3Lg", d); return b;
}
template <class T> struct Floats : omc::Suite {
    typedef typename std::conditional<sizeof(T) == 4, uint32_t, uint64_t>::type U; enum { MB = sizeof(T) == 4 ? 23 : 52, EB = sizeof(T) == 4 ? 8 : 11 };
    char nm[40]; int kind; std::vector<T> list; size_t cur = 0;
    Floats(int k) : Suite(nm), kind(k) { snprintf(nm, sizeof nm, "float_%s_%s", tname<T>(), k ? "decimal" : "bits"); }
    // bits: every sign and exponent with every combination of the first and last bits of the fraction, and runs of bits
    size_t fracs() { return kind ? 0 : omc::thorough() ? (sizeof(T) == 4 ? 1 << 18 : 1 << 15) : (sizeof(T) == 4 ? 1 << 12 : 1 << 8); }
    U frac(size_t k) {
        int h = omc::thorough() ? (sizeof(T) == 4 ? 9 : 7) : (sizeof(T) == 4 ? 6 : 4), l = omc::thorough() ? (sizeof(T) == 4 ? 9 : 8) : (sizeof(T) == 4 ? 6 : 4);
        U hi = (U)(k >> l), lo = k & ((1u << l) - 1), f = (hi << (MB - h)) | lo;
        if ((k ^ (k >> 3)) & 1) f |= (((U)1 << (MB - h)) - 1) & ~(((U)1 << l) - 1); // the bits between: all or none
        return f;
    }
    void make() {
        if (!kind) return;
        auto add = [&](double v) { for (int s = 0; s < 2; ++s) { T t = (T)(s ? -v : v); if (!std::isfinite(t)) continue; list.push_back(t); list.push_back(std::nextafter(t, (T)0)); T u = std::nextafter(t, std::numeric_limits<T>::infinity()); if (std::isfinite(u)) list.push_back(u); } };
        int K = omc::thorough() ? 3000 : 400;
        for (int e = -12; e <= 22; ++e) for (int m = 1; m < K; ++m) add(m * std::pow(10.0, e));
        for (int e = sizeof(T) == 4 ? -45 : -323; e <= (sizeof(T) == 4 ? 38 : 308); ++e) for (double m : {1., 9.9999999, 5., 9.999999999999999, 1.0000001, 1.5, 3.3333333333}) add(m * std::pow(10.0, e));
        for (int e = 0; e < 16; ++e) for (int j = -12; j <= 12; ++j) add(std::pow(10.0, e) + j * 0.25e-6); // carries and ties
        for (int n = 0; n < (omc::thorough() ? 4096 : 256); ++n) for (double st : {1e-6, 0.5e-6, 1 / 64., 1 / 1024., 1 / 1048576.}) add(n * st);
        for (int k = 0; k < 60; ++k) { add(std::ldexp(1., k) + 0.5); add(std::ldexp(1., k) - 0.5); add(std::ldexp(1., k) + 1e-6); add(std::ldexp(1., -k)); }
        add(0); add(std::numeric_limits<T>::max()); add(std::numeric_limits<T>::min()); add(std::numeric_limits<T>::denorm_min());
        std::sort(list.begin(), list.end()); list.erase(std::unique(list.begin(), list.end()), list.end());
    }
    size_t size() { if (kind && list.empty()) make(); return kind ? list.size() : fracs() << (EB + 1); }
    T get(size_t k) { if (kind) return list[k]; size_t f = fracs(); U u = ((U)(k / f) << MB) | frac(k % f); T t; memcpy(&t, &u, sizeof t); return t; }
    size_t count() override { return (size() + BLOCK - 1) / BLOCK; }
    void prepare(size_t i) override { size(); cur = i; }
    string describe() override { return string(nm) + " block " + std::to_string(cur) + " from " + Bufs::what(get(cur * BLOCK)); }
    void configs(std::vector<Config>& o) override { cfg_full(o, {1}); }
    void body() override {
        Bufs b;
        for (size_t k = cur * BLOCK; k < (cur + 1) * BLOCK; ++k) {
            T v; { omc::Quiet q; if (k >= size()) break; v = get(k); }
            size_t sz = pigo::write_size(v); if (sz > 400) omc::fail(Bufs::what(v) + ": the predicted size is " + std::to_string(sz));
            bool fin; { omc::Quiet q; fin = std::isfinite(v); }
            b.print(v, sz, k & 7, [&](const char* p, size_t n) { return fin ? judge((double)v, p, n) : string(); });
            omc::outcome(sz);
        }
    }
};
}
