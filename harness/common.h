// Shared by all harnesses: files, enumeration, access to PIGO containers, reference readers.
#ifndef HARNESS_COMMON_H
#define HARNESS_COMMON_H
#include "../omc/omc.h"
#include "pigo.hpp"
#include <algorithm>
#include <cmath>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sys/stat.h>
#include <unistd.h>

namespace h {
using omc::Config;
using std::string;
typedef long long ll;
typedef unsigned long long ull;

inline string path(const char* name) { return string(omc::dir()) + "/" + name; }
inline void put_file(const string& p, const string& s) {
    int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    if (fd < 0) { perror("put_file"); _exit(3); }
    size_t k = 0; while (k < s.size()) { ssize_t r = write(fd, s.data() + k, s.size() - k); if (r <= 0) _exit(3); k += r; }
    close(fd);
}
inline bool get_file(const string& p, string& s) {
    s.clear(); int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return false;
    struct stat st; fstat(fd, &st); s.resize(st.st_size); size_t k = 0;
    while (k < s.size()) { ssize_t r = read(fd, &s[k], s.size() - k); if (r <= 0) break; k += r; }
    close(fd); return k == s.size();
}
inline string esc(const string& s, size_t lim = 400) {
    string r; char b[8];
    for (size_t i = 0; i < s.size() && i < lim; ++i) { unsigned char c = s[i]; if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t"; else if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\"; else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += (char)c; }
    if (s.size() > lim) r += "...(" + std::to_string(s.size()) + " bytes)";
    return "\"" + r + "\"";
}
template <class V> string show(const V& v, size_t lim = 40) { string r = "["; size_t i = 0; for (auto& x : v) { if (i++ >= lim) { r += ",..."; break; } if (i > 1) r += ","; r += std::to_string(x); } return r + "]"; }

// ---- enumeration: all sequences over an alphabet of size a with length lo..hi
struct SeqEnum {
    size_t a, lo, hi;
    size_t count() const { size_t t = 0, p = 1; for (size_t l = 0; l <= hi; ++l) { if (l >= lo) t += p; p *= a; } return t; }
    std::vector<int> get(size_t i) const {
        size_t p = 1; for (size_t l = 0; l < lo; ++l) p *= a;
        size_t l = lo; while (i >= p) { i -= p; p *= a; ++l; }
        std::vector<int> v(l); for (size_t k = 0; k < l; ++k) { v[l - 1 - k] = i % a; i /= a; } return v;
    }
};

// ---- configurations
inline void cfg_full(std::vector<Config>& o, std::initializer_list<int> ts) {
    for (int t : ts) { Config c; c.T = t; c.mode = omc::FULL; c.bound = 0; c.pattern = (t & 1) ? 0xA5 : 0x5A; c.realchunk = false; o.push_back(c); }
}
inline void cfg_bound(std::vector<Config>& o, std::initializer_list<int> ts, int k) {
    for (int t : ts) { Config c; c.T = t; c.mode = omc::BOUND; c.bound = k; c.pattern = 0xA5; c.realchunk = false; o.push_back(c); }
}
inline void cfg_policy(std::vector<Config>& o, std::initializer_list<int> ts, bool realchunk = true) {
    for (int t : ts) { Config c; c.T = t; c.mode = omc::POLICY; c.bound = 0; c.pattern = 0xA5; c.realchunk = realchunk; o.push_back(c); }
}

// ---- raw data of the three storage kinds, through the public accessors
template <class T> const T* raw(T* p) { return p; }
template <class T> const T* raw(const std::vector<T>& v) { return v.data(); }
template <class T> const T* raw(const std::shared_ptr<T>& v) { return v.get(); }
// a vector holds exactly the entries (free() leaves it alone, so not when there are none)
template <class S> void vsize(const S&, size_t, const char*) {}
template <class T> void vsize(const std::vector<T>& v, size_t m, const char* what) { if (m && v.size() != m) omc::fail(std::string(what) + ": the vector has " + std::to_string(v.size()) + " elements instead of " + std::to_string(m)); }

template <class T> std::vector<T> vec(const T* p, size_t n) { return std::vector<T>(p, p + n); }

struct Entry { ll x, y; double w; bool operator==(const Entry& o) const { return x == o.x && y == o.y && (w == o.w); } bool operator<(const Entry& o) const { return x != o.x ? x < o.x : y != o.y ? y < o.y : w < o.w; } };
inline string show(const std::vector<Entry>& e) { string r; size_t i = 0; char b[96]; for (auto& k : e) { if (++i > 24) { r += " ..."; break; } snprintf(b, sizeof b, "(%lld,%lld,%.9g) ", k.x, k.y, k.w); r += b; } return r; }

// reads every stored entry (as the user would, monitored), then compares in quiet mode
template <class C, class L, class W, bool wgt> struct CooView {
    static std::vector<Entry> get(C& c) {
        size_t m = (size_t)c.m();
        vsize(c.x(), (size_t)c.m(), "x"); vsize(c.y(), (size_t)c.m(), "y"); if (wgt) vsize(c.w(), (size_t)c.m(), "weights");
        const L* x = raw(c.x()); const L* y = raw(c.y()); const W* w = wgt ? raw(c.w()) : nullptr;
        std::vector<Entry> e; { omc::Quiet q; e.reserve(m < (1u << 24) ? m : 0); }
        for (size_t i = 0; i < m; ++i) {
            L a = x[i], b = y[i]; double d = wgt ? (double)w[i] : 0;
            omc::Quiet q; Entry k; k.x = (ll)a; k.y = (ll)b; k.w = d; e.push_back(k);
        }
        return e;
    }
};

#define OMC_ADD(...) static int OMC_CAT(reg_, __COUNTER__) = (omc::omc_add(new __VA_ARGS__), 0);
#define OMC_CAT(a, b) OMC_CAT2(a, b)
#define OMC_CAT2(a, b) a##b
} // namespace h
#endif
