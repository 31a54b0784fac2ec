// Reference reader for edge-list text and helpers to compare a COO with it.
#ifndef HARNESS_EL_H
#define HARNESS_EL_H
#include "common.h"
namespace h {
inline bool blank(char c) { return c == ' ' || c == '\t' || c == '\r'; }
// One line split at blanks; comments (whole lines) give no tokens.
inline std::vector<string> tokens(const string& line) {
    std::vector<string> t; size_t i = 0;
    while (i < line.size() && blank(line[i])) ++i;
    if (i < line.size() && (line[i] == '#' || line[i] == '%')) return t;
    while (i < line.size()) { size_t j = i; while (j < line.size() && !blank(line[j])) ++j; t.push_back(line.substr(i, j - i)); i = j; while (i < line.size() && blank(line[i])) ++i; }
    return t;
}
inline std::vector<string> lines_of(const string& s) {
    std::vector<string> r; string cur; for (char c : s) { if (c == '\n') { r.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) r.push_back(cur); return r;
}
// Edge list: false if some line is not an edge, blank or comment (outside of the property)
inline bool ref_el(const string& s, bool wgt, std::vector<Entry>& e) {
    e.clear();
    for (auto& l : lines_of(s)) {
        auto t = tokens(l); if (t.empty()) continue;
        if (t.size() < (wgt ? 3u : 2u)) return false;
        for (int k = 0; k < 2; ++k) for (char c : t[k]) if (c < '0' || c > '9') return false;
        Entry x; x.x = (ll)strtoull(t[0].c_str(), nullptr, 10); x.y = (ll)strtoull(t[1].c_str(), nullptr, 10); x.w = wgt ? strtod(t[2].c_str(), nullptr) : 0; e.push_back(x);
    }
    return true;
}
struct Dims { ll n, nrows, ncols; };
inline Dims ref_dims(const std::vector<Entry>& e) { Dims d{0, 0, 0}; for (auto& k : e) { d.nrows = std::max(d.nrows, k.x + 1); d.ncols = std::max(d.ncols, k.y + 1); } d.n = std::max(d.nrows, d.ncols); return d; }
// the effect of the flags on the entries of a file
inline std::vector<Entry> ref_flags(const std::vector<Entry>& in, bool sym, bool ut, bool sl) {
    std::vector<Entry> o;
    for (auto k : in) {
        if (sl && k.x == k.y) continue;
        if (!sym && ut && k.x > k.y) continue;
        if (sym && ut) { if (k.x > k.y) std::swap(k.x, k.y); o.push_back(k); continue; }
        o.push_back(k);
        if (sym && k.x != k.y) { std::swap(k.x, k.y); o.push_back(k); }
    }
    return o;
}
inline bool& emit_flag() { static bool b = true; return b; } // off: the order of the entries depends on the schedule
#define emit_entries emit_flag()
inline void out_entries(const std::vector<Entry>& e) { if (!emit_entries) return; for (auto& k : e) { omc::outcome(k.x); omc::outcome(k.y); omc::outcome(k.w); } omc::outcome(e.size()); }
inline void expect_entries(const std::vector<Entry>& got, const std::vector<Entry>& want, const char* what) {
    if (got.size() != want.size()) omc::fail(string(what) + ": " + std::to_string(got.size()) + " entries instead of " + std::to_string(want.size()) + ": got " + show(got) + "want " + show(want));
    for (size_t i = 0; i < got.size(); ++i) if (!(got[i] == want[i])) omc::fail(string(what) + ": entry " + std::to_string(i) + " differs: got " + show(got) + "want " + show(want));
}
inline void expect_dims(Dims g, Dims w, const char* what) {
    if (g.n != w.n || g.nrows != w.nrows || g.ncols != w.ncols)
        omc::fail(string(what) + ": n,nrows,ncols = " + std::to_string(g.n) + "," + std::to_string(g.nrows) + "," + std::to_string(g.ncols) + " instead of " + std::to_string(w.n) + "," + std::to_string(w.nrows) + "," + std::to_string(w.ncols));
}
template <class C> Dims dims_of(C& c) { Dims d; d.n = (ll)c.n(); d.nrows = (ll)c.nrows(); d.ncols = (ll)c.ncols(); return d; }
}
#endif
