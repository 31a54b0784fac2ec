// Reference encoders of the binary formats.
#ifndef HARNESS_BIN_H
#define HARNESS_BIN_H
#include "el.h"
namespace h {
template <class T> void app(string& s, T v) { s.append((const char*)&v, sizeof v); }
template <class L, class O, class W> string coo_bin(const std::vector<Entry>& e, Dims d, bool wgt) {
    string s = "PIGO-COO-v1"; app<uint8_t>(s, sizeof(L)); app<uint8_t>(s, sizeof(O));
    app<L>(s, (L)d.nrows); app<L>(s, (L)d.ncols); app<L>(s, (L)d.n); app<O>(s, (O)e.size());
    for (auto& k : e) app<L>(s, (L)k.x);
    for (auto& k : e) app<L>(s, (L)k.y);
    if (wgt) for (auto& k : e) app<W>(s, (W)k.w);
    return s;
}
// entries are in row order
template <class L, class O, class W> string csr_bin(const std::vector<Entry>& e, Dims d, bool wgt) {
    string s = "PIGO-CSR-v2"; app<uint8_t>(s, sizeof(L)); app<uint8_t>(s, sizeof(O));
    app<L>(s, (L)d.n); app<O>(s, (O)e.size()); app<L>(s, (L)d.nrows); app<L>(s, (L)d.ncols);
    size_t k = 0; for (ll v = 0; v <= d.n; ++v) { while (k < e.size() && e[k].x < v) ++k; app<O>(s, (O)k); }
    for (auto& q : e) app<L>(s, (L)q.y);
    if (wgt) for (auto& q : e) app<W>(s, (W)q.w);
    return s;
}
inline std::vector<Entry> by_row(std::vector<Entry> e) { std::stable_sort(e.begin(), e.end(), [](const Entry& a, const Entry& b) { return a.x < b.x; }); return e; }
inline std::vector<Entry> swapped(std::vector<Entry> e) { for (auto& k : e) std::swap(k.x, k.y); return e; }
template <class L, class O, class W> string digraph_bin(const std::vector<Entry>& e, Dims d, bool wgt) {
    return "PIGO-DiGraph-v1" + csr_bin<L, O, W>(by_row(swapped(e)), d, wgt) + csr_bin<L, O, W>(by_row(e), d, wgt);
}
struct TEntry { std::vector<ll> c; double w; };
template <class L, class O, class W> string tensor_bin(const std::vector<TEntry>& e, size_t order, bool wgt) {
    string s = "PIGO-Tensor-2"; app<uint8_t>(s, sizeof(L)); app<uint8_t>(s, sizeof(O)); if (wgt) app<uint8_t>(s, sizeof(W));
    app<O>(s, (O)order); app<O>(s, (O)e.size());
    for (auto& k : e) for (ll v : k.c) app<L>(s, (L)v);
    if (wgt) for (auto& k : e) app<W>(s, (W)k.w);
    return s;
}
}
#endif
