// C09 sorting and de-duplicating a CSR
#include "mat.h"
#include "types.h"
namespace {
using namespace h;
enum Kind { ROWS, PAIRS, LONG, MANY, EMPTY, WIDE, SIZES, ALMOST };
inline bool by_row_col(const Entry& a, const Entry& b) { return a.x != b.x ? a.x < b.x : a.y != b.y ? a.y < b.y : a.w < b.w; }
struct Shape {
    SeqEnum en{0, 0, 0};
    ull ob, lb = 0;
    size_t count(int kind, bool wgt, bool small) {
        bool t = omc::thorough();
        switch (kind) {
            case ROWS: en = wgt ? SeqEnum{8, 1, t ? 4u : 3u} : SeqEnum{9, 1, t ? 4u : 3u}; return en.count(); // rows x columns (x weights)
            case PAIRS: en = wgt ? SeqEnum{6, 4, t ? 6u : 5u} : SeqEnum{3, 4, t ? 8u : 7u}; return en.count();  // one busy row between two empty ones
            case LONG: return t ? 160 : 40;
            case MANY: return small ? 0 : t ? 10 : 4;
            case EMPTY: return 24;
            case SIZES: return many_count(ob, lb);
            case ALMOST: return 13 * (t ? 11 : 8);
            default: return t ? 60 : 20;
        }
    }
    void build(int kind, bool wgt, size_t i, std::vector<Entry>& e, Dims& d, ll top) {
        e.clear();
        auto add = [&](ll x, ll y, double w) { e.push_back(Entry{x, y, wgt ? w : 0}); };
        switch (kind) {
            case ROWS: for (int v : en.get(i)) { if (wgt) add(v / 4, (v / 2) % 2, v % 2 ? 2 : 1); else add(v / 3, v % 3, 0); } d = Dims{3, 3, 3}; if (i % 2) d = Dims{4, 3, 4}; break;
            case PAIRS: for (int v : en.get(i)) { if (wgt) add(1, v / 2, v % 2 ? 2 : 1); else add(1, v, 0); } d = Dims{3, 3, 3}; break;
            case LONG: { int n = 1 + (i * 7) % 9; d = Dims{n, n, n}; // rows beyond the small-array cutoff of std::sort
                for (int x = 0; x < n; ++x) { int len = (i * 13 + x * 29) % 60; for (int k = 0; k < len; ++k) { int y = i % 3 == 0 ? (k * 7 + x) % 40 : i % 3 == 1 ? (len - k) / 2 : (k * k + x) % 11; add(x, y % 120, ((k * 5 + i) % 4) + 1); } } d.ncols = 120; if (d.n < 120) d.n = 120; break; }
            case MANY: { ll n = i == 0 ? 10240 : i == 1 ? 10241 : 20480 + 777 * (ll)i; d = Dims{n, n, n}; for (ll x = 0; x < n; ++x) { int len = (x * 7 + i) % 5; if (x % 10240 == 0 || x % 10240 == 10239) len = 4; for (int k = 0; k < len; ++k) { ll y = (x * 31 + (len - k) / 2 * 17) % n; add(x, y, (k * 3 + x) % 4 + 1); } } break; }
            case ALMOST: { // rows that are in order but for few entries, in lengths around those at which sorting may change its method
                static const int lens[] = {7, 8, 16, 17, 32, 33, 64, 65, 100, 128, 129}; int len = std::min<ll>(lens[i / 13], std::min<ull>(ob, lb - 1) - 3); d = Dims{3, 3, len + 1};
                std::vector<int> ys; for (int k = 0; k < len; ++k) ys.push_back(k);
                switch (i % 13) {
                    case 0: std::rotate(ys.begin(), ys.end() - 1, ys.end()); break;             // largest first
                    case 1: std::rotate(ys.begin(), ys.begin() + 1, ys.end()); break;           // smallest last
                    case 2: std::swap(ys[0], ys[len - 1]); break;
                    case 3: std::swap(ys[len / 2], ys[len / 2 - 1]); break;
                    case 4: std::reverse(ys.begin(), ys.end()); break;
                    case 5: std::rotate(ys.begin(), ys.begin() + len / 2, ys.end()); break;
                    case 6: break;                                                              // in order
                    case 7: for (int& y : ys) y = 1; break;                                     // all equal
                    case 8: for (int& y : ys) y = 1; ys[len - 1] = 0; break;
                    case 9: for (int& y : ys) y /= 2; break;                                    // in order, each twice
                    case 10: for (int& y : ys) y /= 2; ys[len - 1] = 0; break;
                    case 11: for (int k = 0; k < len; ++k) ys[k] = k < len / 2 ? 2 * k : 2 * (len - k) - 1; break; // up and down
                    default: for (int k = 0; k < len; ++k) ys[k] = k % 2 ? len - k : k; break;
                }
                for (int k = 0; k < len; ++k) add(1, ys[k], i % 13 == 9 || i % 13 == 7 ? (k == len - 1 ? 1 : 1 + k % 3 + 1) : 1 + k % 3);
                add(0, 1, 1); add(2, 0, 1); if (d.n > d.ncols) d.ncols = d.n; if (d.ncols > d.n) d.n = d.ncols; break; }
            case SIZES: many_case(i, ob, e, d, lb, lb); if (!wgt) zero_w(e); break;
            case EMPTY: d = Dims{(ll)i % 6, (ll)i % 4, (ll)i % 5}; break;
            default: { ll n = 3 + i % 5; d = Dims{n, n, top}; for (ll x = 0; x < n; ++x) for (int k = 0; k < (int)(i + x) % 4 + 1; ++k) add(x, k % 2 ? top - 1 - (k + i) % 3 : (x + i) % 3, 1 + (k + i) % 3); d.n = n; break; } // the largest labels of the type
        }
        if (e.size() > ob) e.resize(ob);
        std::stable_sort(e.begin(), e.end(), [](const Entry& a, const Entry& b) { return a.x < b.x; });
    }
};
template <class L> ll top_label() { return std::min<ull>(cap<L>(), 1000000000000ULL); }
inline void confs(int kind, size_t m, std::vector<Config>& o) {
    if (kind == MANY) { cfg_policy(o, {1, 2, 3, 4}); return; }
    if (kind == SIZES) { if (m > 9999) cfg_policy(o, {1, 4}); else cfg_policy(o, {1, 2, 3, 8}); return; }
    if (kind == LONG || kind == ALMOST) { cfg_policy(o, {1, 2, 3, 4, 7, 16}, false); return; }
    cfg_full(o, {1, 2}); if (m <= (omc::thorough() ? 4u : 2u) || (kind == PAIRS && omc::thorough() && m <= 4)) cfg_full(o, {3}); else cfg_policy(o, {3}, false); if (m <= (omc::thorough() ? 3u : 1u)) cfg_full(o, {4}); else cfg_policy(o, {4, 8}, false);
}
static const char* kn[] = {"rows", "pairs", "long", "many", "empty", "wide", "sizes", "almost"};

template <class L, class O, int S, class W, bool wgt> struct Sort : omc::Suite {
    typedef pigo::CSR<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> C;
    int kind; char nm[80]; Shape sh; std::vector<Entry> e, want; Dims d;
    Sort(int k) : Suite(nm), kind(k) { sh.ob = cap<O>(); sh.lb = cap<L>(); snprintf(nm, sizeof nm, "sort_%s_%s%s%s_%s", kn[k], tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    size_t count() override { return sh.count(kind, wgt, sizeof(L) < 2 || sizeof(O) < 4); }
    void prepare(size_t i) override { sh.build(kind, wgt, i, e, d, top_label<L>()); if (wgt) vary_w<W, W>(e); want = e; std::sort(want.begin(), want.end(), by_row_col); }
    string describe() override { return string(nm) + " n=" + std::to_string(d.n) + " entries " + show(e); }
    void configs(std::vector<Config>& o) override { confs(kind, e.size(), o); }
    void body() override {
        C* c = make_csr<C, wgt>(e, d);
        c->sort();
        check_csr<C, wgt>(*c, want, d, "sorted CSR", true);
        c->sort();
        check_csr<C, wgt>(*c, want, d, "twice sorted CSR", true);
        c->free(); delete c;
    }
};
template <class L, class O, int S, class W, bool wgt, class L2, class O2, int S2, class W2> struct Dedup : omc::Suite {
    typedef pigo::CSR<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> C;
    typedef pigo::CSR<L2, O2, typename St<L2, S2>::t, typename St<O2, S2>::t, wgt, W2, typename St<W2, S2>::t> N;
    int kind; char nm[80]; Shape sh; std::vector<Entry> e, sorted, want; Dims d;
    Dedup(int k) : Suite(nm), kind(k) { sh.ob = std::min(cap<O>(), cap<O2>()); sh.lb = std::min(cap<L>(), cap<L2>()); snprintf(nm, sizeof nm, "dedup_%s_%s%s%s_%s_%s%s%s_%s", kn[k], tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : "", tname<L2>(), tname<O2>(), sname(S2), wgt ? tname<W2>() : ""); }
    size_t count() override { return sh.count(kind, wgt, sizeof(L) < 2 || sizeof(O) < 4 || sizeof(L2) < 2 || sizeof(O2) < 4); }
    void prepare(size_t i) override {
        sh.build(kind, wgt, i, e, d, std::min(top_label<L>(), top_label<L2>())); if (wgt) vary_w<W, W2>(e); sorted = e; std::sort(sorted.begin(), sorted.end(), by_row_col);
        want.clear(); for (auto& k : sorted) if (want.empty() || want.back().x != k.x || want.back().y != k.y) want.push_back(k);
    }
    string describe() override { return string(nm) + " n=" + std::to_string(d.n) + " entries " + show(e); }
    void configs(std::vector<Config>& o) override { confs(kind, e.size(), o); }
    void body() override {
        C* c = make_csr<C, wgt>(e, d);
        {
            N r = c->template new_csr_without_dups<L2, O2, typename St<L2, S2>::t, typename St<O2, S2>::t, wgt, W2, typename St<W2, S2>::t>();
            check_csr<C, wgt>(*c, sorted, d, "source CSR after de-duplication", true);
            check_csr<N, wgt>(r, want, d, "de-duplicated CSR", true);
            c->free();
            check_csr<N, wgt>(r, want, d, "de-duplicated CSR after its source is freed", true);
            r.free();
        }
        delete c;
    }
};
#define ALLK(...) OMC_ADD(__VA_ARGS__(ROWS)); OMC_ADD(__VA_ARGS__(PAIRS)); OMC_ADD(__VA_ARGS__(LONG)); OMC_ADD(__VA_ARGS__(MANY)); OMC_ADD(__VA_ARGS__(EMPTY)); OMC_ADD(__VA_ARGS__(WIDE)); OMC_ADD(__VA_ARGS__(SIZES)); OMC_ADD(__VA_ARGS__(ALMOST));
}
