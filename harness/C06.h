// C06 building a CSR from a COO keeps every entry and weight in any schedule
#include "mat.h"
namespace {
using namespace h;
template <class T> const char* tn();
#define TN(T, N) template <> const char* tn<T>() { return N; }
TN(uint16_t, "u16") TN(uint32_t, "u32") TN(uint64_t, "u64") TN(uint8_t, "u8") TN(int, "i32") TN(float, "f32") TN(double, "f64") TN(int64_t, "i64") TN(int16_t, "i16") TN(int8_t, "i8")
enum { PTR, VEC, SP };
template <class T, int K> struct St { typedef T* t; };
template <class T> struct St<T, VEC> { typedef std::vector<T> t; };
template <class T> struct St<T, SP> { typedef std::shared_ptr<T> t; };
// COO label/ordinal/weight types and storage -> CSR types and storage
template <class L1, class O1, int S1, class W1, class L2, class O2, int S2, class W2, bool wgt, bool fl = false> struct Conv : omc::Suite {
    typedef pigo::COO<L1, O1, typename St<L1, S1>::t, fl, fl, fl, wgt, W1, typename St<W1, S1>::t> A;
    typedef pigo::CSR<L2, O2, typename St<L2, S2>::t, typename St<O2, S2>::t, wgt, W2, typename St<W2, S2>::t> B;
    static constexpr ull OB = cap<O1>() < cap<O2>() ? cap<O1>() : cap<O2>();
    static constexpr ull LC = cap<L1>() < cap<L2>() ? cap<L1>() : cap<L2>();
    int kind; char nm[64]; std::vector<Entry> e; Dims d; SeqEnum en{0, 0, 0};
    Conv(int k) : Suite(nm), kind(k) { static const char* kn[] = {"three", "two", "one", "large", "empty", "many"}; snprintf(nm, sizeof nm, "%s_%s%s%d_%s%s%d%s%s%s", kn[k], tn<L1>(), tn<O1>(), S1, tn<L2>(), tn<O2>(), S2, wgt ? "_" : "", wgt ? tn<W1>() : "", wgt ? tn<W2>() : ""); }
    size_t count() override {
        bool t = omc::thorough();
        switch (kind) { case 0: en = SeqEnum{9, 1, t ? 4u : 3u}; break; case 1: en = SeqEnum{4, 4, t ? 5u : 4u}; break; case 2: en = SeqEnum{2, 2, t ? 6u : 5u}; break; case 3: return t ? 240 : 60; case 5: return many_count(OB, LC); default: return 24; }
        return en.count();
    }
    void prepare(size_t i) override {
        e.clear();
        switch (kind) {
            case 0: e = entries_of(en.get(i), 3); d = ref_dims(e); break;
            case 1: e = entries_of(en.get(i), 2); d = Dims{3, 3, 2}; break;
            case 2: { auto v = en.get(i); for (size_t k = 0; k < v.size(); ++k) e.push_back(Entry{1, v[k], wval(k)}); d = Dims{4, 2, 4}; break; } // all in one row
            case 3: { int m = 1 + (i * 37) % 90, n = 1 + (i * 11) % 23; for (int k = 0; k < m; ++k) { int x = (k * k * 7 + i * k + 3) % n, y = (k * 5 + i) % n; if (i % 4 == 1) x = n / 2; if (i % 4 == 2) x = k % 2 ? n - 1 : 0; e.push_back(Entry{x, y, wval(k)}); } d = Dims{n, n, n}; if (i % 3 == 0) d.n = n + (int)(i % 7); break; }
            case 5: many_case(i, OB, e, d, LC, LC); break;
            default: d = Dims{(ll)i % 6, (ll)i % 4, (ll)i % 5}; d.n = std::max(d.n, std::max(d.nrows, d.ncols)); break;
        }
        if (!wgt) zero_w(e); else vary_w<W1, W2>(e);
    }
    string describe() override { return string(nm) + " n=" + std::to_string(d.n) + " entries " + show(e); }
    void configs(std::vector<Config>& o) override {
        if (kind == 5) { if (e.size() > 9999 || d.n > 9999) cfg_policy(o, {1, 4}); else cfg_policy(o, {1, 2, 3, 8}); return; }
        if (kind == 3) { cfg_policy(o, {1, 2, 3, 4, 7, 8, 16}); return; }
        if (kind == 2) { if (e.size() <= 3) cfg_full(o, {2, 3, 4}); else if (e.size() == 4) cfg_full(o, {2, 3}); else cfg_full(o, {2}); return; }
        cfg_full(o, {1, 2}); if (e.size() <= (omc::thorough() ? 4u : 3u)) cfg_full(o, {3}); if (e.size() <= (omc::thorough() ? 3u : 2u)) cfg_full(o, {4});
    }
    void body() override {
        A* a = make_coo<A, wgt>(e, d);
        B* b = nullptr;
        try { b = new B(*a); } catch (std::exception& x) { omc::fail(string("conversion failed: ") + x.what()); }
        check_csr<B, wgt>(*b, e, d, "CSR");
        check_coo<A, L1, W1, wgt>(*a, e, d, "source COO after the conversion");
        a->free(); delete a; b->free(); delete b;
    }
};
#define CV(...) OMC_ADD(Conv<__VA_ARGS__>(0)); OMC_ADD(Conv<__VA_ARGS__>(1)); OMC_ADD(Conv<__VA_ARGS__>(2)); OMC_ADD(Conv<__VA_ARGS__>(3)); OMC_ADD(Conv<__VA_ARGS__>(4)); OMC_ADD(Conv<__VA_ARGS__>(5));
}
