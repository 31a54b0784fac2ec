// C21 copies are independent and equal, transposing swaps rows and columns: all operation sequences up to a depth
#include "mat.h"
#include "types.h"
#include "bin.h"
#include <new>
namespace {
using namespace h;
enum Op { AB, BA, AC, CA, AA, COPYA, COPYB, TA, TB, MA, MB, MC, FA, FB, NOPS };
const char* ON[] = {"A=B", "B=A", "A=C", "C=A", "A=A", "C(A)", "C(B)", "A.transpose", "B.transpose", "modify A", "modify B", "modify C", "A.free", "B.free"};

struct CooM { std::vector<Entry> e; Dims d; };
template <class L, class O, int S, class W, bool wgt, bool sym = false> struct Coos : omc::Suite {
    typedef pigo::COO<L, O, typename St<L, S>::t, sym, false, false, wgt, W, typename St<W, S>::t> A;
    char nm[60]; int kind; SeqEnum en{0, 0, 0}; std::vector<int> seq; size_t ma, mb; std::vector<Entry> ea, eb; Dims da, db; double val; 
    Coos(int k) : Suite(nm), kind(k), ma(0), mb(0), val(0) { snprintf(nm, sizeof nm, "%s_coo_%s%s%s%s%s", k == 0 ? "ops" : k == 1 ? "deep" : "large", tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : "", sym ? "S" : ""); }
    size_t count() override { if (kind == 2) return omc::thorough() ? 160 : 40; en = kind == 0 ? SeqEnum{NOPS, 0, omc::thorough() ? 3u : 2u} : SeqEnum{NOPS, 3, omc::thorough() ? 5u : 3u}; return en.count() * (kind == 0 ? 9 : 2); }
    static std::vector<Entry> mk(size_t m, int v) { std::vector<Entry> e; for (size_t k = 0; k < m; ++k) e.push_back(Entry{(ll)((k * 7 + v) % 200), (ll)((k * k + 3 * v) % 120), wgt ? (double)((k * 3 + v) % 100 + 1) : 0}); if (cap<L>() < 200) for (auto& k : e) { k.x %= 120; k.y %= 119; } return e; }
    void prepare(size_t i) override {
        seq.clear(); static const size_t sz[] = {0, 1, 3};
        if (kind == 2) { ma = (i * 37) % 251 + 1; mb = (i * 91) % 120; static const int s[][5] = {{COPYA, TA, CA, MA, AC}, {AB, BA, TB, AB, MC}, {TA, COPYA, FA, AC, TA}, {BA, MB, AB, COPYB, FB}}; seq.assign(s[i % 4], s[i % 4] + 5); if (cap<O>() > 999 && i % 5 == 2) ma = 300 + i; if (cap<O>() > 99999 && i % 5 == 4) ma = i % 3 ? 5000 + i : 66000 + i; if (ma > cap<O>()) ma = cap<O>(); }
        else if (kind == 0) { ma = sz[i % 3]; mb = sz[i / 3 % 3]; seq = en.get(i / 9); }
        else { ma = i % 2 ? 2 : 1; mb = i % 2 ? 1 : 3; seq = en.get(i / 2); }
        ea = mk(ma, 1); eb = mk(mb, 2); da = Dims{250, 201, 123}; db = Dims{201, 200, 200}; if (cap<L>() < 250) { da = Dims{126, 121, 120}; db = Dims{125, 121, 122}; }
    }
    string describe() override { string s = string(nm) + " |A|=" + std::to_string(ma) + " |B|=" + std::to_string(mb) + ":"; for (int o : seq) s += string(" ") + ON[o]; return s; }
    void configs(std::vector<Config>& o) override { if (kind == 0) cfg_full(o, {1, 2, 3}); else if (kind == 1) cfg_policy(o, {2, 3}); else cfg_policy(o, {1, 2, 3, 4, 7, 16}); }
    void mod(A& a, CooM& m) { // changes every stored value
        val = val + 1;
        for (size_t k = 0; k < m.e.size(); ++k) { Entry n = m.e[k]; n.x = (n.x + (ll)val) % (cap<L>() < 201 ? 120 : 201); n.y = (n.y * 3 + 1) % 99; if (wgt) n.w = (double)(((int)n.w * 5 + (int)val) % 101); put(a.x(), k, n.x); put(a.y(), k, n.y); PutW<wgt>::go(a, k, n.w); m.e[k] = n; }
        ll big = cap<L>() < 250 ? 125 : 250; m.d.n = m.d.n == big ? big - 1 : big; m.d.nrows = cap<L>() < 250 ? 124 : 202; m.d.ncols = 99; a.set_n((L)m.d.n); a.set_nrows((L)m.d.nrows); a.set_ncols(99);
    }
    void body() override {
        val = 1;
        A* a = make_coo<A, wgt>(ea, da); A* b = make_coo<A, wgt>(eb, db); A* c = new A(); CooM x, y, z;
        { omc::Quiet q; x.e = ea; x.d = da; y.e = eb; y.d = db; z.d = Dims{0, 0, 0}; }
        // assigning to a list that holds an array keeps nothing of the old one
        for (size_t k = 0; k <= seq.size(); ++k) {
            if (k) switch (seq[k - 1]) {
                case AB: *a = *b; { omc::Quiet q; x = y; } break; case BA: *b = *a; { omc::Quiet q; y = x; } break;
                case AC: *a = *c; { omc::Quiet q; x = z; } break; case CA: *c = *a; { omc::Quiet q; z = x; } break;
                case AA: { A& r = *a; *a = r; break; }
                case COPYA: c->free(); delete c; c = new A(*a); { omc::Quiet q; z = x; } break;
                case COPYB: c->free(); delete c; { const A& r = *b; c = new A(r); } { omc::Quiet q; z = y; } break;
                case TA: if (&a->transpose() != a) omc::fail("transpose does not return the object"); { omc::Quiet q; x.e = swapped(x.e); } std::swap(x.d.nrows, x.d.ncols); break;
                case TB: b->transpose(); { omc::Quiet q; y.e = swapped(y.e); } std::swap(y.d.nrows, y.d.ncols); break;
                case MA: mod(*a, x); break; case MB: mod(*b, y); break; case MC: mod(*c, z); break;
                case FA: a->free(); { omc::Quiet q; x.e.clear(); } break; case FB: b->free(); { omc::Quiet q; y.e.clear(); } break;
            }
            check_coo<A, L, W, wgt>(*a, x.e, x.d, "A"); check_coo<A, L, W, wgt>(*b, y.e, y.d, "B"); check_coo<A, L, W, wgt>(*c, z.e, z.d, "C");
            omc::omc_step((uint64_t)(x.e.size() * 7 + y.e.size() * 31 + z.e.size() * 101 + (k ? seq[k - 1] : 99) * 1009));
        }
        a->free(); b->free(); c->free(); delete a; delete b; delete c;
        omc::Quiet q; x.e = std::vector<Entry>(); y.e = std::vector<Entry>(); z.e = std::vector<Entry>();
    }
};

struct TenM { std::vector<TEntry> e; size_t order; };
template <class L, class O, int S, class W, bool wgt> struct Tens : omc::Suite {
    typedef pigo::Tensor<L, O, typename St<L, S>::t, W, typename St<W, S>::t, wgt> T;
    char nm[60]; int kind; SeqEnum en{0, 0, 0}; std::vector<int> seq; TenM ia, ib; int val;
    Tens(int k) : Suite(nm), kind(k), val(0) { snprintf(nm, sizeof nm, "%s_tensor_%s%s%s%s", k == 0 ? "ops" : k == 1 ? "deep" : "large", tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    size_t count() override { if (kind == 2) return omc::thorough() ? 160 : 40; en = kind == 0 ? SeqEnum{NOPS, 0, omc::thorough() ? 3u : 2u} : SeqEnum{NOPS, 3, omc::thorough() ? 5u : 3u}; return en.count() * (kind == 0 ? 9 : 2); }
    static TenM mk(size_t m, size_t order, int v) { TenM t; t.order = order; for (size_t k = 0; k < m; ++k) { TEntry e; for (size_t o = 0; o < order; ++o) e.c.push_back((k * 7 + o * 13 + v) % (cap<L>() < 250 ? 125 : 250)); e.w = wgt ? (double)((k + v) % 100 + 1) : 0; t.e.push_back(e); } return t; }
    void prepare(size_t i) override {
        seq.clear(); static const size_t sz[] = {0, 1, 3};
        if (kind == 2) { ia = mk(std::min<ull>(cap<O>(), (i * 37) % 251 + 1 + (cap<O>() > 999 && i % 3 == 1 ? 400 : 0) + (cap<O>() > 65535 && i % 10 == 3 ? 15000 : 0)), i % 5 + 1, 1); ib = mk((i * 91) % 120, 3, 2); static const int s[][5] = {{COPYA, CA, MA, AC, MC}, {AB, BA, AB, MC, FA}, {COPYA, FA, AC, MA, CA}, {BA, MB, AB, COPYB, FB}}; seq.assign(s[i % 4], s[i % 4] + 5); }
        else if (kind == 0) { ia = mk(sz[i % 3], 2, 1); ib = mk(sz[i / 3 % 3], 3, 2); seq = en.get(i / 9); }
        else { ia = mk(i % 2 ? 2 : 1, 3, 1); ib = mk(i % 2 ? 1 : 3, 1, 2); seq = en.get(i / 2); }
        for (int& o : seq) if (o == TA || o == TB) o = AA;
    }
    string describe() override { string s = string(nm) + " |A|=" + std::to_string(ia.e.size()) + " |B|=" + std::to_string(ib.e.size()) + ":"; for (int o : seq) s += string(" ") + ON[o]; return s; }
    void configs(std::vector<Config>& o) override { if (kind == 0) cfg_full(o, {1, 2, 3}); else if (kind == 1) cfg_policy(o, {2, 3}); else cfg_policy(o, {1, 2, 3, 4, 7, 16}); }
    T* make(const TenM& m) { T* t = new T((O)m.order, (O)m.e.size()); for (size_t k = 0; k < m.e.size(); ++k) { for (size_t o = 0; o < m.order; ++o) put(t->c(), k * m.order + o, m.e[k].c[o]); PutW<wgt>::go(*t, k, m.e[k].w); } return t; }
    void mod(T& t, TenM& m) { ++val; for (size_t k = 0; k < m.e.size(); ++k) { for (size_t o = 0; o < m.order; ++o) { ll n = (m.e[k].c[o] * 3 + val) % (cap<L>() < 251 ? 126 : 251); m.e[k].c[o] = n; put(t.c(), k * m.order + o, n); } if (wgt) { m.e[k].w = (double)(((int)m.e[k].w * 5 + val) % 101); PutW<wgt>::go(t, k, m.e[k].w); } } }
    void expect(T& t, const TenM& m, const char* what) {
        if ((size_t)t.m() != m.e.size() || (size_t)t.order() != m.order) omc::fail(string(what) + ": m, order are " + std::to_string(t.m()) + ", " + std::to_string(t.order()) + " instead of " + std::to_string(m.e.size()) + ", " + std::to_string(m.order));
        vsize(t.c(), m.e.size() * m.order, what); if (wgt) vsize(t.w(), m.e.size(), what);
        auto p = raw(t.c());
        for (size_t k = 0; k < m.e.size(); ++k) { for (size_t o = 0; o < m.order; ++o) if ((ll)p[k * m.order + o] != m.e[k].c[o]) omc::fail(string(what) + ": coordinate " + std::to_string(o) + " of entry " + std::to_string(k) + " is " + std::to_string(p[k * m.order + o]) + " instead of " + std::to_string(m.e[k].c[o]));
            if (getw(t.w(), k, std::integral_constant<bool, wgt>()) != m.e[k].w) omc::fail(string(what) + ": weight " + std::to_string(k) + " differs"); omc::outcome(m.e[k].w); }
        omc::outcome(m.e.size());
    }
    void body() override {
        val = 1; T* a = make(ia); T* b = make(ib); T* c = new T(); TenM x, y, z; { omc::Quiet q; x = ia; y = ib; z.order = 0; }
        for (size_t k = 0; k <= seq.size(); ++k) {
            if (k) switch (seq[k - 1]) {
                case AB: *a = *b; { omc::Quiet q; x = y; } break; case BA: *b = *a; { omc::Quiet q; y = x; } break;
                case AC: *a = *c; { omc::Quiet q; x = z; } break; case CA: *c = *a; { omc::Quiet q; z = x; } break;
                case AA: { T& r = *a; *a = r; break; }
                case COPYA: c->free(); delete c; c = new T(*a); { omc::Quiet q; z = x; } break;
                case COPYB: c->free(); delete c; { const T& r = *b; c = new T(r); } { omc::Quiet q; z = y; } break;
                case MA: mod(*a, x); break; case MB: mod(*b, y); break; case MC: mod(*c, z); break;
                case FA: a->free(); { omc::Quiet q; x.e.clear(); x.order = 0; } break; case FB: b->free(); { omc::Quiet q; y.e.clear(); y.order = 0; } break;
            }
            expect(*a, x, "A"); expect(*b, y, "B"); expect(*c, z, "C");
            omc::omc_step((uint64_t)(x.e.size() * 7 + y.e.size() * 31 + z.e.size() * 101 + (k ? seq[k - 1] : 99) * 1009 + x.order * 31337));
        }
        a->free(); b->free(); c->free(); delete a; delete b; delete c;
        omc::Quiet q; x.e = std::vector<TEntry>(); y.e = std::vector<TEntry>(); z.e = std::vector<TEntry>();
    }
};
#define ALLK(...) OMC_ADD(__VA_ARGS__(0)); OMC_ADD(__VA_ARGS__(1)); OMC_ADD(__VA_ARGS__(2));
}
