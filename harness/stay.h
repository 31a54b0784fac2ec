// Histories of one object: operations that leave an object alone give the right result however often they are
// repeated and whatever was done to the object, its contents included, in between
#include "text.h"
#include "bin.h"
namespace {
using namespace h;
static string pth(const char* n) { omc::Quiet q; string s = path(n); return s; }
static void same_file(const string& p, const string& want, const char* what) { omc::Quiet q; string got; if (!get_file(p, got)) omc::fail(string(what) + ": no file"); if (got != want) omc::fail(string(what) + ": the file is wrong: " + esc(got, 160) + " instead of " + esc(want, 160)); string().swap(got); }
static ll big(Dims d) { return std::max(d.n, std::max(d.nrows, d.ncols)); }
template <class T> void clear_(std::vector<T>& v) { omc::Quiet q; std::vector<T>().swap(v); }
static unsigned depth(size_t ops, bool more) { bool t = omc::thorough(); return ops <= 4 ? (t ? 6 : 5) : ops <= 6 ? (t ? 5 : 4) : more ? (t ? 5 : 4) : t ? 4 : 3; }
static void conf(std::vector<Config>& o, size_t len) { if (len < 3) { cfg_policy(o, {1, 2, 3, 5}); } else cfg_policy(o, {1, 2, 4}); }
static void start(size_t i, std::vector<Entry>& e, Dims& d) {
    e.clear();
    switch (i) {
        case 0: e = {{1, 0, 3}, {0, 1, 2}, {1, 0, 1}, {2, 2, 7}}; d = Dims{3, 3, 3}; break;
        case 1: for (int k = 0; k < 23; ++k) e.push_back(Entry{(k * 5 + 2) % 7, (k * k + 3) % 9, wval(k)}); d = Dims{9, 7, 9}; break;
        case 2: e = {{4, 0, 3}}; d = Dims{5, 5, 1}; break;
        default: for (int k = 0; k < 40; ++k) e.push_back(Entry{k % 2 ? 99 : k / 4, (k * 37) % 100, wval(k)}); d = Dims{100, 100, 100}; break;
    }
}
static std::vector<Entry> dedup_of(std::vector<Entry> e) { std::sort(e.begin(), e.end()); std::vector<Entry> u; for (auto& k : e) if (u.empty() || u.back().x != k.x || u.back().y != k.y) u.push_back(k); return u; }

template <class L, class O, int S, class W, bool wgt> struct StayCoo : omc::Suite {
    typedef pigo::COO<L, O, typename St<L, S>::t, false, false, false, wgt, W, typename St<W, S>::t> Coo;
    typedef pigo::CSR<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> Csr;
    typedef pigo::DiGraph<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> Dig;
    typedef pigo::Matrix<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> Mat;
    enum { CHANGE, TRANSPOSE, WRITE, SAVE, COPY, TOCSR, TODIG, TOMAT, ASSIGN, BACK, RELOAD, NO };
    char nm[60]; std::vector<int> ops; SeqEnum en{0, 1, 3}; std::vector<int> seq; std::vector<Entry> e0, e1; Dims d0, d1; size_t init;
    StayCoo(std::initializer_list<int> l) : Suite(nm), ops(l) { if (ops.empty()) for (int k = 0; k < NO; ++k) ops.push_back(k); en.a = ops.size(); snprintf(nm, sizeof nm, "stay_coo_%s%s%s%s", tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    size_t count() override { en.hi = depth(ops.size(), false); return en.count() * (omc::thorough() ? 2 : 3); }
    void prepare(size_t i) override { size_t ni = omc::thorough() ? 2 : 3; init = i % ni; seq = en.get(i / ni); for (int& k : seq) k = ops[k]; start(init, e0, d0); start((init + 1) % 3, e1, d1); if (!wgt) { zero_w(e0); zero_w(e1); } }
    string describe() override { static const char* n[] = {"change entries", "transpose", "write", "save", "copy", "to CSR", "to DiGraph", "to Matrix", "assign another", "assign a copy back", "reload into"}; string s = string(nm) + " " + show(e0) + ":"; for (int o : seq) s += string(" ") + n[o] + ";"; return s; }
    void configs(std::vector<Config>& o) override { conf(o, seq.size()); }
    string text(const std::vector<Entry>& e) { string s; for (auto& k : e) { s += std::to_string(k.x) + " " + std::to_string(k.y); if (wgt) s += " " + w_text<W>((W)k.w); s += "\n"; } return s; }
    void body() override {
        emit_entries = false; Coo* c = make_coo<Coo, wgt>(e0, d0); std::vector<Entry> e, t; { omc::Quiet q; e = e0; } Dims d = d0; int step = 0; string p = pth("o.bin");
        for (int o : seq) {
            ++step; Dims dn = d; dn.n = big(d);
            switch (o) {
                case CHANGE: for (size_t k = 0; k < e.size(); ++k) { Entry& x = e[k]; x.x = (x.x + step) % d.nrows; x.y = d.ncols - 1 - x.y; if (wgt) x.w += step; put(c->x(), k, x.x); put(c->y(), k, x.y); PutW<wgt>::go(*c, k, x.w); } break;
                case TRANSPOSE: c->transpose(); { omc::Quiet q; e = swapped(e); } std::swap(d.nrows, d.ncols); break;
                case WRITE: { c->write(p); omc::Quiet q; string w = text(e); same_file(p, w, "write"); string().swap(w); break; }
                case SAVE: { c->save(p); omc::Quiet q; string w = coo_bin<L, O, W>(e, d, wgt); same_file(p, w, "save"); string().swap(w); break; }
                case COPY: { Coo* k = new Coo(*c); check_coo<Coo, L, W, wgt>(*k, e, d, "copy"); for (size_t j = 0; j < e.size(); ++j) { put(k->x(), j, 0); put(k->y(), j, 0); PutW<wgt>::go(*k, j, 99); } k->free(); delete k; break; }
                case TOCSR: { Csr* k = new Csr(*c); check_csr<Csr, wgt>(*k, e, dn, "to CSR"); k->free(); delete k; break; }
                case TODIG: { Dig* k = new Dig(*c); check_csr<Csr, wgt>(k->out(), e, dn, "out edges"); { omc::Quiet q; t = swapped(e); } check_csr<Csr, wgt>(k->in(), t, dims_of(k->in()), "in edges"); k->free(); delete k; break; }
                case TOMAT: { Mat* k = new Mat(*c); check_csr<Csr, wgt>(k->csr(), e, dn, "CSR of the Matrix"); { omc::Quiet q; t = swapped(e); } check_csr<Csr, wgt>(k->csc(), t, dims_of(k->csc()), "CSC of the Matrix"); k->free(); delete k; break; }
                case ASSIGN: { Coo* k = make_coo<Coo, wgt>(e1, d1); *c = *k; check_coo<Coo, L, W, wgt>(*k, e1, d1, "source of the assignment"); k->free(); delete k; { omc::Quiet q; e = e1; } d = d1; break; }
                case BACK: { Coo* k = new Coo(*c); *c = *k; k->free(); delete k; Coo& me = *c; *c = me; break; }
                default: { c->save(p); Coo* k = new Coo(p); check_coo<Coo, L, W, wgt>(*k, e, d, "reload"); *c = *k; k->free(); delete k; break; }
            }
            check_coo<Coo, L, W, wgt>(*c, e, d, "the COO afterwards"); omc::omc_step(step * 131 + o + e.size() * 7919);
        }
        for (auto& k : e) { omc::outcome(k.x); omc::outcome(k.y); omc::outcome(k.w); } emit_entries = true;
        c->free(); delete c; clear_(e); clear_(t); omc::Quiet q; string().swap(p);
    }
};
template <class L, class O, int S, class W, bool wgt> struct StayCsr : omc::Suite {
    typedef pigo::COO<L, O, typename St<L, S>::t, false, false, false, wgt, W, typename St<W, S>::t> Coo;
    typedef pigo::COO<L, O, typename St<L, S>::t, true, false, false, wgt, W, typename St<W, S>::t> Sym;
    typedef pigo::CSR<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> Csr;
    enum { CHANGE, MOVE, SORT, DEDUP, SAVE, TWICE, TOCOO, TOSYM, RELOAD, NO };
    char nm[60]; std::vector<int> ops; SeqEnum en{0, 1, 3}; std::vector<int> seq; std::vector<Entry> e0; Dims d0; size_t init;
    StayCsr(std::initializer_list<int> l) : Suite(nm), ops(l) { if (ops.empty()) for (int k = 0; k < NO; ++k) ops.push_back(k); en.a = ops.size(); snprintf(nm, sizeof nm, "stay_csr_%s%s%s%s", tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    size_t count() override { en.hi = depth(ops.size(), true); return en.count() * 2; }
    void prepare(size_t i) override { init = i % 2; seq = en.get(i / 2); for (int& k : seq) k = ops[k]; start(init, e0, d0); d0.n = big(d0); e0 = by_row(e0); if (!wgt) zero_w(e0); }
    string describe() override { static const char* n[] = {"change columns", "move an entry to another row", "sort", "de-duplicate", "save", "save twice into one File", "to COO", "to symmetric COO", "reload into"}; string s = string(nm) + " " + show(e0) + ":"; for (int o : seq) s += string(" ") + n[o] + ";"; return s; }
    void configs(std::vector<Config>& o) override { conf(o, seq.size()); }
    void put_(Csr& c, const std::vector<Entry>& e) { size_t k = 0; for (ll v = 0; v <= d0.n; ++v) { while (k < e.size() && e[k].x < v) ++k; put(c.offsets(), v, k); } for (size_t i = 0; i < e.size(); ++i) { put(c.endpoints(), i, e[i].y); PutWcsr(c, i, e[i].w, std::integral_constant<bool, wgt>()); } }
    void body() override {
        emit_entries = false; Csr* c = make_csr<Csr, wgt>(e0, d0); std::vector<Entry> e, t; { omc::Quiet q; e = e0; } Dims d = d0; int step = 0; string p = pth("o.bin");
        for (int o : seq) {
            ++step;
            switch (o) {
                case CHANGE: for (auto& x : e) { x.y = (d.ncols - 1 - x.y + step) % d.ncols; if (wgt) x.w = 20 - x.w + step; } put_(*c, e); break;
                case MOVE: { omc::Quiet q; if (!e.empty()) { e.back().x = 0; e[0].x = (step * 3) % d.nrows; e = by_row(e); } } put_(*c, e); break;
                case SORT: c->sort(); { omc::Quiet q; std::sort(e.begin(), e.end()); } break;
                case DEDUP: { { omc::Quiet q; std::sort(e.begin(), e.end()); t = dedup_of(e); } { Csr k = c->new_csr_without_dups(); check_csr<Csr, wgt>(k, t, d, "de-duplicated", true); k.free(); } break; }
                case SAVE: { c->save(p); omc::Quiet q; string w = csr_bin<L, O, W>(e, d, wgt); same_file(p, w, "save"); string().swap(w); break; }
                case TWICE: { { pigo::WFile f(p, 2 * c->save_size() + 1); c->save(f); f.write<char>('|'); c->save(f); } { omc::Quiet q; string w = csr_bin<L, O, W>(e, d, wgt); w += "|" + w; same_file(p, w, "save twice"); string().swap(w); }
                    { pigo::ROFile f(p); Csr* a = new Csr(f, pigo::AUTO); if (f.template read<char>() != '|') omc::fail("the cursor is not behind the loaded CSR"); Coo* b = new Coo(f, pigo::PIGO_CSR_BIN); check_csr<Csr, wgt>(*a, e, d, "the first of two", true); check_coo<Coo, L, W, wgt>(*b, e, d, "the second of two"); a->free(); delete a; b->free(); delete b; } break; }
                case TOCOO: { Coo* k = new Coo(*c); check_coo<Coo, L, W, wgt>(*k, e, d, "to COO"); k->free(); delete k; break; }
                case TOSYM: { Sym* k = new Sym(*c); { omc::Quiet q; t = e; for (auto& x : e) t.push_back(Entry{x.y, x.x, x.w}); } Dims ds = d; ds.nrows = ds.ncols = std::max(d.nrows, d.ncols); check_coo<Sym, L, W, wgt>(*k, t, ds, "to symmetric COO", true); k->free(); delete k; break; }
                default: { c->save(p); c->free(); *c = Csr(p); break; }
            }
            check_csr<Csr, wgt>(*c, e, d, "the CSR afterwards", true); omc::omc_step(step * 131 + o + e.size() * 7919);
        }
        for (auto& k : e) { omc::outcome(k.x); omc::outcome(k.y); omc::outcome(k.w); } emit_entries = true;
        c->free(); delete c; clear_(e); clear_(t); omc::Quiet q; string().swap(p);
    }
};
template <class L, class O, int S, class W, bool wgt> struct StayTns : omc::Suite {
    typedef pigo::Tensor<L, O, typename St<L, S>::t, W, typename St<W, S>::t, wgt> Tns;
    enum { CHANGE, WRITE, SAVE, COPY, ASSIGN, MAX, RELOAD, BACK, NO };
    char nm[60]; std::vector<int> ops; SeqEnum en{0, 1, 3}; std::vector<int> seq; std::vector<TEntry> e0, e1; size_t init, o0, o1;
    StayTns(std::initializer_list<int> l) : Suite(nm), ops(l) { if (ops.empty()) for (int k = 0; k < NO; ++k) ops.push_back(k); en.a = ops.size(); snprintf(nm, sizeof nm, "stay_tensor_%s%s%s%s", tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    size_t count() override { en.hi = depth(ops.size(), true); return en.count() * 2; }
    static size_t mk(size_t i, std::vector<TEntry>& e) { size_t od = i == 0 ? 3 : i == 1 ? 1 : 4, m = i == 0 ? 4 : i == 1 ? 17 : 1; e.clear(); for (size_t k = 0; k < m; ++k) { TEntry t; for (size_t j = 0; j < od; ++j) t.c.push_back((k * 7 + j * 31 + 3) % 101); t.w = wgt ? wval(k) : 0; e.push_back(t); } return od; }
    void prepare(size_t i) override { init = i % 2; seq = en.get(i / 2); for (int& k : seq) k = ops[k]; o0 = mk(init, e0); o1 = mk((init + 1) % 3, e1); }
    string describe() override { static const char* n[] = {"change coordinates", "write", "save", "copy", "assign another", "maxima", "reload into", "assign a copy back"}; string s = string(nm) + " order " + std::to_string(o0) + " entries " + std::to_string(e0.size()) + ":"; for (int o : seq) s += string(" ") + n[o] + ";"; return s; }
    void configs(std::vector<Config>& o) override { conf(o, seq.size()); }
    static Tns* make(const std::vector<TEntry>& e, size_t od) { Tns* t = new Tns((O)od, (O)e.size()); for (size_t k = 0; k < e.size(); ++k) { for (size_t j = 0; j < od; ++j) put(t->c(), k * od + j, e[k].c[j]); PutW<wgt>::go(*t, k, e[k].w); } return t; }
    static void check(Tns& t, const std::vector<TEntry>& e, size_t od, const char* what) {
        if ((size_t)t.m() != e.size() || (size_t)t.order() != od) omc::fail(string(what) + ": the sizes of the tensor are wrong");
        vsize(t.c(), e.size() * od, what);
        for (size_t k = 0; k < e.size(); ++k) { for (size_t j = 0; j < od; ++j) if ((ll)raw(t.c())[k * od + j] != e[k].c[j]) omc::fail(string(what) + ": a coordinate is wrong"); if (getw(t.w(), k, std::integral_constant<bool, wgt>()) != e[k].w) omc::fail(string(what) + ": a weight is wrong"); }
    }
    void body() override {
        size_t od = o0; Tns* c = make(e0, od); std::vector<TEntry> e; { omc::Quiet q; e = e0; } int step = 0; string p = pth("o.bin");
        for (int o : seq) {
            ++step;
            switch (o) {
                case CHANGE: for (size_t k = 0; k < e.size(); ++k) { for (size_t j = 0; j < od; ++j) { e[k].c[j] = (e[k].c[j] * 3 + (ll)j + step) % 101; put(c->c(), k * od + j, e[k].c[j]); } if (wgt) { e[k].w += step; PutW<wgt>::go(*c, k, e[k].w); } } break;
                case WRITE: { c->write(p); omc::Quiet q; string w; for (auto& t : e) { string l; for (ll v : t.c) l += (l.empty() ? "" : " ") + std::to_string(v); w += l; if (wgt) w += " " + w_text<W>((W)t.w); w += "\n"; } same_file(p, w, "write"); string().swap(w); break; }
                case SAVE: { c->save(p); omc::Quiet q; string w = tensor_bin<L, O, W>(e, od, wgt); same_file(p, w, "save"); string().swap(w); break; }
                case COPY: { Tns* k = new Tns(*c); check(*k, e, od, "copy"); for (size_t j = 0; j < e.size() * od; ++j) put(k->c(), j, 0); k->free(); delete k; break; }
                case ASSIGN: { Tns* k = make(e1, o1); *c = *k; check(*k, e1, o1, "source of the assignment"); k->free(); delete k; { omc::Quiet q; e = e1; } od = o1; break; }
                case MAX: { auto v = c->max_labels(); if (v.size() != od) omc::fail("max_labels has a wrong size"); for (size_t j = 0; j < od; ++j) { ll w = 0; for (auto& t : e) w = std::max(w, t.c[j]); if ((ll)v[j] != w) omc::fail("max_labels is wrong"); } break; }
                case RELOAD: { c->save(p); Tns* k = new Tns(p, pigo::PIGO_TENSOR_BIN); check(*k, e, od, "reload"); *c = *k; k->free(); delete k; break; }
                default: { Tns* k = new Tns(*c); *c = *k; k->free(); delete k; Tns& me = *c; *c = me; }
            }
            check(*c, e, od, "the tensor afterwards"); omc::omc_step(step * 131 + o + e.size() * 7919);
        }
        for (auto& k : e) { for (ll v : k.c) omc::outcome(v); omc::outcome(k.w); }
        c->free(); delete c; { omc::Quiet q; std::vector<TEntry>().swap(e); string().swap(p); }
    }
};
#define STAY(...) OMC_ADD(StayCoo<__VA_ARGS__>({})); OMC_ADD(StayCsr<__VA_ARGS__>({})); OMC_ADD(StayTns<__VA_ARGS__>({}));
enum CooOps { C_CHANGE, C_TRANSPOSE, C_WRITE, C_SAVE, C_COPY, C_TOCSR, C_TODIG, C_TOMAT, C_ASSIGN, C_BACK, C_RELOAD };
enum CsrOps { R_CHANGE, R_MOVE, R_SORT, R_DEDUP, R_SAVE, R_TWICE, R_TOCOO, R_TOSYM, R_RELOAD };
enum TnsOps { T_CHANGE, T_WRITE, T_SAVE, T_COPY, T_ASSIGN, T_MAX, T_RELOAD, T_BACK };
}
