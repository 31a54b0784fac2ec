// C24 any pipeline of operations matches the reference model: all sequences of operations up to a depth
#include "text.h"
#include "bin.h"
namespace {
using namespace h;
enum Op { TOCSR, TOCOO, TRANSPOSE, COPYASSIGN, SORT, DEDUP, SAVECOO, SAVECSR, WRITEEL, WRITEMM, CROSSBIN, DIGRAPHIN, DIGRAPHBIN, CSCVIEW, SYMM, WIDE, NOLOOPS, UPPER, DEDUPWIDE, CHANGE, NOPS };
const char* ON[] = {"to CSR", "to COO", "transpose", "copy and assign", "sort", "de-duplicate", "save COO, reload", "save CSR, reload", "write, reload as edge list", "write as Matrix Market, reload", "save one, load the other", "in-edges of a DiGraph", "DiGraph saved, reloaded", "CSC of a Matrix", "symmetric", "through wider types", "write, reload without self loops", "write, reload the upper triangle", "de-duplicate into wider types", "change the entries in place"};
template <class L, class O, int S, class W, bool wgt> struct Pipe : omc::Suite {
    typedef pigo::COO<L, O, typename St<L, S>::t, false, false, false, wgt, W, typename St<W, S>::t> Coo;
    typedef pigo::COO<L, O, typename St<L, S>::t, true, false, false, wgt, W, typename St<W, S>::t> Sym;
    typedef pigo::COO<L, O, typename St<L, S>::t, false, false, true, wgt, W, typename St<W, S>::t> Sl;
    typedef pigo::COO<L, O, typename St<L, S>::t, false, true, false, wgt, W, typename St<W, S>::t> Ut;
    typedef pigo::CSR<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> Csr;
    typedef pigo::CSR<uint64_t, uint64_t, uint64_t*, std::vector<uint64_t>, wgt, double, std::shared_ptr<double>> Wide;
    typedef pigo::DiGraph<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> Dig;
    typedef pigo::Matrix<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> Mat;
    char nm[60]; int kind, init; SeqEnum en{0, 0, 0}; std::vector<int> seq; std::vector<Entry> e0; Dims d0;
    Pipe(int k) : Suite(nm), kind(k), init(0) { snprintf(nm, sizeof nm, "%s_%s%s%s%s", k == 0 ? "full" : k == 1 ? "deep" : "larger", tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    enum { NI = 6 };
    size_t count() override { bool th = omc::thorough(); en = kind == 0 ? SeqEnum{NOPS, 0, th ? 2u : 2u} : kind == 1 ? SeqEnum{NOPS, 3, th ? 4u : 3u} : SeqEnum{NOPS, 1, th ? 3u : 2u}; return en.count() * (kind == 2 ? 2 : kind == 1 && omc::thorough() ? 3 : NI); }
    void prepare(size_t i) override {
        e0.clear(); size_t ni = kind == 2 ? 2 : kind == 1 && omc::thorough() ? 3 : NI; init = i % ni; if (ni == 3) init += 3; seq = en.get(i / ni);
        if (kind == 2) { int n = init ? 40 : 12, m = init ? 150 : 60; for (int k = 0; k < m; ++k) e0.push_back(Entry{(k * 7 + k / 9) % n, (k * k + 3 * k) % n, wval(k)}); d0 = Dims{n, n, n}; }
        else switch (init) {
            case 0: d0 = Dims{3, 3, 3}; break;
            case 1: e0 = {{1, 0, 3}}; d0 = Dims{2, 2, 1}; break;
            case 2: e0 = {{2, 2, 1}}; d0 = Dims{5, 4, 3}; break;
            case 3: e0 = {{1, 0, 3}, {0, 1, 2}, {1, 0, 1}, {1, 1, 7}}; d0 = Dims{2, 2, 2}; break;
            case 4: e0 = {{0, 3, 3}, {1, 0, 2}, {0, 0, 5}}; d0 = Dims{4, 2, 4}; break;
            case 5: e0 = {{3, 1, 4}, {3, 0, 9}, {0, 1, 6}, {3, 1, 4}}; d0 = Dims{6, 4, 2}; break;
        }
        if (!wgt) zero_w(e0); else vary_w<W, W>(e0);
    }
    string describe() override { string s = string(nm) + " n,nrows,ncols=" + std::to_string(d0.n) + "," + std::to_string(d0.nrows) + "," + std::to_string(d0.ncols) + " " + show(e0) + ":"; for (int o : seq) s += string("  ") + ON[o] + ";"; return s; }
    void configs(std::vector<Config>& o) override { if (kind == 0) { if (seq.size() < 2 || omc::thorough()) { cfg_full(o, {1, 2}); cfg_policy(o, {3}); } else { cfg_full(o, {1}); cfg_bound(o, {2}, 2); cfg_policy(o, {3}); } } else if (kind == 1) cfg_policy(o, {1, 2, 3}); else cfg_policy(o, {1, 2, 3, 4, 8}); }
    // the state: exactly one of the two containers, and the model
    struct State { Coo* c; Csr* r; std::vector<Entry> e; Dims d; const char* what; };
    static ll big(Dims d) { return std::max(d.n, std::max(d.nrows, d.ncols)); }
    template <class C> static void adopt(State& s, C& r) { // the entries of a CSR: as expected, rows in the order the implementation chose
        if ((size_t)r.m() != s.e.size()) omc::fail(string(s.what) + ": m is " + std::to_string(r.m()) + " instead of " + std::to_string(s.e.size()));
        auto got = csr_entries<C, wgt>(r, s.what);
        omc::Quiet q; auto a = got, b = s.e; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); expect_entries(a, b, s.what); s.e = got; std::vector<Entry>().swap(a); std::vector<Entry>().swap(b); std::vector<Entry>().swap(got);
    }
    static void verify(State& s) {
        if (s.c) check_coo<Coo, L, W, wgt>(*s.c, s.e, s.d, s.what); else check_csr<Csr, wgt>(*s.r, s.e, s.d, s.what, true);
    }
    static void tocsr(State& s) { if (s.r) return; s.r = new Csr(*s.c); check_coo<Coo, L, W, wgt>(*s.c, s.e, s.d, "source"); s.c->free(); delete s.c; s.c = nullptr; s.d.n = big(s.d); adopt(s, *s.r); }
    static void tocoo(State& s) { if (s.c) return; s.c = new Coo(*s.r); check_csr<Csr, wgt>(*s.r, s.e, s.d, "source", true); s.r->free(); delete s.r; s.r = nullptr; }
    static string pth(const char* n) { omc::Quiet q; string s = path(n); return s; }
    // entries kept by a reload, with the sizes of what is left
    template <class C> static void filtered(State& s, const string& p, bool sl, bool ut) {
        C* x = new C(p); { omc::Quiet q; auto f = ref_flags(s.e, false, ut, sl); s.e.swap(f); std::vector<Entry>().swap(f); if (!s.e.empty()) s.d = ref_dims(s.e); else s.d = dims_of(*x); }
        s.c->free(); delete s.c; s.c = nullptr;
        check_coo<C, L, W, wgt>(*x, s.e, s.d, s.what); s.r = new Csr(*x); x->free(); delete x; s.d.n = big(s.d); adopt(s, *s.r);
    }
    static void step(State& s, int op) {
        s.what = ON[op];
        switch (op) {
            case TOCSR: tocsr(s); break;
            case TOCOO: tocoo(s); break;
            case TRANSPOSE: tocoo(s); s.c->transpose(); { omc::Quiet q; s.e = swapped(s.e); } std::swap(s.d.nrows, s.d.ncols); break;
            case COPYASSIGN: { tocoo(s); Coo* k = new Coo(*s.c); size_t old = s.e.size() % 3 == 0 ? 0 : s.e.size() % 3 == 1 ? s.e.size() + 2 : 1; Coo* a = old ? new Coo(9, 8, 7, (O)old) : new Coo(); for (size_t j = 0; j < old; ++j) { put(a->x(), j, 5); put(a->y(), j, 6); PutW<wgt>::go(*a, j, 9); } *a = *k; s.c->free(); delete s.c; k->free(); delete k; s.c = a; break; }
            case SORT: tocsr(s); s.r->sort(); { omc::Quiet q; std::sort(s.e.begin(), s.e.end()); } break;
            case DEDUP: case DEDUPWIDE: { tocsr(s);
                { omc::Quiet q; std::sort(s.e.begin(), s.e.end()); std::vector<Entry> u; for (auto& k : s.e) if (u.empty() || u.back().x != k.x || u.back().y != k.y) u.push_back(k); s.e.swap(u); std::vector<Entry>().swap(u); }
                if (op == DEDUP) { Csr* n = new Csr(s.r->new_csr_without_dups()); s.r->free(); delete s.r; s.r = n; }
                else { Wide* n = new Wide(s.r->template new_csr_without_dups<uint64_t, uint64_t, uint64_t*, std::vector<uint64_t>, wgt, double, std::shared_ptr<double>>()); s.r->free(); delete s.r; s.r = nullptr; check_csr<Wide, wgt>(*n, s.e, s.d, s.what, true); s.c = new Coo(*n); n->free(); delete n; } break; }
            case SAVECOO: { tocoo(s); string p = pth("p.bin"); s.c->save(p); s.c->free(); delete s.c; s.c = new Coo(p); break; }
            case SAVECSR: { tocsr(s); string p = pth("p.bin"); s.r->save(p); s.r->free(); delete s.r; s.r = new Csr(p); break; }
            case WRITEEL: { tocoo(s); if (s.e.empty()) break; string p = pth("p.el"); s.c->write(p); s.c->free(); delete s.c; s.c = new Coo(p); { omc::Quiet q; s.d = ref_dims(s.e); } break; }
            case WRITEMM: { tocoo(s); if (s.e.empty()) break; string p = pth("p.el"), p2 = pth("p.mtx"); s.c->write(p); s.c->free(); delete s.c;
                { omc::Quiet q; string t; get_file(p, t); Dims d = ref_dims(s.e); put_file(p2, "%%MatrixMarket matrix coordinate real general\n" + std::to_string(d.nrows) + " " + std::to_string(d.ncols) + " " + std::to_string(s.e.size()) + "\n" + t); s.d = Dims{std::max(d.nrows, d.ncols) + 1, d.nrows + 1, d.ncols + 1}; string().swap(t); }
                s.c = new Coo(p2); break; }
            case CROSSBIN: { string p = pth("p.bin"); if (s.c) { s.c->save(p); s.c->free(); delete s.c; s.c = nullptr; s.r = new Csr(p); s.d.n = big(s.d); adopt(s, *s.r); } else { s.r->save(p); s.r->free(); delete s.r; s.r = nullptr; s.c = new Coo(p); } break; }
            case DIGRAPHIN: { tocoo(s); Dig* g = new Dig(*s.c); s.c->free(); delete s.c; s.d.n = big(s.d); { omc::Quiet q; s.e = swapped(s.e); } adopt(s, g->in()); if ((ll)g->n() != s.d.n || (ll)g->nrows() != s.d.nrows || (ll)g->ncols() != s.d.ncols || (size_t)g->m() != s.e.size()) omc::fail("the sizes of the DiGraph are wrong"); s.c = new Coo(g->in()); g->free(); delete g; break; }
            case DIGRAPHBIN: { tocoo(s); Dig* g = new Dig(*s.c); s.c->free(); delete s.c; s.d.n = big(s.d); string p = pth("p.bin"); g->save(p); g->free(); delete g; g = new Dig(p); { omc::Quiet q; s.e = swapped(s.e); } adopt(s, g->in()); { omc::Quiet q; s.e = swapped(s.e); } adopt(s, g->out()); s.c = new Coo(g->out()); g->free(); delete g; break; }
            case CSCVIEW: { tocoo(s); Mat* g = new Mat(*s.c); s.c->free(); delete s.c; s.d.n = big(s.d); adopt(s, g->csr()); { omc::Quiet q; s.e = swapped(s.e); } adopt(s, g->csc()); if ((ll)g->nrows() != s.d.nrows || (ll)g->ncols() != s.d.ncols) omc::fail("the sizes of the Matrix are wrong"); s.c = new Coo(g->csc()); g->free(); delete g; break; }
            case SYMM: { bool loop = s.e.size() > 400; for (auto& k : s.e) if (k.x == k.y) loop = true; if (loop) break; tocsr(s); Sym* y = new Sym(*s.r); s.r->free(); delete s.r; s.r = new Csr(*y); y->free(); delete y;
                { omc::Quiet q; std::vector<Entry> f = s.e; for (auto& k : s.e) f.push_back(Entry{k.y, k.x, k.w}); s.e.swap(f); std::vector<Entry>().swap(f); } s.d.nrows = s.d.ncols = std::max(s.d.nrows, s.d.ncols); s.d.n = big(s.d); adopt(s, *s.r); break; }
            case WIDE: { tocoo(s); Wide* w = new Wide(*s.c); s.c->free(); delete s.c; s.d.n = big(s.d); adopt(s, *w); s.c = new Coo(*w); w->free(); delete w; break; }
            case NOLOOPS: { tocoo(s); if (s.e.empty()) break; string p = pth("p.el"); s.c->write(p); filtered<Sl>(s, p, true, false); break; }
            case CHANGE: { ll nr = s.d.nrows, nc = s.d.ncols; if (s.e.empty()) break; for (auto& x : s.e) { nr = std::max(nr, x.x + 1); nc = std::max(nc, x.y + 1); }
                if (s.c) for (size_t k = 0; k < s.e.size(); ++k) { Entry& x = s.e[k]; x.x = (x.x + 1) % nr; x.y = nc - 1 - x.y; put(s.c->x(), k, x.x); put(s.c->y(), k, x.y); if (wgt) { x.w = x.w + (x.y % 3); PutW<wgt>::go(*s.c, k, x.w); } }
                else for (size_t k = 0; k < s.e.size(); ++k) { Entry& x = s.e[k]; x.y = nc - 1 - x.y; put(s.r->endpoints(), k, x.y); if (wgt) { x.w = x.w + (x.y % 3); PutWcsr(*s.r, k, x.w, std::integral_constant<bool, wgt>()); } } break; }
            case UPPER: { tocoo(s); if (s.e.empty()) break; string p = pth("p.el"); s.c->write(p); filtered<Ut>(s, p, false, true); break; }
        }
        verify(s);
        omc::omc_step((uint64_t)s.e.size() * 1000003 + op * 31 + s.d.n * 7919 + s.d.nrows * 104729 + s.d.ncols * 1299709 + (s.c ? 1 : 0));
    }
    void body() override {
        emit_entries = false; State* s = new State(); s->c = make_coo<Coo, wgt>(e0, d0); s->r = nullptr; { omc::Quiet q; s->e = e0; } s->d = d0; s->what = "start";
        try { for (int o : seq) step(*s, o); } catch (std::exception& x) { omc::fail(string(s->what) + " fails: " + x.what()); }
        { omc::Quiet q; auto f = s->e; std::sort(f.begin(), f.end()); emit_entries = true; out_entries(f); std::vector<Entry>().swap(f); }
        if (s->c) { s->c->free(); delete s->c; } if (s->r) { s->r->free(); delete s->r; }
        { omc::Quiet q; std::vector<Entry>().swap(s->e); } delete s;
    }
};
#define PP(...) OMC_ADD(Pipe<__VA_ARGS__>(0)); OMC_ADD(Pipe<__VA_ARGS__>(1)); OMC_ADD(Pipe<__VA_ARGS__>(2));
}
