// Every operation on files and containers as a self-checking step: used for fault and leak enumeration (C20, C25) and races (C17).
#ifndef HARNESS_OPS_H
#define HARNESS_OPS_H
#include "text.h"
#include "bin.h"
namespace h {
enum OpId { L_COO_EL, L_COO_MM, L_COO_SYM, L_COO_CB, L_COO_RB, L_COO_GR, L_CSR_EL, L_CSR_MM, L_CSR_GR, L_CSR_RB, L_CSR_CB, L_DIG_EL, L_DIG_DB, L_DIG_RB, L_MAT_EL, L_MAT_MM, L_TNS_EL, L_TNS_TB, L_GRA_EL, L_GRA_RB,
    S_COO, W_COO, S_CSR, S_CSR_F, S_DIG, S_TNS, W_TNS, V_CSR, V_COO, V_COOSYM, V_DIG, V_MAT, V_DEDUP, V_SORT, K_COO, K_ASSIGN, K_TNS, K_TASSIGN, F_OPEN, F_WRITE, F_MOVE, F_OFFS, T_MAX, NOPID };
inline const char* opname(int o) { static const char* n[] = {"load COO from edge list", "load COO from Matrix Market", "load symmetric COO", "load COO from COO binary", "load COO from CSR binary", "load COO from GRAPH", "load CSR from edge list", "load CSR from Matrix Market", "load CSR from GRAPH", "load CSR from CSR binary", "load CSR from COO binary", "load DiGraph from edge list", "load DiGraph from binary", "load DiGraph from CSR binary", "load Matrix from edge list", "load Matrix from Matrix Market", "load Tensor from text", "load Tensor from binary", "load Graph from edge list", "load Graph from CSR binary",
    "save COO", "write COO", "save CSR", "save CSR into a File", "save DiGraph", "save Tensor", "write Tensor", "CSR from COO", "COO from CSR", "symmetric COO from CSR", "DiGraph from COO", "Matrix from COO", "de-duplicate", "sort", "copy COO", "assign COO", "copy Tensor", "assign Tensor", "open and read a File", "create and write a File", "move a File", "find_offsets", "max_labels"}; return n[o]; }
// ways of releasing a container
enum Rel { FREE_DEL, DEL_ONLY, FREE2, NREL };
template <class L, class O, int S, class W, bool wgt> struct Ops {
    typedef pigo::COO<L, O, typename St<L, S>::t, false, false, false, wgt, W, typename St<W, S>::t> Coo;
    typedef pigo::COO<L, O, typename St<L, S>::t, true, false, false, wgt, W, typename St<W, S>::t> Sym;
    typedef pigo::CSR<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> Csr;
    typedef pigo::BaseGraph<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> Gra;
    typedef pigo::DiGraph<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> Dig;
    typedef pigo::Matrix<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> Mat;
    typedef pigo::Tensor<L, O, typename St<L, S>::t, W, typename St<W, S>::t, wgt> Tns;
    typedef std::integral_constant<bool, wgt> WT;
    int op, how, rel; std::vector<Entry> e, er, emm, esym, dd; Dims d, del, dmm, dsym; std::vector<TEntry> te; size_t torder; string coobin, csrbin, tnsbin, coow, tnsw; bool skip;
    static bool binload(int o) { return o == L_COO_CB || o == L_COO_RB || o == L_CSR_RB || o == L_CSR_CB || o == L_DIG_DB || o == L_DIG_RB || o == L_TNS_TB || o == L_GRA_RB; }
    static string txt(double v) { return w_text<W>((W)v); }
    // the spellings a weight may have in a file
    static string spelled(double v, size_t k) {
        string s = txt(v); if (!std::is_floating_point<W>::value) return s;
        switch (k % 6) { case 1: return s + "e0"; case 2: return s + "00E+00"; case 3: return (v >= 0 ? "+" : "") + s; case 4: return s + "e-0"; default: return s; }
    }
    string intext() {
        bool gr = op == L_COO_GR || op == L_CSR_GR, mm = op == L_COO_MM || op == L_CSR_MM || op == L_MAT_MM;
        string s;
        if (op == L_TNS_EL) { for (auto& t : te) { for (ll c : t.c) s += std::to_string(c) + " "; if (wgt) s += spelled(t.w, &t - te.data()); s += "\n"; } return s.empty() ? "# none\n" : s; }
        if (op == F_OPEN || op == F_OFFS || op == F_MOVE) { s = "a\nbc\n\nd"; for (auto& k : e) s += std::to_string(k.x) + "\n"; return s; }
        if (gr) { s = std::to_string(d.n) + " " + std::to_string(e.size()) + "\n"; size_t k = 0; for (ll v = 0; v < d.n; ++v) { for (; k < er.size() && er[k].x == v; ++k) s += std::to_string(er[k].y) + " "; s += "\n"; } return s; }
        if (mm) s = "%%MatrixMarket matrix coordinate real general\n" + std::to_string(d.n) + " " + std::to_string(d.n) + " " + std::to_string(e.size()) + "\n";
        for (auto& k : e) s += std::to_string(k.x) + " " + std::to_string(k.y) + (wgt ? " " + spelled(k.w, &k - e.data()) : "") + "\n";
        return s.empty() ? "# none\n" : s;
    }
    const char* infile() { return op == L_COO_MM || op == L_CSR_MM || op == L_MAT_MM ? "in.mtx" : op == L_COO_GR || op == L_CSR_GR ? "in.graph" : binload(op) ? "in.bin" : "in.el"; }
    pigo::FileType intype() { switch (op) { case L_COO_MM: case L_CSR_MM: return pigo::MATRIX_MARKET; case L_COO_GR: case L_CSR_GR: return pigo::GRAPH; case L_COO_CB: case L_CSR_CB: return pigo::PIGO_COO_BIN; case L_COO_RB: case L_CSR_RB: case L_DIG_RB: case L_GRA_RB: return pigo::PIGO_CSR_BIN; case L_DIG_DB: return pigo::PIGO_DIGRAPH_BIN; case L_TNS_TB: return pigo::PIGO_TENSOR_BIN; default: return pigo::EDGE_LIST; } }
    string content() { switch (op) { case L_COO_CB: case L_CSR_CB: return coobin; case L_COO_RB: case L_CSR_RB: case L_DIG_RB: case L_GRA_RB: return csrbin; case L_DIG_DB: return digraph_bin<L, O, W>(er, d, wgt); case L_TNS_TB: return tnsbin; default: return intext(); } }
    // size: 0 empty, 1 one entry, 2 three entries, 3 more
    void prepare(int o, int size, int hw, int r) {
        op = o; how = hw; rel = r; skip = false; off = false; e.clear(); te.clear();
        size_t m = size == 0 ? 0 : size == 1 ? 1 : size == 2 ? 3 : size == 3 ? 20 : 130; ll n = m > 3 ? 5 : 3; torder = 2 + (m & 1);
        static const int s3[][2] = {{1, 0}, {0, 1}, {1, 2}};
        for (size_t k = 0; k < m; ++k) { Entry x{m > 3 ? (ll)(k * 7 % 5) : s3[k][0], m > 3 ? (ll)((k * 3 + k / 5) % 5) : s3[k][1], wgt ? wval(k) : 0}; e.push_back(x); TEntry t; for (size_t j = 0; j < torder; ++j) t.c.push_back((k * 5 + j * 3) % 11); t.w = x.w; te.push_back(t); }
        er = by_row(e); d = Dims{n, n, n}; del = e.empty() ? Dims{-1, -1, -1} : ref_dims(e); dmm = Dims{n + 1, n + 1, n + 1};
        esym = ref_flags(op == L_COO_SYM ? e : er, true, false, false); dsym = op == L_COO_SYM ? (e.empty() ? del : ref_dims(esym)) : d;
        dd.clear(); { auto q = er; std::sort(q.begin(), q.end()); for (auto& k : q) if (dd.empty() || dd.back().x != k.x || dd.back().y != k.y) dd.push_back(k); }
        coobin = coo_bin<L, O, W>(e, d, wgt); csrbin = csr_bin<L, O, W>(er, d, wgt); tnsbin = tensor_bin<L, O, W>(te, torder, wgt);
        coow.clear(); for (auto& k : e) coow += std::to_string(k.x) + " " + std::to_string(k.y) + (wgt ? " " + txt(k.w) : "") + "\n";
        tnsw.clear(); for (auto& t : te) { string l; for (ll c : t.c) l += (l.empty() ? "" : " ") + std::to_string(c); tnsw += l + (wgt ? " " + txt(t.w) : "") + "\n"; }
        if (wgt && (op == L_CSR_GR || op == L_COO_GR)) skip = true; if (e.empty() && (op == W_COO || op == W_TNS || op == L_CSR_GR || op == L_COO_GR)) skip = true;
        if (o <= L_GRA_RB || op == F_OPEN || op == F_OFFS || op == F_MOVE) put_file(path(infile()), content());
        put_file(path("out.bin"), string(hw % 2 ? 3 : 500, 'q'));
    }
    bool off = false; // no more faults
    void window(bool on) { omc::omc_set_fault_window(on && !off); }
    void release_coo_like(Coo* c) { rel_any(c); }
    template <class C> void rel_any(C* c) { if (rel != DEL_ONLY || S == PTR) c->free(); if (rel == FREE2) { c->free(); c->free(); } delete c; }
    template <class C> C* open_() {
        string p = path_(infile()); C* c = nullptr;
        window(true);
        if (how % 4 == 0) c = new C(p); else if (how % 4 == 1) c = new C(p, intype()); else if (how % 4 == 2) { pigo::File f(p, pigo::READ); c = new C(f, pigo::AUTO); } else { pigo::ROFile f(p); c = new C(f, intype()); }
        window(false); return c;
    }
    Mat* open_mat() { string p = path_(infile()); window(true); Mat* c = new Mat(p); window(false); return c; }
    static string path_(const char* n) { omc::Quiet q; string s = path(n); return s; }
    Dims dl(Dims w, Dims g) { return w.n < 0 ? g : w; }
    void ck(Coo& c, const std::vector<Entry>& x, Dims w) { check_coo<Coo, L, W, wgt>(c, x, dl(w, dims_of(c)), opname(op)); }
    template <class C> void ckr(C& c, const std::vector<Entry>& x, Dims w, bool ord = false) { check_csr<C, wgt>(c, x, dl(w, dims_of(c)), opname(op), ord); }
    Tns* mk_t() { Tns* t = new Tns((O)torder, (O)te.size()); for (size_t k = 0; k < te.size(); ++k) { for (size_t j = 0; j < torder; ++j) put(t->c(), k * torder + j, te[k].c[j]); PutW<wgt>::go(*t, k, te[k].w); } return t; }
    void ckt(Tns& t, bool anyorder = false) {
        size_t od = t.order(); if ((size_t)t.m() != te.size() || (od != torder && !(anyorder && te.empty()))) omc::fail(string(opname(op)) + ": the sizes of the tensor are wrong");
        for (size_t k = 0; k < te.size(); ++k) { for (size_t j = 0; j < torder; ++j) if ((ll)raw(t.c())[k * torder + j] != te[k].c[j]) omc::fail(string(opname(op)) + ": a coordinate is wrong"); if (getw(t.w(), k, WT()) != te[k].w) omc::fail(string(opname(op)) + ": a weight is wrong"); }
    }
    void ckfile(const string& want) { omc::Quiet q; string got; if (!get_file(path("out.bin"), got)) omc::fail("the written file cannot be read"); if (got != want) omc::fail(string(opname(op)) + " reported success, but the file is wrong: " + esc(got, 100) + " instead of " + esc(want, 100)); string().swap(got); }
    // a container on which a call may fail: released and checked either way
    template <class C, class F, class K> void on(C* c, F f, K check) { try { window(true); f(); } catch (...) { window(false); check(); rel_any(c); throw; } window(false); check(); rel_any(c); }
    // runs the operation and checks its result; throws what the operation throws
    void run() {
        switch (op) {
            case L_COO_EL: { Coo* c = open_<Coo>(); ck(*c, e, del); rel_any(c); break; }
            case L_COO_MM: { Coo* c = open_<Coo>(); ck(*c, e, dmm); rel_any(c); break; }
            case L_COO_SYM: { Sym* c = open_<Sym>(); check_coo<Sym, L, W, wgt>(*c, esym, dl(dsym, dims_of(*c)), opname(op)); rel_any(c); break; }
            case L_COO_CB: { Coo* c = open_<Coo>(); ck(*c, e, d); rel_any(c); break; }
            case L_COO_RB: case L_COO_GR: { Coo* c = open_<Coo>(); ck(*c, er, op == L_COO_GR ? grd(c->nrows()) : d); rel_any(c); break; }
            case L_CSR_EL: { Csr* c = open_<Csr>(); ckr(*c, e, del); rel_any(c); break; }
            case L_CSR_MM: { Csr* c = open_<Csr>(); ckr(*c, e, dmm); rel_any(c); break; }
            case L_CSR_GR: { Csr* c = open_<Csr>(); ckr(*c, er, grd(c->nrows())); rel_any(c); break; }
            case L_CSR_RB: { Csr* c = open_<Csr>(); ckr(*c, er, d, true); rel_any(c); break; }
            case L_CSR_CB: { Csr* c = open_<Csr>(); ckr(*c, e, d); rel_any(c); break; }
            case L_GRA_EL: { Gra* c = open_<Gra>(); ckr(*c, e, del); rel_any(c); break; }
            case L_GRA_RB: { Gra* c = open_<Gra>(); ckr(*c, er, d, true); rel_any(c); break; }
            case L_DIG_EL: { Dig* c = open_<Dig>(); ckr(c->out(), e, del); ckin(c->in(), del); rel_any(c); break; }
            case L_DIG_DB: case L_DIG_RB: { Dig* c = open_<Dig>(); ckr(c->out(), e, d); ckin(c->in(), d); rel_any(c); break; }
            case L_MAT_EL: { Mat* c = open_mat(); ckr(c->csr(), e, del); ckin(c->csc(), del); rel_any(c); break; }
            case L_MAT_MM: { Mat* c = open_mat(); ckr(c->csr(), e, dmm); ckin(c->csc(), dmm); rel_any(c); break; }
            case L_TNS_EL: case L_TNS_TB: { Tns* c = open_<Tns>(); ckt(*c, op == L_TNS_EL); rel_any(c); break; }
            case S_COO: { Coo* c = make_coo<Coo, wgt>(e, d); string p = path_("out.bin"); on(c, [&] { c->save(p); }, [&] { ck(*c, e, d); }); ckfile(coobin); break; }
            case W_COO: { Coo* c = make_coo<Coo, wgt>(e, d); string p = path_("out.bin"); on(c, [&] { c->write(p); }, [&] { ck(*c, e, d); }); ckfile(coow); break; }
            case S_CSR: { Csr* c = make_csr<Csr, wgt>(er, d); string p = path_("out.bin"); on(c, [&] { c->save(p); }, [&] { ckr(*c, er, d, true); }); ckfile(csrbin); break; }
            case S_CSR_F: { Csr* c = make_csr<Csr, wgt>(er, d); string p = path_("out.bin"); on(c, [&] { pigo::WFile f(p, c->save_size()); c->save(f); }, [&] { ckr(*c, er, d, true); }); ckfile(csrbin); break; }
            case S_DIG: { Coo* a = make_coo<Coo, wgt>(er, d); Dig* c = new Dig(*a); rel_any(a); string p = path_("out.bin"); on(c, [&] { c->save(p); }, [&] { ckr(c->out(), e, d); ckin(c->in(), d); });
                { omc::Quiet q; string got, w = digraph_bin<L, O, W>(er, d, wgt); get_file(path("out.bin"), got); if (got.size() != w.size() || got.substr(0, 15) != w.substr(0, 15)) omc::fail("save DiGraph reported success, but the file is wrong"); } op = L_DIG_DB; { Dig* b = nullptr; try { b = new Dig(p, pigo::PIGO_DIGRAPH_BIN); } catch (pigo::Error& x) { omc::fail(string("the saved DiGraph cannot be loaded: ") + x.what()); } ckr(b->out(), e, d); ckin(b->in(), d); rel_any(b); } op = S_DIG; break; }
            case S_TNS: { Tns* c = mk_t(); string p = path_("out.bin"); on(c, [&] { c->save(p); }, [&] { ckt(*c); }); ckfile(tnsbin); break; }
            case W_TNS: { Tns* c = mk_t(); string p = path_("out.bin"); on(c, [&] { c->write(p); }, [&] { ckt(*c); }); ckfile(tnsw); break; }
            case V_CSR: { Coo* a = make_coo<Coo, wgt>(e, d); Csr* c = nullptr; on(a, [&] { c = new Csr(*a); }, [&] { ck(*a, e, d); }); ckr(*c, e, d); rel_any(c); break; }
            case V_COO: { Csr* a = make_csr<Csr, wgt>(er, d); Coo* c = nullptr; on(a, [&] { c = new Coo(*a); }, [&] { ckr(*a, er, d, true); }); ck(*c, er, d); rel_any(c); break; }
            case V_COOSYM: { Csr* a = make_csr<Csr, wgt>(er, d); Sym* c = nullptr; on(a, [&] { c = new Sym(*a); }, [&] { ckr(*a, er, d, true); });
                { omc::Quiet q; esym = er; for (auto& k : er) esym.push_back(Entry{k.y, k.x, k.w}); } check_coo<Sym, L, W, wgt>(*c, esym, d, opname(op), true); rel_any(c); { omc::Quiet q; std::vector<Entry>().swap(esym); } break; }
            case V_DIG: { Coo* a = make_coo<Coo, wgt>(e, d); Dig* c = nullptr; on(a, [&] { c = new Dig(*a); }, [&] { ck(*a, e, d); }); ckr(c->out(), e, d); ckin(c->in(), d); rel_any(c); break; }
            case V_MAT: { Coo* a = make_coo<Coo, wgt>(e, d); Mat* c = nullptr; on(a, [&] { c = new Mat(*a); }, [&] { ck(*a, e, d); }); ckr(c->csr(), e, d); ckin(c->csc(), d); rel_any(c); break; }
            case V_DEDUP: { Csr* a = make_csr<Csr, wgt>(er, d); { Csr c = a->new_csr_without_dups(); check_csr<Csr, wgt>(c, dd, d, opname(op), true); if (rel != DEL_ONLY || S == PTR) c.free(); } rel_any(a); break; }
            case V_SORT: { Csr* a = make_csr<Csr, wgt>(er, d); a->sort(); auto s = [&] { omc::Quiet q; auto s = er; std::sort(s.begin(), s.end()); return s; }(); check_csr<Csr, wgt>(*a, s, d, opname(op), true); rel_any(a); omc::Quiet q; std::vector<Entry>().swap(s); break; }
            case K_COO: { Coo* a = make_coo<Coo, wgt>(e, d); Coo* c = nullptr; on(a, [&] { c = new Coo(*a); }, [&] { ck(*a, e, d); }); ck(*c, e, d); rel_any(c); break; }
            case K_ASSIGN: { Coo* a = make_coo<Coo, wgt>(e, d); Coo* c = make_coo<Coo, wgt>(er, d); Coo* x = new Coo(); on(a, [&] { try { *c = *a; *x = *c; *x = *x; } catch (...) { window(false); c->free(); delete c; x->free(); delete x; throw; } }, [&] { ck(*a, e, d); }); ck(*c, e, d); ck(*x, e, d); rel_any(c); rel_any(x); break; }
            case K_TNS: { Tns* a = mk_t(); Tns* c = nullptr; on(a, [&] { c = new Tns(*a); }, [&] { ckt(*a); }); ckt(*c); rel_any(c); break; }
            case K_TASSIGN: { Tns* a = mk_t(); Tns* c = mk_t(); Tns* x = new Tns(); on(a, [&] { try { *c = *a; *x = *c; *x = *x; } catch (...) { window(false); c->free(); delete c; x->free(); delete x; throw; } }, [&] { ckt(*a); }); ckt(*c); ckt(*x); rel_any(c); rel_any(x); break; }
            case F_OPEN: { string p = path_("in.el"); window(true); { pigo::File f(p, pigo::READ); window(false); char a = f.read<char>(); f.seek(2); char b = f.read<char>(); if (a != 'a' || b != 'b') omc::fail("reading a File gives wrong bytes"); try { f.seek(100000); omc::fail("a seek beyond the end succeeds"); } catch (pigo::Error&) {} try { f.read("zz"); omc::fail("reading another string succeeds"); } catch (pigo::Error&) {} } break; }
            case F_WRITE: { string p = path_("out.bin"); window(true); { pigo::WFile f(p, 10); window(false); f.write<uint32_t>(0x64636261); f.write(string("efghij")); try { f.write<char>('x'); omc::fail("a write beyond the end succeeds"); } catch (pigo::Error&) {} } ckfile("abcdefghij"); break; }
            case F_MOVE: { string p = path_("in.el"), p2 = path_("out.bin"); window(true); { pigo::File f(p, pigo::READ); pigo::File g(std::move(f)); { pigo::File k(p2, pigo::READ); window(false); if (k.read<char>() != 'q') omc::fail("reading a File gives wrong bytes"); k = std::move(g); if (k.read<char>() != 'a') omc::fail("a moved File reads something else"); pigo::File& kk = k; k = std::move(kk); if (k.read<char>() != '\n') omc::fail("a File moved to itself reads something else"); } } break; }
            case F_OFFS: { string p = path_("in.el"); window(true); { pigo::ROFile f(p); auto r = f.reader(); auto t = r.template find_offsets<pigo::Tensor<size_t, size_t, size_t*, float, float*, false>>('\n'); window(false); size_t k = 0, i = 0; string s; { omc::Quiet q; s = intext(); } for (; i < s.size(); ++i) if (s[i] == '\n') { if (k >= t.m() || t.c()[k] != i) omc::fail("find_offsets is wrong"); ++k; } if (k != t.m()) omc::fail("find_offsets finds too many"); t.free(); omc::Quiet q; string().swap(s); } break; }
            case T_MAX: { Tns* a = mk_t(); { auto v = a->max_labels(); for (size_t j = 0; j < torder; ++j) { ll w = 0; for (auto& t : te) w = std::max(w, t.c[j]); if (v.size() != torder || (ll)v[j] != w) omc::fail("max_labels is wrong"); } } rel_any(a); break; }
        }
    }
    Dims grd(ll nrows) { Dims g = d; g.nrows = nrows; ll mx = 0; for (auto& k : e) mx = std::max(mx, k.y); g.ncols = mx + 1; return g; }
    template <class C> void ckin(C& c, Dims w) { auto s = [&] { omc::Quiet q; return swapped(e); }(); ckr(c, s, w); omc::Quiet q; std::vector<Entry>().swap(s); }
};
}
#endif
