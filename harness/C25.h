// C25 no descriptor, mapping or memory is leaked: every operation, ended normally, by an Error of its own, or by any injected failure
#include "ops.h"
namespace {
using namespace h;
struct Mark { long fd, mp, bl; void take() { fd = omc::omc_open_fds(); mp = omc::omc_open_maps(); bl = omc::omc_live_blocks(); }
    void files(const char* w) { long f = omc::omc_open_fds() - fd, m = omc::omc_open_maps() - mp; if (f) omc::fail(string(w) + ": " + std::to_string(f) + " descriptors are left open"); if (m) omc::fail(string(w) + ": " + std::to_string(m) + " mappings are left"); }
    void mem(const char* w) { long b = omc::omc_live_blocks() - bl; if (b) omc::fail(string(w) + ": " + std::to_string(b) + " blocks of memory are left allocated"); } };
template <class L, class O, int S, class W, bool wgt> struct Leak : omc::Suite {
    typedef Ops<L, O, S, W, wgt> X; X x; char nm[60]; int kind, op, size, how, rel;
    Leak(int k) : Suite(nm), kind(k) { if (k) faults = 1; snprintf(nm, sizeof nm, "%s_%s%s%s%s", k == 2 ? "calls_after" : k ? "faults" : "ends", tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    size_t count() override { return (size_t)NOPID * (kind ? 3 : 4) * 4 * (kind ? 1 : NREL); }
    void prepare(size_t i) override { op = i % NOPID; i /= NOPID; size = i % (kind ? 3 : 4); i /= kind ? 3 : 4; how = i % 4; i /= 4; rel = i % NREL; x.prepare(op, size, how, rel); if (op > L_GRA_RB && how > 1) x.skip = true; }
    string describe() override { return string(nm) + ": " + opname(op) + " size " + std::to_string(size) + " how " + std::to_string(how) + " release " + std::to_string(rel); }
    void configs(std::vector<Config>& o) override { if (x.skip) return; if (kind) { cfg_policy(o, {1, 2}); return; } if (size < 3) { cfg_full(o, {1}); if (size < 2 || op > L_GRA_RB) cfg_full(o, {2}); else cfg_policy(o, {2}); } cfg_policy(o, {1, 2, 3, 4}); }
    void body() override {
        Mark k; k.take(); bool ok = false;
        { try { x.run(); ok = true; } catch (pigo::Error&) {} catch (std::bad_alloc&) {} }
        omc::omc_set_fault_window(0);
        k.files(opname(op)); if (ok) k.mem(opname(op));
        if (!omc::omc_fault_fired() && !ok) omc::fail(string(opname(op)) + " fails");
        if (!omc::omc_fault_fired()) omc::outcome(ok);
    }
};
// files that are refused: damaged everywhere, the wrong type, not a regular file
template <class L, class O, int S, class W, bool wgt> struct Refused : omc::Suite {
    typedef Ops<L, O, S, W, wgt> X; X x; char nm[60]; int op; size_t cut; int type, how; string text; const char* fn;
    Refused() : Suite(nm) { snprintf(nm, sizeof nm, "refused_%s%s%s%s", tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    size_t count() override { return (size_t)(L_GRA_RB + 1) * 9 * 50; }
    void prepare(size_t i) override {
        op = i % (L_GRA_RB + 1); i /= L_GRA_RB + 1; type = i % 9; i /= 9; how = i % 4; x.prepare(op, 2, how, 0); string s = x.content(); 
        fn = x.infile(); if (i < 45) { if (i >= s.size()) s += string(i, '1'); else if ((i & 1) && (!X::binload(op) || i < 13)) s[i] ^= 0x15; else s = s.substr(0, i); } else if (i == 45) s += "\x80\xff"; else if (i == 46) s += "\n9 9 9\n"; else if (i == 47) s = s + s;
        put_file(path(fn), s); text = s; mkdir(path("dir.el").c_str(), 0700); if (i == 48) fn = "dir.el"; if (i == 49) fn = "none/none.el";
    }
    string describe() override { return string(nm) + ": " + opname(op) + " type " + std::to_string(type) + " how " + std::to_string(how) + " " + fn + " " + esc(text); }
    void configs(std::vector<Config>& o) override { cfg_policy(o, {1, 2}); }
    template <class C> void go(const string& p, pigo::FileType t) { C* c = nullptr; if (how < 2) c = new C(p, t); else if (how == 2) { pigo::File f(p, pigo::READ); c = new C(f, t); } else { pigo::File f(p, pigo::READ); f.seek(1); c = new C(f, t); } c->free(); delete c; }
    void body() override {
        string p; { omc::Quiet q; p = path(fn); } Mark k; k.take(); bool ok = false;
        static const pigo::FileType ts[] = {pigo::MATRIX_MARKET, pigo::EDGE_LIST, pigo::PIGO_COO_BIN, pigo::PIGO_CSR_BIN, pigo::PIGO_DIGRAPH_BIN, pigo::PIGO_TENSOR_BIN, pigo::GRAPH, pigo::AUTO};
        try { pigo::FileType t = type == 8 ? x.intype() : ts[type];
            switch (op) { case L_COO_EL: case L_COO_MM: case L_COO_CB: case L_COO_RB: case L_COO_GR: go<typename X::Coo>(p, t); break; case L_COO_SYM: go<typename X::Sym>(p, t); break;
                case L_CSR_EL: case L_CSR_MM: case L_CSR_GR: case L_CSR_RB: case L_CSR_CB: go<typename X::Csr>(p, t); break; case L_DIG_EL: case L_DIG_DB: case L_DIG_RB: go<typename X::Dig>(p, t); break;
                case L_MAT_EL: case L_MAT_MM: { auto* c = new typename X::Mat(p); c->free(); delete c; break; } case L_TNS_EL: case L_TNS_TB: go<typename X::Tns>(p, t); break; default: go<typename X::Gra>(p, t); }
            ok = true; } catch (pigo::Error&) {} catch (std::bad_alloc&) {}
        k.files("load of a damaged file"); if (ok) k.mem("load of a damaged file");
        omc::outcome(ok); omc::Quiet q; string().swap(p);
    }
};
// saving where no file can be created; freeing what is empty
template <class L, class O, int S, class W, bool wgt> struct Misc : omc::Suite {
    typedef Ops<L, O, S, W, wgt> X; X x; char nm[60]; int op, where, size;
    Misc() : Suite(nm) { snprintf(nm, sizeof nm, "misc_%s%s%s%s", tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    size_t count() override { return 7 * 4 * 3 + 12; }
    void prepare(size_t i) override { if (i >= 7 * 4 * 3) { op = -1 - (int)(i - 7 * 4 * 3); x.prepare(S_COO, 2, 0, 0); return; } op = i % 7; i /= 7; where = i % 4; size = i / 4; x.prepare(S_COO + op, size, 0, 0); mkdir(path("dir").c_str(), 0700); }
    string describe() override { return string(nm) + " op " + std::to_string(op) + " where " + std::to_string(where) + " size " + std::to_string(size); }
    void configs(std::vector<Config>& o) override { cfg_full(o, {1}); cfg_policy(o, {2, 3}); }
    template <class C> void empty() { { C c; c.free(); c.free(); } { C* c = new C(); delete c; } { C c; C d(c); d.free(); c.free(); d.free(); } }
    void body() override {
        static const char* ps[] = {"dir", "none/x", "", "dir/../dir/."}; string p; { omc::Quiet q; p = op < 0 ? "" : where == 2 ? string() : path(ps[where]); }
        Mark k; k.take(); bool ok = false;
        if (op < 0) { ok = true; switch (-1 - op) {
            case 0: empty<typename X::Coo>(); break; case 1: empty<typename X::Csr>(); break; case 2: empty<typename X::Tns>(); break; case 3: empty<typename X::Gra>(); break; case 4: empty<typename X::Sym>(); break;
            case 5: { auto* c = make_coo<typename X::Coo, wgt>(x.e, x.d); c->free(); typename X::Coo d; *c = d; c->free(); d = *c; d.free(); delete c; break; }
            case 6: { auto* c = x.mk_t(); c->free(); typename X::Tns d; *c = d; c->free(); d = *c; d.free(); delete c; break; }
            case 7: { auto* c = make_csr<typename X::Csr, wgt>(x.er, x.d); c->free(); c->free(); *c = typename X::Csr(); c->free(); delete c; break; }
            case 8: { auto* c = make_coo<typename X::Coo, wgt>(x.e, x.d); typename X::Dig g(*c); g.free(); g.free(); typename X::Mat m(*c); m.free(); m.free(); c->free(); delete c; break; }
            case 9: { typename X::Coo c(0, 0, 0, 0); c.free(); c.free(); typename X::Tns t(3, 0); t.free(); t.free(); typename X::Csr r(0, 0, 0, 0); r.free(); r.free(); break; }
            case 10: { auto* c = make_coo<typename X::Coo, wgt>(x.e, x.d); auto* d = make_coo<typename X::Coo, wgt>(x.er, x.d); for (int i = 0; i < 4; ++i) { *c = *d; *d = *c; *c = *c; typename X::Coo t(*c); t.free(); } c->free(); d->free(); delete c; delete d; break; }
            case 11: { auto* c = x.mk_t(); auto* d = x.mk_t(); for (int i = 0; i < 4; ++i) { *c = *d; *d = *c; *c = *c; typename X::Tns t(*c); t.free(); } c->free(); d->free(); delete c; delete d; break; }
        } } else {
            try { switch (S_COO + op) {
                case S_COO: case W_COO: { auto* c = make_coo<typename X::Coo, wgt>(x.e, x.d); try { op == 0 ? c->save(p) : c->write(p); } catch (...) { c->free(); delete c; throw; } c->free(); delete c; break; }
                case S_CSR: case S_CSR_F: { auto* c = make_csr<typename X::Csr, wgt>(x.er, x.d); try { if (S_COO + op == S_CSR) c->save(p); else { pigo::WFile f(p, c->save_size()); c->save(f); } } catch (...) { c->free(); delete c; throw; } c->free(); delete c; break; }
                case S_DIG: { auto* a = make_coo<typename X::Coo, wgt>(x.e, x.d); auto* c = new typename X::Dig(*a); a->free(); delete a; try { c->save(p); } catch (...) { c->free(); delete c; throw; } c->free(); delete c; break; }
                default: { auto* c = x.mk_t(); try { S_COO + op == S_TNS ? c->save(p) : c->write(p); } catch (...) { c->free(); delete c; throw; } c->free(); delete c; break; }
            } ok = true; } catch (pigo::Error&) {}
            if (ok && !x.e.empty()) omc::fail("saving to a place where no file can be reports success");
        }
        k.files("save"); k.mem(op < 0 ? "free" : "save"); { omc::Quiet q; string().swap(p); } omc::outcome(ok);
    }
};
#define LK(...) OMC_ADD(Leak<__VA_ARGS__>(0)); OMC_ADD(Leak<__VA_ARGS__>(1)); OMC_ADD(Refused<__VA_ARGS__>()); OMC_ADD(Misc<__VA_ARGS__>());
}
