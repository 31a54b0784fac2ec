// C20 failing file and memory operations surface as errors: every call that may fail fails once (thorough: and twice)
#include "ops.h"
namespace {
using namespace h;
template <class L, class O, int S, class W, bool wgt> struct Fault : omc::Suite {
    typedef Ops<L, O, S, W, wgt> X; X x, other; char nm[60]; int kind, op, size, how;
    Fault(int k) : Suite(nm), kind(k) { faults = k == 2 ? 2 : omc::thorough() ? 2 : 1; snprintf(nm, sizeof nm, "%s_%s%s%s%s", k == 2 ? "pairs" : k ? "team" : "one", tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    size_t nsz() { return kind == 0 ? 4 : kind == 1 ? 2 : 1; }
    size_t count() override { faults = kind == 2 || omc::thorough() ? 2 : 1; return (size_t)NOPID * nsz() * 4; }
    void prepare(size_t i) override {
        op = i % NOPID; i /= NOPID; size = kind == 1 ? 1 + i % 2 : kind == 2 ? 2 : i % 4; i /= nsz(); how = i % 4;
        other.prepare(L_COO_EL, 1, 0, 0); x.prepare(op, size, how, 0); if ((op > L_GRA_RB && how > 1)) x.skip = true;
        put_file(path("other.el"), "0 1 2\n");
    }
    string describe() override { return string(nm) + ": " + opname(op) + " size " + std::to_string(size) + " how " + std::to_string(how); }
    void configs(std::vector<Config>& o) override { if (x.skip) return; if (kind == 0 && size < 3) { cfg_full(o, {1}); cfg_policy(o, {3}); } else if (kind == 0) cfg_policy(o, {1, 2, 4}); else if (kind == 1 && size == 1) cfg_full(o, {2}); else cfg_policy(o, {2}); }
    void body() override {
        x.off = false;
        for (int round = 0; round < 2; ++round) {
            bool ok = false;
            try { x.run(); ok = true; } catch (pigo::Error&) {} catch (std::bad_alloc&) {}
            catch (std::exception& e) { omc::fail(string(opname(op)) + " throws something else: " + e.what()); }
            omc::omc_set_fault_window(0);
            if (!ok && (round || !omc::omc_fault_fired())) omc::fail(string(opname(op)) + (round ? " fails after an earlier failure" : " fails"));
            omc::outcome(ok);
            if (ok || round) break;
            // other files and containers still work, then the same again
            string p; { omc::Quiet q; p = path("other.el"); }
            try { pigo::COO<> c(p); if (c.m() != 1 || c.x()[0] != 0 || c.y()[0] != 1) omc::fail("another file loads wrongly after a failure"); c.free(); } catch (std::exception& e) { omc::fail(string("another file fails to load after a failure: ") + e.what()); }
            omc::Quiet q; string().swap(p);
            x.off = true;
        }
    }
};
// the same failures, provoked by the real environment
enum { E_NONE, E_DIR, E_NODIR, E_EMPTYNAME, E_EMPTY, E_LOOP, E_LONG, E_NOTDIR, E_NULL, NENV };
template <class L, class O, int S, class W, bool wgt> struct Env : omc::Suite {
    typedef Ops<L, O, S, W, wgt> X; X x; char nm[60]; int op, env, how;
    Env() : Suite(nm) { snprintf(nm, sizeof nm, "environment_%s%s%s%s", tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    size_t count() override { return (size_t)(W_TNS + 1) * NENV * 4; }
    void prepare(size_t i) override { op = i % (W_TNS + 1); i /= W_TNS + 1; env = i % NENV; how = i / NENV; x.prepare(op, 2, how, 0); mkdir(path("dir").c_str(), 0700); put_file(path("file"), "x"); put_file(path("zero"), ""); unlink(path("loop").c_str()); if (symlink("loop", path("loop").c_str())) {} unlink(path("gone").c_str()); }
    string describe() override { return string(nm) + ": " + opname(op) + " environment " + std::to_string(env) + " how " + std::to_string(how); }
    void configs(std::vector<Config>& o) override { if (op == L_MAT_EL || op == L_MAT_MM || op < S_COO || how < 2) { cfg_full(o, {1}); cfg_policy(o, {2}); } }
    template <class C> void load(const string& p) { C* c; if (how == 0) c = new C(p); else if (how == 1) c = new C(p, x.intype()); else if (how == 2) { pigo::File f(p, pigo::READ); c = new C(f, x.intype()); } else { pigo::ROFile f(p); c = new C(f, pigo::AUTO); } c->free(); delete c; }
    template <class C, class F> void sv(C* c, F f) { try { f(); } catch (...) { c->free(); delete c; throw; } c->free(); delete c; }
    void body() override {
        string p; { omc::Quiet q; switch (env) { case E_NONE: p = path("gone"); break; case E_DIR: p = path("dir"); break; case E_NODIR: p = path("nowhere/f"); break; case E_EMPTYNAME: break; case E_EMPTY: p = path("zero"); break; case E_LOOP: p = path("loop"); break; case E_LONG: p = path("n") + string(300, 'n'); break; case E_NOTDIR: p = path("file/f"); break; case E_NULL: p = "/dev/null"; break; } }
        bool save = op >= S_COO, ok = false, want = save && (env == E_NONE || env == E_EMPTY); // a new or empty file can be written
        try {
            switch (op) {
                case L_COO_EL: case L_COO_MM: case L_COO_CB: case L_COO_RB: case L_COO_GR: load<typename X::Coo>(p); break; case L_COO_SYM: load<typename X::Sym>(p); break;
                case L_CSR_EL: case L_CSR_MM: case L_CSR_GR: case L_CSR_RB: case L_CSR_CB: load<typename X::Csr>(p); break; case L_DIG_EL: case L_DIG_DB: case L_DIG_RB: load<typename X::Dig>(p); break;
                case L_MAT_EL: case L_MAT_MM: { auto* c = new typename X::Mat(p); c->free(); delete c; break; } case L_TNS_EL: case L_TNS_TB: load<typename X::Tns>(p); break; case L_GRA_EL: case L_GRA_RB: load<typename X::Gra>(p); break;
                case S_COO: case W_COO: { auto* c = make_coo<typename X::Coo, wgt>(x.e, x.d); sv(c, [&] { op == S_COO ? c->save(p) : c->write(p); }); break; }
                case S_CSR: case S_CSR_F: { auto* c = make_csr<typename X::Csr, wgt>(x.er, x.d); sv(c, [&] { if (op == S_CSR) c->save(p); else { pigo::WFile f(p, c->save_size()); c->save(f); } }); break; }
                case S_DIG: { auto* a = make_coo<typename X::Coo, wgt>(x.e, x.d); auto* c = new typename X::Dig(*a); a->free(); delete a; sv(c, [&] { c->save(p); }); break; }
                default: { auto* c = x.mk_t(); sv(c, [&] { op == S_TNS ? c->save(p) : c->write(p); }); break; }
            }
            ok = true;
        } catch (pigo::Error&) {} catch (std::bad_alloc&) {} catch (std::exception& e) { omc::fail(string(opname(op)) + " throws something else: " + e.what()); }
        if (ok && !want) omc::fail(string(opname(op)) + " reports success on what is no file");
        if (!ok && want) omc::fail(string(opname(op)) + " fails");
        omc::outcome(ok); omc::Quiet q; string().swap(p);
    }
};
#define FT(...) OMC_ADD(Fault<__VA_ARGS__>(0)); OMC_ADD(Fault<__VA_ARGS__>(1)); OMC_ADD(Fault<__VA_ARGS__>(2)); OMC_ADD(Env<__VA_ARGS__>());
}
