// Canonical results of every load, conversion and text output for one choice of types, storage and OpenMP.
// Everything is in an unnamed namespace: the unit compiled without OpenMP has its own PIGO (renamed with a macro).
#ifndef HARNESS_CONF_H
#define HARNESS_CONF_H
#include "../omc/omc.h"
#include "pigo.hpp"
#include <algorithm>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
enum ConfOp { X_COO, X_COO_SYM, X_COO_UT, X_COO_SL, X_COO_SYMUT, X_COO_ALL, X_CSR, X_DIG, X_MAT, X_GRA, X_COO_CSR, X_CSR_COO, X_SYM_CSR, X_TRANS, X_COPY, X_SORT, X_DEDUP, X_WRITE, X_RELOAD, X_RELOADCSR, X_RELOADDIG, X_TNS, X_TNSWRITE, X_TNSMAX, X_TNSRELOAD, X_OFFS, X_NBR, NXOP };
struct ConfVariant { const char* name; void (*run)(int op, const char* file, int type, std::string& out); ConfVariant* next; static ConfVariant*& head() { static ConfVariant* h; return h; } ConfVariant(const char* n, void (*r)(int, const char*, int, std::string&)) : name(n), run(r) { ConfVariant** p = &head(); while (*p) p = &(*p)->next; next = nullptr; *p = this; } };
namespace {
namespace cf {
using std::string;
template <class T> const T* raw(T* p) { return p; }
template <class T> const T* raw(const std::vector<T>& v) { return v.data(); }
template <class T> const T* raw(const std::shared_ptr<T>& v) { return v.get(); }
template <class T, int K> struct St { typedef T* t; };
template <class T> struct St<T, 1> { typedef std::vector<T> t; };
template <class T> struct St<T, 2> { typedef std::shared_ptr<T> t; };
template <class WS> double w_(WS& w, size_t k, std::true_type) { return (double)raw(w)[k]; }
template <class WS> double w_(WS&, size_t, std::false_type) { return 0; }
inline void num(string& o, double v) { char b[40]; snprintf(b, sizeof b, "%.9g ", v); o += b; }
template <bool wgt, class C> void coo(C& c, string& o) {
    omc::Quiet q; num(o, c.n()); num(o, c.nrows()); num(o, c.ncols()); num(o, c.m()); o += ":";
    for (size_t k = 0; k < (size_t)c.m(); ++k) { o += "("; num(o, raw(c.x())[k]); num(o, raw(c.y())[k]); num(o, w_(c.w(), k, std::integral_constant<bool, wgt>())); o += ")"; }
}
template <bool wgt, class C> void csr(C& c, string& o, bool order) {
    omc::Quiet q; num(o, c.n()); num(o, c.nrows()); num(o, c.ncols()); num(o, c.m()); o += ":"; size_t n = c.n(), m = c.m();
    for (size_t v = 0; v <= n; ++v) num(o, raw(c.offsets())[v]);
    for (size_t v = 0; v < n; ++v) { size_t a = raw(c.offsets())[v], b = raw(c.offsets())[v + 1]; std::vector<std::pair<double, double>> r; for (size_t k = a; k < b && k < m; ++k) r.push_back({(double)raw(c.endpoints())[k], w_(c.weights(), k, std::integral_constant<bool, wgt>())}); if (!order) std::sort(r.begin(), r.end()); o += "["; for (auto& p : r) { num(o, p.first); num(o, p.second); } o += "]"; }
}
template <bool wgt, class C> void tns(C& c, string& o) { omc::Quiet q; num(o, c.order()); num(o, c.m()); o += ":"; for (size_t k = 0; k < (size_t)c.m() * c.order(); ++k) num(o, raw(c.c())[k]); for (size_t k = 0; wgt && k < (size_t)c.m(); ++k) num(o, w_(c.w(), k, std::integral_constant<bool, wgt>())); }
inline string tmp(const char* n) { omc::Quiet q; return string(omc::dir()) + "/" + n; }
inline void slurp(const string& p, string& o) { omc::Quiet q; int fd = open(p.c_str(), O_RDONLY); char b[4096]; ssize_t r; while (fd >= 0 && (r = read(fd, b, sizeof b)) > 0) o.append(b, r); if (fd >= 0) close(fd); }
template <class L, class O, int S, class W, bool wgt> struct V {
    typedef typename St<L, S>::t LS; typedef typename St<O, S>::t OS; typedef typename St<W, S>::t WS;
    template <bool sym, bool ut, bool sl> using Coo = pigo::COO<L, O, LS, sym, ut, sl, wgt, W, WS>;
    typedef Coo<false, false, false> Plain;
    typedef pigo::CSR<L, O, LS, OS, wgt, W, WS> Csr;
    typedef pigo::BaseGraph<L, O, LS, OS, wgt, W, WS> Gra;
    typedef pigo::DiGraph<L, O, LS, OS, wgt, W, WS> Dig;
    typedef pigo::Matrix<L, O, LS, OS, wgt, W, WS> Mat;
    typedef pigo::Tensor<L, O, LS, W, WS, wgt> Tns;
    template <class C> static void lc(const string& p, pigo::FileType t, string& o) { C c(p, t); coo<wgt>(c, o); c.free(); }
    static void go(int op, const char* file, int ty, string& o) {
        string p = tmp(file), p2 = tmp("conf.out"); pigo::FileType t = (pigo::FileType)ty;
        try { go2(op, p, p2, t, o); }
        catch (pigo::NotYetImplemented&) { omc::Quiet q; o += "NotYetImplemented"; } catch (pigo::Error&) { omc::Quiet q; o += "Error"; } catch (std::exception& e) { omc::Quiet q; o += e.what(); }
        omc::Quiet q; string().swap(p); string().swap(p2);
    }
    static void go2(int op, const string& p, const string& p2, pigo::FileType t, string& o) {
        switch (op) {
            case X_COO: lc<Plain>(p, t, o); break; case X_COO_SYM: lc<Coo<true, false, false>>(p, t, o); break; case X_COO_UT: lc<Coo<false, true, false>>(p, t, o); break; case X_COO_SL: lc<Coo<false, false, true>>(p, t, o); break; case X_COO_SYMUT: lc<Coo<true, true, false>>(p, t, o); break; case X_COO_ALL: lc<Coo<true, false, true>>(p, t, o); break;
            case X_CSR: { Csr c(p, t); csr<wgt>(c, o, t == pigo::GRAPH); c.free(); break; }
            case X_DIG: { Dig c(p, t); csr<wgt>(c.out(), o, false); csr<wgt>(c.in(), o, false); c.free(); break; }
            case X_MAT: { Mat c(p); csr<wgt>(c.csr(), o, false); csr<wgt>(c.csc(), o, false); c.free(); break; }
            case X_GRA: { Gra c(p, t); csr<wgt>(c, o, t == pigo::GRAPH); c.free(); break; }
            case X_COO_CSR: { Csr r(p, t); r.sort(); Plain c(r); coo<wgt>(c, o); c.free(); r.free(); break; }
            case X_CSR_COO: { Plain c(p, t); Csr r(c); csr<wgt>(r, o, false); coo<wgt>(c, o); c.free(); r.free(); break; }
            case X_SYM_CSR: { Csr r(p, t); r.sort(); Coo<true, true, false> c(r); coo<wgt>(c, o); c.free(); r.free(); break; }
            case X_TRANS: { Plain c(p, t); c.transpose(); coo<wgt>(c, o); c.free(); break; }
            case X_COPY: { Plain c(p, t), d(c), e; e = d; d.transpose(); coo<wgt>(c, o); coo<wgt>(d, o); coo<wgt>(e, o); c.free(); d.free(); e.free(); break; }
            case X_SORT: { Csr r(p, t); r.sort(); csr<wgt>(r, o, true); r.free(); break; }
            case X_DEDUP: { Csr r(p, t); auto d = r.new_csr_without_dups(); csr<wgt>(d, o, true); r.free(); d.free(); break; }
            case X_WRITE: { Plain c(p, t); if (c.m()) { c.write(p2); slurp(p2, o); } c.free(); break; }
            case X_RELOAD: { Plain c(p, t); c.save(p2); c.free(); lc<Plain>(p2, pigo::AUTO, o); break; }
            case X_RELOADCSR: { Csr c(p, t); c.save(p2); c.free(); Csr d(p2); csr<wgt>(d, o, t == pigo::GRAPH); d.free(); break; }
            case X_RELOADDIG: { Dig c(p, t); c.save(p2); c.free(); Dig d(p2); csr<wgt>(d.in(), o, false); csr<wgt>(d.out(), o, false); d.free(); break; }
            case X_TNS: { Tns c(p, t); tns<wgt>(c, o); c.free(); break; }
            case X_TNSWRITE: { Tns c(p, t); if (c.m()) { c.write(p2); slurp(p2, o); } c.free(); break; }
            case X_TNSMAX: { Tns c(p, t); auto v = c.max_labels(); { omc::Quiet q; for (L k : v) num(o, k); } c.free(); break; }
            case X_TNSRELOAD: { Tns c(p, t); c.save(p2); c.free(); Tns d(p2); tns<wgt>(d, o); d.free(); break; }
            case X_OFFS: { pigo::ROFile f(p); auto r = f.reader(); typedef pigo::Tensor<L, O, LS, W, WS, false> T; T x = r.template find_offsets<T>('1'); tns<false>(x, o); x.free(); break; }
            case X_NBR: { Gra c(p, t); size_t n = c.n(); for (size_t v = 0; v < n; ++v) { { omc::Quiet q; num(o, c.degree(v)); } double s = 0; for (auto u : c.neighbors(v)) s += u + 1; omc::Quiet q; num(o, s); } c.free(); break; }
        }
    }
};
}
#define CONF(N, ...) static ConfVariant OMC_CATX(cv_, __COUNTER__)(N, &cf::V<__VA_ARGS__>::go);
#define OMC_CATX(a, b) OMC_CATX2(a, b)
#define OMC_CATX2(a, b) a##b
}
#endif
