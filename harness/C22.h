// C22 automatic file type detection: every (contents, name, loader, way of loading) of a grid, against the explicit type
#include "text.h"
#include "bin.h"
#include <sys/stat.h>
namespace {
using namespace h;
struct Content { const char* what; string s; int kind; }; // kind: 0 text, 1 refused, otherwise the binary type
enum { TEXT, REFUSED, BCOO, BCSR, BDIG, BTNS };
inline void result_arrays(string& r, const std::vector<Entry>& e) { r += show(e); }
template <class L, class O, int S, class W, bool wgt> struct Lib {
    typedef pigo::COO<L, O, typename St<L, S>::t, false, false, false, wgt, W, typename St<W, S>::t> Coo;
    typedef pigo::COO<L, O, typename St<L, S>::t, true, false, false, wgt, W, typename St<W, S>::t> SymCoo;
    typedef pigo::CSR<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> Csr;
    typedef pigo::BaseGraph<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> Gra;
    typedef pigo::DiGraph<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> Dig;
    typedef pigo::Tensor<L, O, typename St<L, S>::t, W, typename St<W, S>::t, wgt> Tns;
    static string sizes(Dims d, size_t m) { return std::to_string(d.n) + "," + std::to_string(d.nrows) + "," + std::to_string(d.ncols) + "," + std::to_string(m) + ":"; }
    template <class C> static string coo(C& c) { omc::Quiet q; string r = sizes(dims_of(c), c.m()); std::vector<Entry> e; for (size_t k = 0; k < (size_t)c.m(); ++k) e.push_back(Entry{(ll)raw(c.x())[k], (ll)raw(c.y())[k], getw(c.w(), k, std::integral_constant<bool, wgt>())}); return r + show(e, 0); }
    static string show(const std::vector<Entry>& e, int) { string r; char b[80]; for (auto& k : e) { snprintf(b, sizeof b, "(%lld,%lld,%.9g)", k.x, k.y, k.w); r += b; } return r; }
    // rows may come in any order
    template <class C> static string csr(C& c) {
        omc::Quiet q; string r = sizes(dims_of(c), c.m()); size_t n = c.n(); auto o = raw(c.offsets()); if ((size_t)o[n] > (size_t)c.m()) return r + "offsets beyond m";
        for (size_t v = 0; v <= n; ++v) r += std::to_string(o[v]) + ";"; std::vector<Entry> e; 
        for (size_t k = 0; k < (size_t)c.m(); ++k) { size_t v = 0; while (v < n && (size_t)o[v + 1] <= k) ++v; e.push_back(Entry{(ll)v, (ll)raw(c.endpoints())[k], getw(c.weights(), k, std::integral_constant<bool, wgt>())}); }
        std::sort(e.begin(), e.end()); return r + show(e, 0);
    }
    static string get(Coo& c) { return coo(c); }
    static string get(SymCoo& c) { return coo(c); }
    static string get(Csr& c) { return csr(c); }
    static string get(Gra& c) { return csr(c); }
    static string get(Dig& c) { string a = csr(c.out()), b = csr(c.in()); omc::Quiet q; string r = a + "|" + b; string().swap(a); string().swap(b); return r; }
    static string get(Tns& c) { omc::Quiet q; string r = std::to_string(c.order()) + "," + std::to_string(c.m()) + ":"; for (size_t k = 0; k < (size_t)c.m() * c.order(); ++k) r += std::to_string(raw(c.c())[k]) + " "; for (size_t k = 0; wgt && k < (size_t)c.m(); ++k) r += std::to_string(getw(c.w(), k, std::integral_constant<bool, wgt>())) + " "; return r; }
    // the result of a load as text; explicitly: with the type
    template <class C> static string load(const string& p, int how, bool named, pigo::FileType t) {
        string r; C* c = nullptr;
        try {
            if (how == 0) c = named ? new C(p, t) : new C(p);
            else if (how == 1) c = new C(p, named ? t : pigo::AUTO);
            else { pigo::File f(p, pigo::READ); if (how == 3) f.seek(7); c = new C(f, named ? t : pigo::AUTO); }
        }
        catch (pigo::NotYetImplemented&) { omc::Quiet q; r = "NotYetImplemented"; }
        catch (pigo::Error&) { omc::Quiet q; r = "Error"; }
        catch (std::exception& e) { omc::Quiet q; r = string("std: ") + e.what(); }
        if (c) { r = get(*c); c->free(); delete c; }
        return r;
    }
    static string run(int loader, const string& p, int how, bool named, pigo::FileType t) {
        switch (loader) { case 0: return load<Coo>(p, how, named, t); case 1: return load<Csr>(p, how, named, t); case 2: return load<Dig>(p, how, named, t); case 3: return load<Tns>(p, how, named, t); case 4: return load<Gra>(p, how, named, t); default: return load<SymCoo>(p, how, named, t); }
    }
};
const char* NAMES[] = {"a", "a.mtx", "a.graph", "a.el", "a.mtx.graph", "a.graph.mtx", ".mtx", ".graph", "mtx", "graph", "a.MTX", "a.Graph", "a.mtxx", "a.graphs", "a.mtx ", "m.mtx/f", "g.graph/f", "a_mtx", "agraph", "x.tx", "PIGO-COO-v1.mtx", "a.mtx.", "b.gr.aph", "a.coo.bin", "g.graph/f.mtx"};
enum { NN = sizeof NAMES / sizeof *NAMES };
inline bool ends(const string& s, const char* e) { size_t n = strlen(e); return s.size() >= n && s.substr(s.size() - n) == e; }
template <class L, class O, int S, class W, bool wgt> struct Auto : omc::Suite {
    typedef Lib<L, O, S, W, wgt> B;
    char nm[60]; std::vector<Content> cs; int name, loader, how; const Content* ct; pigo::FileType want; bool refused; string pth;
    Auto() : Suite(nm) { snprintf(nm, sizeof nm, "auto_%s%s%s%s", tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    void add(const char* w, const string& s, int k) { cs.push_back(Content{w, s, k}); }
    void make() {
        if (!cs.empty()) return;
        std::vector<Entry> e{{0, 1, 3}, {1, 2, 1}, {2, 0, 2}}; if (!wgt) zero_w(e); Dims d{3, 3, 3};
        string c = coo_bin<L, O, W>(e, d, wgt), r = csr_bin<L, O, W>(e, d, wgt), g = digraph_bin<L, O, W>(e, d, wgt), t = tensor_bin<L, O, W>({{{1, 2}, wgt ? 5. : 0}, {{3, 4}, wgt ? 6. : 0}}, 2, wgt);
        add("COO", c, BCOO); add("CSR", r, BCSR); add("DiGraph", g, BDIG); add("Tensor", t, BTNS);
        add("COO cut", c.substr(0, 20), BCOO); add("CSR header only", r.substr(0, 11), BCSR); add("DiGraph cut", g.substr(0, g.size() - 1), BDIG); add("Tensor header only", t.substr(0, 13), BTNS);
        const string hs[] = {"PIGO-COO-v1", "PIGO-CSR-v2", "PIGO-DiGraph-v1", "PIGO-Tensor-2"}; const string* full[] = {&c, &r, &g, &t};
        for (int k = 0; k < 4; ++k) for (size_t p = 0; p < hs[k].size(); ++p) {
            string s = *full[k]; s[p] = s[p] == '1' ? '2' : s[p] == '2' ? '1' : s[p] ^ 0x20; if (s[p] == '\n' || s[p] == '\r') s[p] = '_';
            add("changed header", s, p < 4 ? TEXT : REFUSED);
            if (p) add("cut header", hs[k].substr(0, p), p < 4 ? TEXT : REFUSED);
        }
        add("PIGO text", "PIGO\n1 2\n", REFUSED); add("PIGO and space", "PIGO 1 2\n", REFUSED); add("later", " PIGO-COO-v1", TEXT); add("later line", "1 2 3\nPIGO-CSR-v2", TEXT); add("COO-v1", "COO-v1", TEXT);
        add("versions", "PIGO-COO-v2" + c.substr(11), REFUSED); add("versions", "PIGO-CSR-v1" + r.substr(11), REFUSED); add("versions", "PIGO-DiGraph-v2" + g.substr(15), REFUSED); add("versions", "PIGO-Tensor-1" + t.substr(13), REFUSED); add("versions", "PIGO-COO-v0", REFUSED); add("versions", "PIGO-CSR-v9", REFUSED); add("bare", "PIGO", REFUSED);
        add("edges", "0 1 3\n1 2 4\n2 2 5\n", TEXT); add("square", "3 3 4\n1 2 3\n2 1 4\n", TEXT);
        add("mm", "%%MatrixMarket matrix coordinate real general\n3 3 2\n1 2 5\n3 3 1\n", TEXT); add("mm bad", "%%MatrixMarket matrix coordinate real general\n3 3 3\n1 2 5\n3 3 1\n", TEXT); add("mm array", "%%MatrixMarket matrix array real general\n3 3 2\n1 2 5\n", TEXT);
        add("graph", "3 2\n2\n1 3\n2\n", TEXT); add("graph zero", "2 1\n1\n0\n", TEXT); add("graph bad", "3 7\n2\n1 3\n2\n", TEXT); add("any", "2 2 1\n1 2 1\n", TEXT); add("newline", "\n", TEXT); add("comment", "%%MatrixMarket", TEXT); add("letters", "abc", TEXT);
        for (auto& k : cs) k.s = string("PIGO-CS") + k.s; // for loads inside the file
    }
    size_t count() override { make(); return cs.size() * NN * 6; }
    void prepare(size_t i) override {
        make(); loader = i % 6; i /= 6; name = i % NN; i /= NN; ct = &cs[i]; how = (i + name) % 4;
        string n = NAMES[name]; mkdir(path("m.mtx").c_str(), 0700); mkdir(path("g.graph").c_str(), 0700);
        pth = path(NAMES[name]); put_file(pth, how == 3 ? ct->s : ct->s.substr(7));
        refused = ct->kind == REFUSED;
        want = ct->kind == BCOO ? pigo::PIGO_COO_BIN : ct->kind == BCSR ? pigo::PIGO_CSR_BIN : ct->kind == BDIG ? pigo::PIGO_DIGRAPH_BIN : ct->kind == BTNS ? pigo::PIGO_TENSOR_BIN : ends(n, ".mtx") ? pigo::MATRIX_MARKET : ends(n, ".graph") ? pigo::GRAPH : pigo::EDGE_LIST;
    }
    string describe() override { return string(nm) + " file '" + NAMES[name] + "' (" + ct->what + ") loader=" + std::to_string(loader) + " how=" + std::to_string(how) + " " + esc(ct->s.substr(7), 60); }
    void configs(std::vector<Config>& o) override { if (loader == 0) cfg_full(o, {1, 2}); else cfg_policy(o, {1, 2}); cfg_policy(o, {3}); }
    void body() override {
        string p; { omc::Quiet q; p = pth; }
        {
            pigo::File f(p, pigo::READ); if (how == 3) f.seek(7); auto at = f.fp();
            int got = -1; try { got = f.guess_file_type(); } catch (pigo::Error&) {}
            if (f.fp() != at) omc::fail("detection moves the cursor");
            if (got != (refused ? -1 : (int)want)) omc::fail("the detected type is " + std::to_string(got) + " instead of " + std::to_string(refused ? -1 : (int)want));
        }
        string a = B::run(loader, p, how, false, want);
        if (refused) { if (a != "Error") omc::fail("a file that starts with PIGO but no known header gives: " + a); }
        else {
            string b = B::run(loader, p, how, true, want);
            if (a != b) omc::fail("without the type: " + a + " with the type: " + b);
            omc::Quiet q; string().swap(b);
        }
        omc::Quiet q; omc::outcome_bytes(a); string().swap(a); string().swap(p);
    }
};
}
