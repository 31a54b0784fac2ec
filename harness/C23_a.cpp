// C23 results do not depend on storage, widths and OpenMP: every input is loaded by the reference choice and by every other
#include "conf.h"
#include "mat.h"
namespace {
using namespace h;
CONF("u32p reference", uint32_t, uint32_t, 0, float, true)
struct Same : omc::Suite {
    char nm[40]; int form; std::vector<string> P; SeqEnum en{0, 0, 0}; string text; int op, var, type; const char* fn;
    Same(int f) : Suite(nm), form(f) {
        static const char* n[] = {"edges", "matrix_market", "graph", "tensor"}; snprintf(nm, sizeof nm, "%s", n[f]);
        if (f == 0) P = {"1 2 3", "0 0 1", "# 9 9", "", "  7 8 2.5 ", "2 1 1e1\r", "60\t4 9 x", "1 2 0"};
        else if (f == 1) P = {"1 2 3", "3 3 1", "% 9 9", "", "  3 1 2.5 ", "2 1 1e1\r", "2\t1 9 x", "1 2 0"};
        else if (f == 2) P = {"1 2", "0", "# 9", "", " 2 ", "3 1\r", "1\t1"};
        else P = {"1 2 3", "0 0 1", "# 9 9", "", "  7 8 2.5 ", "2 1 1e1\r", "60\t4 9 "};
    }
    static int nvar() { int k = 0; for (ConfVariant* v = ConfVariant::head(); v; v = v->next) ++k; return k; }
    static ConfVariant* variant(int k) { ConfVariant* v = ConfVariant::head(); while (k--) v = v->next; return v; }
    static int reference() { int k = 0; for (ConfVariant* v = ConfVariant::head(); v; v = v->next, ++k) if (strstr(v->name, "reference")) return k; return 0; }
    static bool narrow(int k) { return strstr(variant(k)->name, " u8 "); } // ordinals of one byte
    static bool weighted(int k) { return !strstr(variant(k)->name, "unweighted"); }
    int nops() { return form == 3 ? 5 : X_TNS + 1; }
    size_t count() override { en = SeqEnum{P.size(), 0, omc::thorough() ? 4u : 3u}; return en.count() * 2 * nops(); }
    void prepare(size_t i) override {
        op = i % nops(); i /= nops(); op = form == 3 ? (op == 4 ? X_OFFS : X_TNS + op) : op == X_TNS ? X_NBR : op; int nl = i % 2; i /= 2; auto v = en.get(i); text.clear(); size_t m = 0, rows = 0, ints = 0;
        for (size_t k = 0; k < v.size(); ++k) { text += P[v[k]]; if (k + 1 < v.size() || nl) text += "\n"; const string& s = P[v[k]]; bool c = !s.empty() && (s[0] == '#' || s[0] == '%'); if (!c) { ++rows; if (!s.empty()) ++m; bool in = false; for (char ch : s) { bool d = ch >= '0' && ch <= '9'; if (d && !in) ++ints; in = d; } } }
        if (form == 1) text = "%%MatrixMarket matrix coordinate real general\n3 3 " + std::to_string(m) + "\n" + text;
        if (form == 2) { if (!nl && !v.empty() && P[v.back()].empty()) --rows; text = std::to_string(rows) + " " + std::to_string(ints) + "\n" + text; }
        if (text.empty()) text = "\n";
        fn = form == 1 ? "in.mtx" : form == 2 ? "in.graph" : "in.el"; type = form == 1 ? pigo::MATRIX_MARKET : form == 2 ? pigo::GRAPH : pigo::EDGE_LIST; put_file(path(fn), text);
    }
    string describe() override { return string(nm) + " op " + std::to_string(op) + " " + esc(text); }
    void configs(std::vector<Config>& o) override { if (form == 0 && text.size() < 7) cfg_bound(o, {2}, 1); cfg_policy(o, {1, 2, 3}, false); }
    bool wide = false; // more entries than one byte counts
    void body() override {
        int r = reference(), n = nvar(); string w, u; bool hw = false, hu = false; (void)r;
        // the first weighted and the first unweighted variant are the references of their kind
        auto take = [&](int k) { string s; variant(k)->run(op, fn, type, s);
            omc::Quiet q; bool wt = weighted(k); string& ref = wt ? w : u; bool& have = wt ? hw : hu; 
            if (!have) { ref = s; have = true; omc::outcome_bytes(s); } else if (s != ref) omc::fail(string(variant(k)->name) + " gives " + s + " instead of " + ref); string().swap(s); };
        take(r); for (int k = 0; k < n; ++k) if (k != r && !(wide && narrow(k))) take(k);
        omc::Quiet q; string().swap(w); string().swap(u);
    }
};
// many entries: every variant whose ordinals can count them
struct Long : Same {
    size_t lines_ = 0;
    Long(int f) : Same(f) { static const char* n[] = {"long_edges", "long_matrix_market", "long_graph", "long_tensor"}; snprintf(nm, sizeof nm, "%s", n[f]); }
    size_t count() override { return 5 * (omc::thorough() ? 9 : 4) * nops(); }
    void prepare(size_t i) override {
        static const size_t sz[] = {120, 127, 300, 600, 64, 128, 255, 257, 1300};
        op = i % nops(); i /= nops(); op = form == 3 ? X_TNS + op % 4 : op == X_TNS ? X_NBR : op;
        std::vector<Entry> e; Dims d; many_case(i % 5, ~0ull, e, d); lines_ = sz[i / 5]; while (e.size() < lines_) { Entry k = e[e.size() * 7 % 90]; k.y = (k.y + (ll)e.size()) % 200; e.push_back(k); } e.resize(lines_); wide = lines_ > 127; text.clear();
        for (auto& k : e) { if (k.x > 199) k.x = 199; if (k.y > 199) k.y = 199; if (form == 1) { ++k.x; ++k.y; } }
        if (form == 2) { std::stable_sort(e.begin(), e.end(), [](const Entry& a, const Entry& b) { return a.x < b.x; }); text = "200 " + std::to_string(e.size()) + "\n"; size_t q = 0; for (ll r = 0; r < 200; ++r) { while (q < e.size() && e[q].x == r) text += std::to_string(e[q++].y) + " "; text += "\n"; } }
        else { size_t q = 0; if (form == 1) text = "%%MatrixMarket matrix coordinate real general\n200 200 " + std::to_string(e.size()) + "\n"; for (auto& k : e) { ++q; text += std::to_string(k.x) + (q % 7 ? " " : "  ") + std::to_string(k.y) + " " + std::to_string((ll)k.w) + (q % 9 ? "\n" : "\r\n"); if (q % 40 == 7) text += "# 1 1 1\n"; } }
        fn = form == 1 ? "in.mtx" : form == 2 ? "in.graph" : "in.el"; type = form == 1 ? pigo::MATRIX_MARKET : form == 2 ? pigo::GRAPH : pigo::EDGE_LIST; put_file(path(fn), text);
    }
    string describe() override { return string(nm) + " op " + std::to_string(op) + " " + esc(text); }
    void configs(std::vector<Config>& o) override { cfg_policy(o, {1, 2, 3}, false); }
};
OMC_ADD(Long(0)) OMC_ADD(Long(1)) OMC_ADD(Long(2)) OMC_ADD(Long(3))
OMC_ADD(Same(0)) OMC_ADD(Same(1)) OMC_ADD(Same(2)) OMC_ADD(Same(3))
}
