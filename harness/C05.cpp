// C05 GRAPH files load each line as the row of its vertex
#include "graphfile.h"
#include "types.h"
#include "mat.h"
using namespace h;
namespace {
struct Base : omc::Suite {
    string text; std::unique_ptr<RefGraph> ref;
    Base(const char* n) : Suite(n) {}
    void set(const string& s) { text = s; put_file(path("in.graph"), s); ref.reset(new RefGraph(s)); }
    string describe() override { return esc(text, 900); }
    template <class L, class O, int S = PTR> void go() {
        typedef pigo::CSR<L, O, typename St<L, S>::t, typename St<O, S>::t> C;
        string p; { omc::Quiet q; p = path("in.graph"); }
        C* c = nullptr; bool refused = false;
        try { c = new C(p, pigo::GRAPH); } catch (pigo::Error&) { refused = true; } catch (std::exception& e) { omc::fail(string("foreign exception: ") + e.what()); }
        { omc::Quiet q; p = string(); omc::outcome(refused); if (refused && ref->ok) omc::fail("a file that agrees with its header is refused"); if (!refused && !ref->ok) omc::fail("a file that contradicts its header is loaded"); }
        if (refused) return;
        RefGraph& g = *ref; size_t first = g.zero ? 0 : 1;
        if ((ll)c->n() != g.n) omc::fail("n is " + std::to_string(c->n()) + " instead of " + std::to_string(g.n));
        if ((ll)c->m() != g.ints) omc::fail("m is " + std::to_string(c->m()) + " instead of " + std::to_string(g.ints));
        if ((ll)c->nrows() != g.n + (ll)first) omc::fail("nrows is " + std::to_string(c->nrows()) + " instead of " + std::to_string(g.n + first));
        if (g.ints && (ll)c->ncols() != g.maxl + 1) omc::fail("ncols is " + std::to_string(c->ncols()) + " instead of " + std::to_string(g.maxl + 1));
        const O* off = raw(c->offsets()); const L* ep = raw(c->endpoints());
        if (off[0] != 0 || (first && off[1] != 0)) omc::fail("the first offset is not zero");
        for (size_t r = 0; r < (size_t)g.n; ++r) {
            O a = off[r + first], b = off[r + first + 1]; size_t want = g.rows[r].size();
            if ((size_t)(b - a) != want) omc::fail("row " + std::to_string(r) + " has " + std::to_string((ll)b - (ll)a) + " endpoints instead of " + std::to_string(want));
            for (size_t k = 0; k < want; ++k) { L e = ep[a + k]; omc::outcome(e); if ((ll)e != g.rows[r][k]) omc::fail("row " + std::to_string(r) + ": endpoint " + std::to_string(k) + " is " + std::to_string(e) + " instead of " + std::to_string(g.rows[r][k])); }
            omc::outcome(b);
        }
        c->free(); delete c;
    }
    void body() override { go<uint32_t, uint32_t>(); }
};
const char* ROWS[] = {"\n", "1\n", "0\n", "2 1\n", "#c 3\n", " 2\t10 \r\n", "%\n", "1 1 3\n", " \n", "05 20\n"};
// every sequence of rows with headers that agree and headers that do not
struct Rows : Base {
    SeqEnum en; bool one; Rows(const char* n, bool o) : Base(n), en{0, 0, 0}, one(o) {}
    size_t count() override { en = one ? SeqEnum{omc::thorough() ? 9u : 6u, 0, omc::thorough() ? 4u : 3u} : SeqEnum{omc::thorough() ? 10u : 8u, 0, 3}; return en.count() * 2 * 9; }
    void prepare(size_t i) override {
        size_t v = i % 9, nl = i / 9 % 2; string b; static const int ONE[] = {0, 1, 3, 4, 5, 7, 6, 8, 1};
        for (int k : en.get(i / 18)) b += ROWS[one ? ONE[k] : k];
        if (nl && !b.empty()) b.pop_back();
        RefGraph r("1 1\n" + b); ll rows = 0; { RefGraph t("0 0\n" + b); rows = (ll)t.rows.size(); for (size_t k = 0; k < 1; ++k) {} }
        // r.rows is cut for refused files, so count the rows again
        rows = 0; { string cur; bool any = false; for (size_t k = 0; k < b.size(); ++k) { cur += b[k]; any = true; if (b[k] == '\n') { if (cur[0] != '#' && cur[0] != '%') ++rows; cur.clear(); any = false; } } if (any && cur[0] != '#' && cur[0] != '%' && !tokens(cur).empty()) ++rows; }
        ll n = rows + (ll)(v % 3) - 1; if (n < 0) n = rows + 2;
        ll m = v / 3 == 0 ? r.ints : v / 3 == 1 ? (r.ints % 2 == 0 ? r.ints / 2 : r.ints - 1) : r.ints + 1;
        set(std::to_string(n) + " " + std::to_string(m) + "\n" + b);
    }
    void configs(std::vector<Config>& o) override { cfg_full(o, {1, 2, 3}); if (omc::thorough() && text.size() < 16) cfg_full(o, {4}); }
};
OMC_ADD(Rows("rows", false));
OMC_ADD(Rows("rows_one", true));
// every string over an alphabet, with a matching header
struct Chars : Base {
    const char* A; SeqEnum en; Chars(const char* n, const char* a) : Base(n), A(a), en{0, 0, 0} {}
    size_t count() override { en = SeqEnum{strlen(A), 0, omc::thorough() ? 8u : 6u}; return en.count(); }
    void prepare(size_t i) override {
        string b; for (int k : en.get(i)) b += A[k];
        RefGraph r("0 0\n" + b); ll rows = 0, ints = 0; string cur; for (char c : b + "") { if (c == '\n') { if (cur.empty() || cur[0] != '#') ++rows; cur.clear(); } else cur += c; } if (!cur.empty() && cur[0] != '#' && !tokens(cur).empty()) ++rows; ints = r.ints;
        // drop comments that start inside of a line
        for (size_t k = 1; k < b.size(); ++k) if (b[k] == '#' && b[k - 1] != '\n') { size_t s = b.rfind('\n', k); s = s == string::npos ? 0 : s + 1; if (b[s] != '#') { b[k] = ' '; } }
        for (size_t k = 0; k < b.size();) { size_t j = k; while (j < b.size() && isdigit(b[j])) ++j; if (j - k > 1 && b.find_first_not_of('0', k) >= j) b[k] = '1'; k = j + 1; } // zero is spelled 0
        RefGraph r2("0 0\n" + b); ints = r2.ints; rows = 0; cur.clear(); for (char c : b) { if (c == '\n') { if (cur.empty() || cur[0] != '#') ++rows; cur.clear(); } else cur += c; } if (!cur.empty() && cur[0] != '#' && !tokens(cur).empty()) ++rows;
        set(std::to_string(rows) + " " + std::to_string(ints) + (i & 1 ? " \r\n" : "\n") + b);
    }
    void configs(std::vector<Config>& o) override { cfg_full(o, {2}); cfg_policy(o, {1, 3, 4, 5, 8}); if (omc::thorough()) cfg_full(o, {3}); }
};
OMC_ADD(Chars("chars", "1 \n0"));
OMC_ADD(Chars("chars_comment", "2\n#"));
// comments and blank lines before the header
struct Head : Base {
    Head() : Base("head") {}
    static const std::vector<string>& pre() { static std::vector<string> p = {"", "#c 5 5\n", "%\n", "\n", "  \n% 7\n\n", "# a\n# b 1\n", " "}; return p; }
    static const std::vector<string>& hd() { static std::vector<string> p = {"3 2\n", "3 2", " 3   2 \r\n", "3\t4\n", "3 2 7\n", "3 2\n#5 5\n", "3 2\n%\n%x\n", "4 2\n", "2 2\n", "3 3\n", "3 1\n"}; return p; }
    static const std::vector<string>& bd() { static std::vector<string> p = {"2\n1 3\n2\n", "2\n1 3\n2", "1\n0 2\n1\n", "\n2 3 1\n1", "1 2 3 1\n\n\n", "1 2 3 1\n\n", "\n\n3 3 3 3", "#x\n2\n#y\n1 3\n2\n#z", "2\n1 3\n2\n\n\n", "2\n1 3\n2\n4\n", ""}; return p; }
    size_t count() override { return pre().size() * hd().size() * bd().size(); }
    void prepare(size_t i) override { set(pre()[i % 7] + hd()[i / 7 % 11] + bd()[i / 77]); }
    void configs(std::vector<Config>& o) override { cfg_full(o, {1, 2, 3}); cfg_policy(o, {4, 5, 8}); }
};
OMC_ADD(Head);
// longer files shifted against the borders of the shares
struct Shift : Base {
    Shift() : Base("shift") {}
    size_t count() override { return omc::thorough() ? 800 : 200; }
    void prepare(size_t i) override {
        int k = i % 25, var = i / 25; string b; ll rows = 0, ints = 0;
        if (k) { b = "#"; while ((int)b.size() + 1 < k) b += (var & 1) ? '3' : ' '; b += '\n'; }
        for (int j = 0; j < 14 + var; ++j) {
            switch ((j * (var + 3) + var) % 7) {
                case 0: b += "\n"; ++rows; break;
                case 1: b += std::to_string(j + 1) + "\n"; ++rows; ++ints; break;
                case 2: b += "% 1 2\n"; break;
                case 3: b += " " + std::to_string(100000 + j) + "  7\t8 \r\n"; ++rows; ints += 3; break;
                case 4: b += ((var & 4) ? "0 12\n" : "10 12\n"); ++rows; ints += 2; break;
                case 5: b += "  \n"; ++rows; break;
                default: for (int q = 1; q <= j % 9; ++q) b += std::to_string(q * 11) + " ", ++ints; b += "\n"; ++rows;
            }
        }
        b += "5"; ++rows; ++ints; if (!(var & 2)) b += "\n";
        set(std::to_string(rows) + " " + std::to_string(ints) + "\n" + b);
    }
    void configs(std::vector<Config>& o) override { cfg_policy(o, {1, 2, 3, 4, 5, 6, 7, 8, 13}); if (text.size() < 200) cfg_bound(o, {2}, 1); }
};
OMC_ADD(Shift);

// narrow types: more endpoints than labels, sizes around the limits of the types
template <class L, class O, int S> struct Many : Base {
    char nm2[40];
    Many() : Base(nm2) { snprintf(nm2, sizeof nm2, "many_%s%s%s", tname<L>(), tname<O>(), sname(S)); }
    size_t count() override { return many_count(cap<O>()) * 3; }
    void prepare(size_t i) override {
        int v = i % 3; i /= 3; std::vector<Entry> e; Dims d; many_case(i, cap<O>(), e, d, cap<L>() - 3); if (e.size() > 9999 && i % 5 != 2) e.resize(1500);
        if (v == 2 && e.size() % 2) e.pop_back();
        std::stable_sort(e.begin(), e.end(), [](const Entry& a, const Entry& b) { return a.x < b.x; });
        if (i & 1) for (auto& k : e) if (!k.y) k.y = 1;
        string b; size_t k = 0; for (ll r = 0; r < d.n; ++r) { bool first = true; while (k < e.size() && e[k].x == r) { b += (first ? "" : k % 9 == 4 ? " \t" : " ") + std::to_string(e[k].y); first = false; ++k; } b += r % 17 == 3 ? " \r\n" : "\n"; if (r % 40 == 30) b += "% 7\n"; }
        if ((i & 2) && e.size() && e.back().x == d.n - 1) b.pop_back();
        set(std::to_string(d.n) + " " + std::to_string(v == 0 ? e.size() : v == 1 ? e.size() + 1 : e.size() / 2) + "\n" + b);
    }
    void configs(std::vector<Config>& o) override { if (text.size() > 40000) cfg_policy(o, {1, 4}); else cfg_policy(o, {1, 2, 3, 8}); }
    void body() override { go<L, O, S>(); }
};
OMC_ADD(Many<uint8_t, uint8_t, PTR>()) OMC_ADD(Many<uint8_t, uint16_t, VEC>()) OMC_ADD(Many<uint8_t, uint32_t, PTR>()) OMC_ADD(Many<uint16_t, uint8_t, SP>()) OMC_ADD(Many<uint16_t, uint64_t, PTR>()) OMC_ADD(Many<uint32_t, uint16_t, SP>()) OMC_ADD(Many<uint64_t, uint32_t, VEC>())
OMC_ADD(Many<int8_t, int8_t, PTR>()) OMC_ADD(Many<int, int, VEC>()) OMC_ADD(Many<int16_t, int64_t, SP>()) OMC_ADD(Many<int64_t, int8_t, PTR>()) OMC_ADD(Many<int8_t, uint32_t, PTR>())
}
