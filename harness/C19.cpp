// C19 FileReader movement and find_offsets follow the text
#include "types.h"
#include "el.h"
using namespace h;
namespace {
typedef unsigned char uc;
inline bool dig(char c) { return c >= '0' && c <= '9'; }
inline bool fpc(char c) { return dig(c) || c == 'e' || c == 'E' || c == '-' || c == '+' || c == '.'; }
inline bool com(char c) { return c == '#' || c == '%'; }
// the reference: positions in a string
struct Ref {
    const string& s; size_t e;   // e: one beyond the last character
    size_t comments(size_t p) const { while (p < e && com(s[p])) { while (p < e && s[p] != '\n') ++p; if (p < e) ++p; } return p; }
    size_t first_int(size_t p) const { for (;;) { if (p >= e || dig(s[p])) return p; if (com(s[p])) p = comments(p); else ++p; } }
    size_t non_int(size_t p) const { while (p < e && dig(s[p])) ++p; return p; }
    size_t non_fp(size_t p) const { while (p < e && fpc(s[p])) ++p; return p; }
    size_t fp(size_t p) const { while (p < e && !fpc(s[p])) ++p; return p; }
    size_t next_int(size_t p) const { return first_int(non_int(p)); }
    size_t next_signed(size_t p) const { if (p < e && (s[p] == '+' || s[p] == '-')) ++p; p = non_int(p); for (;;) { if (p >= e || dig(s[p]) || s[p] == '+' || s[p] == '-') return p; if (com(s[p])) p = comments(p); else ++p; } }
    size_t eol(size_t p) const { while (p < e && s[p] != '\n') ++p; return p; }
    size_t next_line(size_t p) const { p = eol(p); if (p < e) ++p; return comments(p); }
    size_t to(size_t p, char c) const { if (p < e && s[p] == c) ++p; while (p < e && s[p] != c) ++p; return p; }
    size_t int_or_nl(size_t p) const {
        if (p < e && dig(s[p])) { p = non_int(p); if (p < e && s[p] == '\n') return p; }
        else if (p < e && s[p] == '\n') ++p;
        while (p < e && !dig(s[p]) && s[p] != '\n') {
            if (com(s[p])) { size_t q = comments(p); return q > 0 && s[q - 1] == '\n' ? q - 1 : q; } // consecutive comment lines are one
            ++p;
        }
        return p;
    }
    // the numbers in the line from p; false unless it consists of complete numbers and blanks (and a comment)
    bool numbers(size_t p, size_t& n) const {
        n = 0; size_t q = p; while (q < e && s[q] != '\n' && !com(s[q])) ++q;
        while (p < q) {
            if (s[p] == ' ' || s[p] == '\r') { ++p; continue; }
            size_t k = p; if (s[k] == '-' || s[k] == '+') ++k;
            size_t d0 = k; while (k < q && dig(s[k])) ++k; if (k == d0) return false;
            if (k < q && s[k] == '.') { ++k; while (k < q && dig(s[k])) ++k; }
            if (k < q && s[k] == 'e') { ++k; if (k < q && (s[k] == '-' || s[k] == '+')) ++k; size_t x = k; while (k < q && dig(s[k])) ++k; if (k == x) return false; }
            if (k < q && s[k] != ' ' && s[k] != '\r') return false;
            ++n; p = k;
        }
        return true;
    }
    // the number at p (after other characters), if it is well-formed and nothing that belongs to numbers follows
    bool number(size_t p, size_t& endp, double& v) const {
        p = fp(p); size_t b = p, k = p; if (k < e && (s[k] == '-' || s[k] == '+')) ++k;
        size_t d0 = k; while (k < e && dig(s[k])) ++k; size_t nd = k - d0;
        if (k < e && s[k] == '.') { ++k; size_t f = k; while (k < e && dig(s[k])) ++k; nd += k - f; }
        if (!nd) return false;
        if (k < e && s[k] == 'e') { ++k; if (k < e && (s[k] == '-' || s[k] == '+')) ++k; size_t x = k; while (k < e && dig(s[k])) ++k; if (k == x || k - x > 2) return false; }
        if (k < e && fpc(s[k])) return false;
        endp = k; v = strtod(s.substr(b, k - b).c_str(), nullptr); return true;
    }
};
struct Moves : omc::Suite {
    const char* A; size_t lo, hi; SeqEnum en{0, 0, 0}; string s; char nm[40]; size_t per; std::vector<string> batch;
    Moves(const char* n, const char* a, size_t l, size_t hh) : Suite(nm), A(a), lo(l), hi(hh), per(16) { snprintf(nm, sizeof nm, "moves_%s", n); }
    size_t count() override { en = SeqEnum{strlen(A), lo, hi + (omc::thorough() ? 1 : 0)}; return (en.count() + per - 1) / per; }
    void prepare(size_t i) override { batch.clear(); for (size_t k = i * per; k < std::min(en.count(), (i + 1) * per); ++k) { s.clear(); for (int c : en.get(k)) s += A[c]; batch.push_back(s); } }
    string describe() override { return string(nm) + " " + esc(batch.front()) + " .. " + esc(batch.back()); }
    void configs(std::vector<Config>& o) override { cfg_full(o, {1}); }
    [[noreturn]] void bad(const char* what, const string& t, size_t p, size_t e, size_t got, size_t want) { omc::fail(string(what) + " on " + esc(t) + " from " + std::to_string(p) + " (end " + std::to_string(e) + "): got " + std::to_string(got) + " instead of " + std::to_string(want)); }
    void body() override {
        for (size_t b = 0; b < batch.size(); ++b) {
            const string& t = batch[b]; size_t n = t.size();
            // the text ends where the memory ends, so that reading beyond it is seen
            char* buf = (char*)malloc(n); for (size_t k = 0; k < n; ++k) buf[k] = t[k];
            all(t, buf, n); if (n) all(t, buf, n - 1); // with a smaller end, too
            free(buf);
        }
    }
    void all(const string& t, char* buf, size_t e) {
        pigo::FileReader whole((pigo::FilePos)buf, (pigo::FilePos)buf + t.size());
        Ref r{t, e};
        for (size_t p = 0; p <= e; ++p) {
            pigo::FileReader at = whole; at += p; { pigo::FileReader z = whole + e; at.smaller_end(z); }
            const char* base = buf;
            #define POS(F) ((size_t)((const char*)F.d - base))
            #define MOVE(CALL, WANT) { pigo::FileReader f = at; f.CALL; size_t w = WANT; if (POS(f) != w) bad(#CALL, t, p, e, POS(f), w); }
            if (POS(at) != p || at.size() != e - p || at.good() != (p < e)) bad("position and size", t, p, e, at.size(), e - p);
            MOVE(skip_comments(), r.comments(p)) MOVE(move_to_first_int(), r.first_int(p)) MOVE(move_to_next_int(), r.next_int(p)) MOVE(move_to_next_signed_int(), r.next_signed(p))
            MOVE(move_to_non_int(), r.non_int(p)) MOVE(move_to_non_fp(), r.non_fp(p)) MOVE(move_to_fp(), r.fp(p)) MOVE(move_to_eol(), r.eol(p)) MOVE(move_to_next_line(), r.next_line(p)) MOVE(move_to_next_int_or_nl(), r.int_or_nl(p))
            MOVE(move_to('\n'), r.to(p, '\n')) MOVE(move_to('1'), r.to(p, '1')) MOVE(move_to(' '), r.to(p, ' '))
            MOVE(operator+=(2), std::min(p + 2, e)) MOVE(operator+=(0), p)
            { pigo::FileReader f = at + 3; if (POS(f) != std::min(p + 3, e) || POS(at) != p || f.size() != e - POS(f)) bad("operator+", t, p, e, POS(f), std::min(p + 3, e)); }
            { pigo::FileReader f = at; size_t k = p; while (k < e && !dig(t[k])) ++k; uint64_t v = 0; size_t m = k; while (m < e && dig(t[m])) v = v * 10 + (t[m++] - '0');
              uint64_t g = f.read_int<uint64_t>(); if (POS(f) != m) bad("read_int", t, p, e, POS(f), m); if (g != v) bad("read_int value", t, p, e, g, v);
              f = at; int gi = f.read_int<int>(); if (POS(f) != m || gi != (int)v) bad("read_int<int>", t, p, e, gi, v); f = at; uint8_t g8 = f.read_int<uint8_t>(); if (v < 256 && g8 != v) bad("read_int<uint8_t>", t, p, e, g8, v); }
            { pigo::FileReader f = at; size_t m; double v; double g = f.read_fp<double>(); if (POS(f) > e || POS(f) < p) bad("read_fp leaves the text", t, p, e, POS(f), e);
              bool num; { omc::Quiet q; num = r.number(p, m, v); }
              if (num) { if (POS(f) != m) bad("read_fp", t, p, e, POS(f), m); if (std::fabs(g - v) > 1e-12 * std::fabs(v)) omc::fail("read_fp on " + esc(t) + " from " + std::to_string(p) + ": " + std::to_string(g) + " instead of " + std::to_string(v));
                         f = at; float gf = f.read_fp<float>(); double a = std::fabs(v); if (POS(f) != m || ((a == 0 || (a > 1e-30 && a < 1e38)) && std::fabs(gf - v) > 1e-5 * a)) omc::fail("read_fp<float> on " + esc(t) + " from " + std::to_string(p) + ": " + std::to_string(gf) + " instead of " + std::to_string(v)); }
              else { f = at; (void)f.read_fp<float>(); if (POS(f) > e) bad("read_fp leaves the text", t, p, e, POS(f), e); } }
            { pigo::FileReader f = at; int g = f.read_sign<int>(); bool neg = p < e && t[p] == '-', sg = neg || (p < e && t[p] == '+'); if (g != (neg ? -1 : 1)) bad("read_sign value", t, p, e, g, neg); if (POS(f) != p + sg) bad("read_sign", t, p, e, POS(f), p + sg); }
            { pigo::FileReader f = at; size_t n; size_t g = f.count_spaces_to_eol(); if (POS(f) != r.eol(p)) bad("count_spaces_to_eol", t, p, e, POS(f), r.eol(p)); if (r.numbers(p, n) && (p == 0 || !fpc(t[p - 1])) && g != (n ? n - 1 : 0)) bad("count_spaces_to_eol value", t, p, e, g, n ? n - 1 : 0); }
            { pigo::FileReader f = at; size_t k = p; while (k < e && (t[k] == ' ' || t[k] == '\r')) ++k; bool w = k == e || t[k] == '\n'; if (f.at_end_of_line() != w || POS(f) != p) bad("at_end_of_line", t, p, e, !w, w); }
            { pigo::FileReader f = at; char c = p < e ? t[p] : 0; if (f.peek() != c) bad("peek", t, p, e, f.peek(), c); if (f.at_nl_or_eol() != (p == e || c == '\n' || com(c))) bad("at_nl_or_eol", t, p, e, f.at_nl_or_eol(), 0); if (f.at_int() != (p < e && dig(c))) bad("at_int", t, p, e, f.at_int(), 0);
              bool z = p < e && c == '0' && !(p + 1 < e && dig(t[p + 1])); if (f.at_zero() != z) bad("at_zero", t, p, e, !z, z); if (POS(f) != p) bad("a query moves the reader", t, p, e, POS(f), p); }
            for (size_t k = 0; k <= 3; ++k) { // strings that match, differ in the last character, are too long
                string w; { omc::Quiet q; w = t.substr(p, k); } bool fits = p + k <= e; pigo::FileReader f = at; bool g = f.at_str(w);
                if (w.size() == k && g != fits) bad("at_str", t, p, e, g, fits);
                if (k && w.size() == k) { w[k - 1] ^= 1; if (f.at_str(w)) bad("at_str of another string", t, p, e, 1, 0); } if (POS(f) != p) bad("at_str moves", t, p, e, POS(f), p);
            }
            omc::outcome(p);
        }
    }
};
OMC_ADD(Moves("all", "10 \n#-.e+a", 0, 5));
OMC_ADD(Moves("lines", "1 \n#\r", 5, 7));
OMC_ADD(Moves("numbers", "19.e-+ ", 5, 6));
OMC_ADD(Moves("comments", "0\n%#", 5, 7));

// find_offsets: every text over two characters, and long ones
template <class L, class O, int S> struct Find : omc::Suite {
    typedef pigo::Tensor<L, O, typename St<L, S>::t, float, float*, false> R;
    char nm[40]; bool longer; SeqEnum en{2, 0, 0}; string s; std::vector<size_t> want; size_t skip; char c;
    Find(bool l) : Suite(nm), longer(l), skip(0), c('x') { snprintf(nm, sizeof nm, "find%s_%s%s%s", l ? "_long" : "", tname<L>(), tname<O>(), sname(S)); }
    size_t count() override { if (longer) return omc::thorough() ? 400 : 100; en = SeqEnum{2, 0, omc::thorough() ? 9u : 7u}; return en.count() * 3; }
    void prepare(size_t i) override {
        s.clear(); skip = 0; static const char cs[] = {'x', '\n', '\xe9', '\0', '\xff', '\x7f', '\x80', '0'}; c = cs[(i + i / 8) % 8];
        if (!longer) { for (int k : en.get(i / 3)) s += k ? c : i % 5 == 4 ? (char)(c ^ 0x80) : 'y'; if (i % 3 == 2 && !s.empty()) skip = 1; }
        else { size_t n = 8 + (i * 7919) % 250; for (size_t k = 0; k < n; ++k) { int m = i % 5; s += (m == 0 ? k % 3 == 0 : m == 1 ? k == 0 || k + 1 == n : m == 2 ? true : m == 3 ? (k * k + i) % 7 < 3 : k > n / 2) ? c : (char)(k * 37 + 1 == c ? 0 : 'a' + k % 3); } skip = i % 4; }
        want.clear(); for (size_t k = skip; k < s.size(); ++k) if (s[k] == c) want.push_back(k - skip);
    }
    string describe() override { return string(nm) + " " + esc(s) + " from " + std::to_string(skip); }
    void configs(std::vector<Config>& o) override { if (longer) { cfg_policy(o, {1, 2, 3, 4, 7, 16}); return; } cfg_full(o, {1, 2}); if (s.size() <= (omc::thorough() ? 7u : 4u)) cfg_full(o, {3}); else cfg_policy(o, {3}); if (s.size() <= 2) cfg_full(o, {4}); cfg_policy(o, {5, 9}); }
    void body() override {
        char* buf = (char*)malloc(s.size()); for (size_t k = 0; k < s.size(); ++k) buf[k] = s[k];
        {
            pigo::FileReader r((pigo::FilePos)buf, (pigo::FilePos)buf + s.size()); r += skip;
            R t = r.find_offsets<R>(c);
            if (r.size() != s.size() - skip) omc::fail("find_offsets moves the reader");
            if ((size_t)t.m() != want.size() || t.order() != 1) omc::fail("found " + std::to_string(t.m()) + " of " + std::to_string(want.size()) + ", order " + std::to_string(t.order()));
            auto p = raw(t.c());
            for (size_t k = 0; k < want.size(); ++k) { if ((size_t)p[k] != want[k]) omc::fail("offset " + std::to_string(k) + " is " + std::to_string(p[k]) + " instead of " + std::to_string(want[k])); omc::outcome(want[k]); }
            t.free();
        }
        free(buf);
    }
};
OMC_ADD(Find<uint32_t, uint32_t, PTR>(false)); OMC_ADD(Find<uint64_t, uint64_t, VEC>(false)); OMC_ADD(Find<uint8_t, uint16_t, SP>(false));
OMC_ADD(Find<uint32_t, uint32_t, VEC>(true)); OMC_ADD(Find<size_t, size_t, PTR>(true));

// readers of files: the text ends where the file ends
struct OnFile : omc::Suite {
    string s; std::vector<size_t> want; OnFile() : Suite("file") {}
    size_t count() override { return 12; }
    void prepare(size_t i) override { static const size_t n[] = {1, 2, 3, 4095, 4096, 4097}; s.clear(); for (size_t k = 0; k < n[i % 6]; ++k) s += (i < 6 ? "12 3\n# 4\n" : "7.5e3\n\n-1")[k % 9]; put_file(path("t"), s); want.clear(); for (size_t k = 0; k < s.size(); ++k) if (s[k] == '\n') want.push_back(k); }
    string describe() override { return "file of " + std::to_string(s.size()) + " bytes"; }
    void configs(std::vector<Config>& o) override { cfg_policy(o, {1, 2, 3, 4}); }
    void body() override {
        string p; { omc::Quiet q; p = path("t"); }
        typedef pigo::Tensor<uint32_t, uint32_t, uint32_t*, float, float*, false> R;
        { pigo::ROFile f(p); pigo::FileReader r = f.reader(); R t = r.find_offsets<R>('\n'); if (t.m() != want.size()) omc::fail("found " + std::to_string(t.m())); for (size_t k = 0; k < want.size(); ++k) if (t.c()[k] != want[k]) omc::fail("offset " + std::to_string(k)); t.free();
          Ref ref{s, s.size()}; size_t q = 0; pigo::FileReader w = r; while (w.good()) { w.move_to_next_int(); q = ref.next_int(q); if (r.size() - w.size() != q) omc::fail("move_to_next_int in a file"); } if (q != s.size()) omc::fail("the end is not reached");
          w = r; q = 0; while (w.good()) { w.move_to_next_line(); q = ref.next_line(q); if (r.size() - w.size() != q) omc::fail("move_to_next_line in a file"); }
          w = r; w += s.size() - 1; (void)w.read_fp<double>(); if (w.good()) { w.move_to_next_signed_int(); w.move_to_next_int_or_nl(); } }
        omc::Quiet q; string().swap(p);
    }
};
OMC_ADD(OnFile);
}
