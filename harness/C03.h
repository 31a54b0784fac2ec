// C03 weights are parsed to the value written in the file
#include "el.h"
#include <limits>
namespace {
using namespace h;
template <class W> const char* wn();
#define WN(T, N) template <> const char* wn<T>() { return N; }
WN(int8_t, "i8") WN(int16_t, "i16") WN(int32_t, "i32") WN(int64_t, "i64") WN(uint8_t, "u8") WN(uint16_t, "u16") WN(uint32_t, "u32") WN(uint64_t, "u64") WN(float, "f32") WN(double, "f64")

// all spellings for the type; integers: value within the type
template <class W> struct Spell {
    std::vector<string> v;
    static bool ok_int(const string& s) {
        size_t i = 0; bool neg = false;
        if (s.empty()) return false;
        if (std::is_signed<W>::value && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; i = 1; }
        if (i >= s.size()) return false;
        for (size_t k = i; k < s.size(); ++k) if (s[k] < '0' || s[k] > '9') return false;
        __int128 x = 0; for (size_t k = i; k < s.size(); ++k) { x = x * 10 + (s[k] - '0'); if (x > ((__int128)1 << 70)) return false; }
        if (neg) x = -x;
        return x >= (__int128)std::numeric_limits<W>::min() && x <= (__int128)std::numeric_limits<W>::max();
    }
    static bool ok_fp(const string& s) {
        size_t i = 0; int d = 0;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
        while (i < s.size() && isdigit(s[i])) ++i, ++d;
        if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit(s[i])) ++i, ++d; }
        if (!d) return false;
        if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; if (i >= s.size() || !isdigit(s[i])) return false; while (i < s.size() && isdigit(s[i])) ++i; }
        if (i != s.size()) return false;
        size_t ep = s.find_first_of("eE"); if (ep != string::npos && abs(atoi(s.c_str() + ep + 1)) > (sizeof(W) == 4 ? 30 : 280)) return false; // 10^exponent is in the range of the type
        double x = fabs(strtod(s.c_str(), nullptr));
        return x == 0 || (x < (sizeof(W) == 4 ? 1e30 : 1e280) && x > (sizeof(W) == 4 ? 1e-30 : 1e-280));
    }
    Spell() {
        std::set<string> seen;
        bool fp = std::is_floating_point<W>::value;
        auto add = [&](const string& s) { if ((fp ? ok_fp(s) : ok_int(s)) && seen.insert(s).second) v.push_back(s); };
        const char* A = fp ? "03.e-" : "09-+"; size_t N = fp ? (omc::thorough() ? 7 : 5) : 4;
        SeqEnum en{strlen(A), 1, N}; for (size_t i = 0; i < en.count(); ++i) { string s; for (int k : en.get(i)) s += A[k]; add(s); }
        if (fp) {
            for (const char* sg : {"", "+", "-"}) for (const char* in : {"", "0", "7", "12", "105", "123456789", "00012"}) for (const char* fr : {"", ".", ".5", ".25", ".0625", ".000001", ".10", ".987654321"})
                for (const char* ex : {"", "e1", "E+2", "e-2", "e0", "E00", "e10", "e-10", "E+25", "e-25"}) add(string(sg) + in + fr + ex);
            // numbers with more digits than any type holds
            for (int len : {9, 10, 16, 17, 18, 19, 20, 21, 25, 30, 37, 38, 39, 40, 45, 60, 100, 320}) for (const char* dg : {"3", "9", "0", "12345678909876543210"}) {
                string f; while ((int)f.size() < len) f += dg; f.resize(len);
                for (const char* ex : {"", "e2", "E-3"}) { add("0." + f + ex); add("-12." + f + ex); add("." + f + "5" + ex); add("0.5" + f + ex); add("1" + f + ex); add("1" + f + ".5" + ex); add("0000000000" + f + "7.25" + ex); }
            }
            if (sizeof(W) == 8) for (const char* s : {"1.5e200", "2.25E-200", "-9.875e+250", "123456789012345.678", "0.1234567890123456", "1e22", "4.9e-270"}) add(s);
        } else {
            string mx = std::to_string(std::numeric_limits<W>::max()), mn = std::to_string(std::numeric_limits<W>::min());
            add(mx); add(mn); add("0" + mx); add("+" + mx); add("000" + mx); add("1"); add("-1"); add("10"); add("-10"); add("100"); add("101"); add("127"); add("-128"); add("128"); add("255"); add("-127"); add("32768"); add("2147483648"); add("-2147483647"); add("4294967296"); add("12345678901234"); add("-98765432109876");
        }
    }
};
template <class W> struct Weights : omc::Suite {
    std::unique_ptr<Spell<W>> sp; char nm[40]; bool tensor; string text, wtext; std::vector<Entry> want; std::vector<double> dig; int pos;
    typedef pigo::COO<uint32_t, uint32_t, uint32_t*, false, false, false, true, W, W*> C;
    typedef pigo::Tensor<uint32_t, uint32_t, uint32_t*, W, W*, true> TT;
    Weights(bool t) : Suite(nm), tensor(t) { snprintf(nm, sizeof nm, "%s_%s", t ? "tensor" : "coo", wn<W>()); }
    static const int SH = 10;
    size_t count() override { if (!sp) sp.reset(new Spell<W>); return sp->v.size() * SH; }
    std::vector<W> wwant;
    void prepare(size_t i) override {
        wtext = sp->v[i / SH]; int sh = i % SH; text.clear(); want.clear(); wwant.clear();
        string l = "5 6 ";
        switch (sh) { // position, terminator, separator
            case 0: text = l + wtext; pos = 0; break;
            case 1: text = l + wtext + "\n"; pos = 0; break;
            case 2: text = l + wtext + "\r\n1 2 3\n"; pos = 0; break;
            case 3: text = l + wtext + (tensor ? " \n" : " 9 8\n") + "1 2 3\n4 5 6"; pos = 0; break;
            case 4: text = "1 2 3\n" + l + wtext; pos = 1; break;
            case 5: text = "1 2 3\n  5\t6\t" + wtext + "\t\n4 5 6\n"; pos = 1; break;
            case 6: text = "1 2 3\n#c 4\n\n4 5 6\n" + l + wtext + "\r\n"; pos = 2; break;
            case 7: text = "% x\n1 2 3\n" + l + " " + wtext + "\n4 5 6\n"; pos = 1; break;
            case 8: text = "5 6   " + wtext + "\n\n\n1 2 3 \n4 5 6"; pos = 0; break;
            default: text = "10 20 30\n4 5 6\n" + l + wtext + (tensor ? "\n" : " x1\n"); pos = 2; break;
        }
        ref_el(text, true, want);
        put_file(path("in"), text);
        __int128 x = 0; bool neg = wtext[0] == '-'; for (char c : wtext) if (isdigit(c)) x = x * 10 + (c - '0'); if (neg) x = -x;
        for (size_t k = 0; k < want.size(); ++k) wwant.push_back((int)k == pos && !std::is_floating_point<W>::value ? (W)x : (W)want[k].w);
    }
    void configs(std::vector<Config>& o) override { cfg_full(o, {1, 2}); cfg_policy(o, {3, 5}); if (omc::thorough()) cfg_full(o, {3}); }
    string describe() override { return string(nm) + " " + esc(text); }
    void compare(const std::vector<ll>& xs, const std::vector<ll>& ys, const std::vector<W>& ws) {
        if (ws.size() != want.size()) omc::fail("number of entries is " + std::to_string(ws.size()) + " instead of " + std::to_string(want.size()));
        for (size_t k = 0; k < ws.size(); ++k) {
            if (xs[k] != want[k].x || ys[k] != want[k].y) omc::fail("coordinates of entry " + std::to_string(k) + " differ");
            bool bad;
            if (std::is_floating_point<W>::value) {
                double w = want[k].w, g = (double)ws[k]; int dg = 0; if ((int)k == pos) for (char c : wtext) dg += isdigit(c) != 0;
                bad = !(fabs(g - w) <= fabs(w) * (double)std::numeric_limits<W>::epsilon() * (4 + dg)) || (w != 0 && std::signbit(g) != std::signbit(w));
            } else bad = ws[k] != wwant[k];
            if (bad) { char b[200]; snprintf(b, sizeof b, "weight of entry %zu is %.17g instead of %.17g", k, (double)ws[k], std::is_floating_point<W>::value ? want[k].w : (double)wwant[k]); omc::fail(b); }
            omc::outcome(ws[k]);
        }
    }
    void body() override {
        string p; { omc::Quiet q; p = path("in"); }
        std::vector<ll> xs, ys; std::vector<W> ws;
        if (!tensor) {
            C* c = nullptr; try { c = new C(p, pigo::EDGE_LIST); } catch (std::exception& e) { omc::fail(string("refused: ") + e.what()); }
            size_t m = c->m(); const uint32_t *x = raw(c->x()), *y = raw(c->y()); const W* w = raw(c->w());
            for (size_t k = 0; k < m; ++k) { ll a = x[k], b = y[k]; W d = w[k]; omc::Quiet q; xs.push_back(a); ys.push_back(b); ws.push_back(d); }
            { omc::Quiet q; compare(xs, ys, ws); xs = ys = std::vector<ll>(); ws = std::vector<W>(); }
            c->free(); delete c;
        } else {
            TT* c = nullptr; try { c = new TT(p, pigo::EDGE_LIST); } catch (std::exception& e) { omc::fail(string("refused: ") + e.what()); }
            size_t m = c->m(); if (c->order() != 2) omc::fail("order of the tensor is not 2"); const uint32_t* x = raw(c->c()); const W* w = raw(c->w());
            for (size_t k = 0; k < m; ++k) { ll a = x[2 * k], b = x[2 * k + 1]; W d = w[k]; omc::Quiet q; xs.push_back(a); ys.push_back(b); ws.push_back(d); }
            { omc::Quiet q; compare(xs, ys, ws); xs = ys = std::vector<ll>(); ws = std::vector<W>(); }
            c->free(); delete c;
        }
        { omc::Quiet q; p = string(); }
    }
};
#define W2(T) OMC_ADD(Weights<T>(false)); OMC_ADD(Weights<T>(true));
}
