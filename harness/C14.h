// C14 tensor text files load every entry with the order of the first line
#include "text.h"
#include "mat.h"
#include "bin.h"
namespace {
using namespace h;
// reference reader; false if the text is outside of the property
inline bool ref_tns(const string& s, bool wgt, size_t& order, std::vector<TEntry>& e) {
    e.clear(); order = 0; size_t num = 0;
    for (auto& l : lines_of(s)) {
        auto t = tokens(l); if (t.empty()) continue;
        if (e.empty()) { num = t.size(); if (wgt && num < 1) return false; order = wgt ? num - 1 : num; }
        else if (t.size() != num) return false;
        TEntry k; for (size_t i = 0; i < order; ++i) { for (char c : t[i]) if (c < '0' || c > '9') return false; k.c.push_back((ll)strtoull(t[i].c_str(), nullptr, 10)); }
        if (wgt && t[order].find_first_not_of("0123456789+-.eE") != string::npos) return false;
        k.w = wgt ? strtod(t[order].c_str(), nullptr) : 0; e.push_back(k);
    }
    return true;
}
template <class L, class O, int S, class W, bool wgt> struct Base : omc::Suite {
    typedef pigo::Tensor<L, O, typename St<L, S>::t, W, typename St<W, S>::t, wgt> C;
    char nm[80]; string text; std::vector<TEntry> want; size_t order = 0; int how = 0;
    Base(const char* k) : Suite(nm) { snprintf(nm, sizeof nm, "%s_%s%s%s_%s", k, tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    bool ref(const string& t) { return ref_tns(t, wgt, order, want) && !want.empty() && order > 0; }
    void set(const string& t, int h) { text = t; how = h; if (!ref(t)) { fprintf(stderr, "bad case %s\n", esc(t).c_str()); _exit(3); } put_file(path("in.tns"), t); }
    string describe() override { return string(nm) + " how=" + std::to_string(how) + " " + esc(text); }
    void body() override {
        string p; { omc::Quiet q; p = path("in.tns"); }
        C* c = nullptr;
        try { if (how == 0) c = new C(p, pigo::EDGE_LIST); else if (how == 1) c = new C(p); else { pigo::File f(p, pigo::READ); c = new C(f, pigo::EDGE_LIST); } } catch (std::exception& e) { omc::fail(string("refused: ") + e.what()); }
        if ((size_t)c->order() != order) omc::fail("the order is " + std::to_string(c->order()) + " instead of " + std::to_string(order));
        if ((size_t)c->m() != want.size()) omc::fail("there are " + std::to_string(c->m()) + " entries instead of " + std::to_string(want.size()));
        auto x = raw(c->c());
        for (size_t k = 0; k < want.size(); ++k) {
            for (size_t j = 0; j < order; ++j) { L v = x[k * order + j]; if (v != (L)want[k].c[j]) omc::fail("coordinate " + std::to_string(j) + " of entry " + std::to_string(k) + " is " + std::to_string(v) + " instead of " + std::to_string(want[k].c[j])); omc::outcome(v); }
            double w = getw(c->w(), k, std::integral_constant<bool, wgt>());
            if (wgt && !(fabs(w - want[k].w) <= fabs(want[k].w) * 1e-5)) omc::fail("weight of entry " + std::to_string(k) + " is " + std::to_string(w) + " instead of " + std::to_string(want[k].w));
            omc::outcome(w);
        }
        c->free(); delete c; { omc::Quiet q; string().swap(p); }
    }
};
// every sequence of line shapes; num is the number of numbers of a data line
template <class L, class O, int S, class W, bool wgt> struct Lines : Base<L, O, S, W, wgt> {
    typedef Base<L, O, S, W, wgt> B; int num; SeqEnum en{0, 0, 0}; std::vector<string> L1, all;
    Lines(int n) : B(n == 2 ? "lines2" : n == 3 ? "lines3" : n == 4 ? "lines4" : "lines1"), num(n) {}
    size_t count() override {
        if (!all.empty()) return all.size() * 2;
        auto line = [&](const char* first, const char* sep, std::vector<const char*> v, const char* last, const char* end) { string s = first; for (int k = 0; k + 1 < num; ++k) s += string(v[k % v.size()]) + sep; return s + (wgt ? last : v[(num - 1) % v.size()]) + end; };
        L1 = {line("", " ", {"0", "1"}, std::is_integral<W>::value ? "2" : "2.5", "\n"), line("  ", "\t", {"12", "3"}, "-1", "\r\n"), line("", "  ", {"7"}, "1e1", " \n"), "#4 5\n", "\n", " % 7 8 9\n", line("", " ", {"200", "0", "00"}, "+3", "\n"), line("\t", " \t", {"1"}, "0.25", "\t\r\n"), "  \t\n", "%\n", "\r\n"};
        if (omc::thorough() && sizeof(L) > 1) L1.push_back(line("", " ", {cap<L>() < 65535 ? "32767" : "65535", "1"}, "4", "\n"));
        en = SeqEnum{L1.size(), 1, omc::thorough() ? 4u : 3u};
        for (size_t i = 0; i < en.count(); ++i) { string s; for (int k : en.get(i)) s += L1[k]; for (int cut = 0; cut < 2; ++cut) { if (cut) s.pop_back(); if (this->ref(s)) all.push_back(s); } }
        return all.size() * 2;
    }
    void prepare(size_t i) override { count(); this->set(all[i / 2], i % 2 ? i / 2 % 2 ? 1 : 2 : 0); }
    void configs(std::vector<Config>& o) override { if (this->how) { cfg_full(o, {2}); cfg_policy(o, {1, 8}); return; } cfg_full(o, {1, 2}); if (this->text.size() < 24 || omc::thorough()) cfg_full(o, {3}); cfg_policy(o, {3, 4, 5, 7}); }
};
template <class L, class O, int S, class W, bool wgt> struct Chars : Base<L, O, S, W, wgt> {
    typedef Base<L, O, S, W, wgt> B; const char* A; std::vector<string> all;
    Chars(const char* n, const char* a) : B(n), A(a) {}
    size_t count() override {
        if (!all.empty()) return all.size();
        SeqEnum en{strlen(A), 1, (omc::thorough() ? 2u : 0u) + (strlen(A) > 3 ? 6u : 8u)};
        for (size_t i = 0; i < en.count(); ++i) { string s; for (int k : en.get(i)) s += A[k]; if (this->ref(s)) all.push_back(s); }
        return all.size();
    }
    void prepare(size_t i) override { count(); this->set(all[i], 0); }
    void configs(std::vector<Config>& o) override { cfg_full(o, {2}); if (omc::thorough()) cfg_full(o, {3}); cfg_policy(o, {1, 3, 4, 5, 8}); }
};
// longer files shifted byte by byte against the borders of the threads' shares
template <class L, class O, int S, class W, bool wgt> struct Shift : Base<L, O, S, W, wgt> {
    typedef Base<L, O, S, W, wgt> B;
    Shift() : B("shift") {}
    size_t count() override { return (omc::thorough() ? 24 : 8) * 40; }
    void prepare(size_t i) override {
        string s; size_t k = i % 40; int var = i / 40, order = 1 + var % 6; if (var > 6 && var % 4 == 3) order = 30;
        if (k) { s = "#"; while (s.size() + 1 < k) s += (var & 1) ? '9' : ' '; s += '\n'; }
        for (int j = 0; j < 14 + var; ++j) {
            if ((j + var) % 5 == 2) { s += j & 1 ? "# 1 2 3\n\n" : "%5\n"; }
            s += (j + var) % 3 == 1 ? "  " : "";
            for (int c = 0; c < order; ++c) s += std::to_string((j * 37 + c * 11 + (j % 4 == 0 ? 0 : 3)) % (cap<L>() < 60000 ? cap<L>() + 1 : 60000)) + ((j + c) % 4 ? " " : "\t ");
            if (wgt) s += j % 3 ? std::to_string(j) + ".5" : std::to_string(j); else while (s.back() == ' ' || s.back() == '\t') s.pop_back();
            s += (j + var) % 4 == 1 ? "\r\n" : "\n";
        }
        if (var & 2) s.pop_back();
        this->set(s, i % 3);
    }
    void configs(std::vector<Config>& o) override { cfg_policy(o, {1, 2, 3, 4, 5, 6, 7, 8, 12, 16}); if (this->text.size() < 250) cfg_bound(o, {2, 3}, 1); }
};
template <class L, class O, int S, class W, bool wgt> struct Large : Base<L, O, S, W, wgt> {
    typedef Base<L, O, S, W, wgt> B;
    Large() : B("large") {}
    size_t count() override { return cap<O>() < 9999 ? 0 : 20; }
    void prepare(size_t i) override {
        static const size_t sizes[] = {4095, 4096, 4097, 8192, 12288}; size_t want_size = sizes[i % 5]; int order = 1 + i / 5; string s; ull j = 0;
        string last; for (int c = 0; c < order; ++c) last += (c ? " " : "") + std::to_string(c + 1); if (wgt) last += " 7";
        while (s.size() + 120 < want_size) { ++j; ull mx = (std::numeric_limits<L>::max)(); for (int c = 0; c < order; ++c) s += (c ? " " : "") + std::to_string(c & 1 ? mx - j : j * 7 % (mx < 1000 ? mx : 1000)); if (wgt) s += " " + std::to_string(j % 100); s += j % 7 ? "\n" : "\r\n"; }
        string tail = "#"; while (s.size() + tail.size() + 1 + last.size() < want_size) tail += 'c';
        s += tail + "\n" + last; this->set(s, i % 3);
    }
    void configs(std::vector<Config>& o) override { cfg_policy(o, {1, 2, 3, 5, 8}); }
};
// more entries than narrow types count
template <class L, class O, int S, class W, bool wgt> struct Many : Base<L, O, S, W, wgt> {
    typedef Base<L, O, S, W, wgt> B;
    Many() : B("many") {}
    size_t count() override { return many_count(cap<O>()); }
    void prepare(size_t i) override {
        std::vector<Entry> e; Dims d; many_case(i, cap<O>(), e, d, cap<L>()); if (e.size() > 9999 && i % 5 != 2) e.resize(1500); string s; size_t k = 0, order = 1 + i % 4;
        for (auto& x : e) { ++k; for (size_t j = 0; j < order; ++j) s += (j ? k % 11 == 5 ? "\t" : " " : k % 7 == 3 ? " " : "") + std::to_string(j == 0 ? x.y : j == 1 ? x.x : (x.y * 3 + (ll)j) % std::min<ull>(cap<L>(), 251)); if (wgt) s += " " + std::to_string((ll)wval(k)); s += k % 13 == 1 ? "\r\n" : "\n"; if (k % 50 == 49) s += "# 1 2\n\n"; }
        if (i & 1) s.pop_back(); this->set(s, i % 3);
    }
    void configs(std::vector<Config>& o) override { if (this->want.size() > 9999) cfg_policy(o, {1, 4}); else cfg_policy(o, {1, 2, 3, 8}); }
};
#define MNY(...) OMC_ADD(Many<__VA_ARGS__>());
#define TNS(...) OMC_ADD(Lines<__VA_ARGS__>(1)); OMC_ADD(Lines<__VA_ARGS__>(2)); OMC_ADD(Lines<__VA_ARGS__>(3)); OMC_ADD(Lines<__VA_ARGS__>(4)); OMC_ADD(Chars<__VA_ARGS__>("chars", "1 \n")); OMC_ADD(Chars<__VA_ARGS__>("chars_comment", "1 \n#")); OMC_ADD(Shift<__VA_ARGS__>()); OMC_ADD(Large<__VA_ARGS__>()); MNY(__VA_ARGS__)
}
