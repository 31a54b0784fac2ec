// C01 edge-list files load every edge once, in file order
#include "mat.h"
#include "types.h"
using namespace h;
namespace {
template <class L, class O> using C0 = pigo::COO<L, O, L*, false, false, false, false>;

struct Base : omc::Suite {
    string text; std::vector<Entry> want; bool big64;
    Base(const char* n, bool b = false) : Suite(n), big64(b) {}
    void set(const string& t) { text = t; put_file(path("in.el"), text); if (!ref_el(text, false, want)) { fprintf(stderr, "bad case %s\n", esc(text).c_str()); _exit(3); } }
    string describe() override { return esc(text); }
    template <class L, class O> void go() {
        string p; { omc::Quiet q; p = path("in.el"); }
        C0<L, O>* c = nullptr;
        try { c = new C0<L, O>(p, pigo::EDGE_LIST); } catch (std::exception& e) { omc::fail(string("refused: ") + e.what()); }
        auto got = CooView<C0<L, O>, L, float, false>::get(*c);
        {
            omc::Quiet q;
            expect_entries(got, want, "edge list");
            if (!want.empty()) expect_dims(dims_of(*c), ref_dims(want), "edge list");
            out_entries(got); got = std::vector<Entry>();
        }
        c->free(); delete c;
        { omc::Quiet q; p = string(); }
    }
    void body() override { if (big64) go<uint64_t, uint64_t>(); else go<uint32_t, uint32_t>(); }
};

// every sequence of lines over an alphabet of line shapes, with and without the final newline
const char* LINES[] = {"0 1\n", "12 3\n", "1 1 7\n", "#4 5\n", "\n", "  3\t0\r\n", "% 7\n", "10   2 x\n", " # 1\n", "0 0\n", "\r\n", "007 4294967294\n", "##\n"};
struct Lines : Base {
    SeqEnum en; Lines() : Base("lines"), en{10, 1, 3} {}
    size_t count() override { en.a = omc::thorough() ? 13u : 10u; return 2 * en.count(); }
    void prepare(size_t i) override { string s; for (int k : en.get(i / 2)) s += LINES[k]; if ((i & 1) && s.size() > 1) s.pop_back(); set(s); }
    void configs(std::vector<Config>& o) override { cfg_full(o, {1, 2, 3}); if (omc::thorough()) cfg_full(o, {4}); }
};
OMC_ADD(Lines);
struct Lines4 : Base {
    SeqEnum en; Lines4() : Base("lines4"), en{4, 4, 4} {}
    size_t count() override { if (omc::thorough()) en.hi = 6, en.a = 5; return 2 * en.count(); }
    void prepare(size_t i) override { string s; for (int k : en.get(i / 2)) s += LINES[k]; if (i & 1) s.pop_back(); set(s); }
    void configs(std::vector<Config>& o) override { cfg_policy(o, {1, 2, 3, 4, 5, 7}); }
};
OMC_ADD(Lines4);

// every well-formed string over an alphabet, character by character
struct Chars : Base {
    std::vector<string> all; const char* A; size_t N;
    Chars(const char* n, const char* a) : Base(n), A(a), N(0) {}
    size_t count() override {
        if (!all.empty()) return all.size();
        N = omc::thorough() ? (strlen(A) > 3 ? 8 : 10) : (strlen(A) > 3 ? 6 : 8);
        SeqEnum en{strlen(A), 0, N}; std::vector<Entry> e;
        for (size_t i = 0; i < en.count(); ++i) { string s; for (int k : en.get(i)) s += A[k]; if (ref_el(s, false, e) && !e.empty()) all.push_back(s); }
        return all.size();
    }
    void prepare(size_t i) override { set(all[i]); }
    void configs(std::vector<Config>& o) override { cfg_full(o, {2, 3}); cfg_policy(o, {1, 4, 5, 8}); }
};
OMC_ADD(Chars("chars", "1 \n"));
OMC_ADD(Chars("chars_comment", "1 \n#"));
OMC_ADD(Chars("chars_two", "01 \n"));

// a longer file with every kind of line, shifted byte by byte against the borders of the threads' shares
struct Shift : Base {
    Shift() : Base("shift") {}
    size_t count() override { return omc::thorough() ? 1200 : 240; }
    void prepare(size_t i) override {
        string s; size_t k = i % 40; int var = i / 40;
        if (k) { s = "#"; while (s.size() + 1 < k) s += (var & 1) ? '9' : ' '; s += '\n'; }
        for (int j = 0; j < 18 + var; ++j) {
            switch ((j + var) % 6) {
                case 0: s += std::to_string(j) + " " + std::to_string(100 + j) + "\n"; break;
                case 1: s += "   " + std::to_string(1000 * j + 7) + "\t" + std::to_string(j) + "\r\n"; break;
                case 2: s += "# " + std::to_string(j) + " 5\n\n"; break;
                case 3: s += std::to_string(3 * j) + " " + std::to_string(123456 + j) + " 0.5 extra 77\n"; break;
                case 4: s += "%" + std::to_string(j) + "\n"; break;
                default: s += std::to_string(4294967294u - j) + " 0\n";
            }
        }
        if (var & 2) s.pop_back();
        set(s);
    }
    void configs(std::vector<Config>& o) override { cfg_policy(o, {1, 2, 3, 4, 5, 6, 7, 8, 12, 16}); if (cur_full()) cfg_bound(o, {2, 3}, 1); }
    bool cur_full() { return text.size() < 330; }
};
OMC_ADD(Shift);

// sizes around pages and wide labels
struct Large : Base {
    Large() : Base("large", true) {}
    size_t count() override { return 20; }
    void prepare(size_t i) override {
        static const size_t sizes[] = {4095, 4096, 4097, 8192, 12288}; size_t want_size = sizes[i % 5]; int var = i / 5;
        string s; ull j = 0;
        while (s.size() + 60 < want_size) { ++j; ull big = var & 1 ? 9223372036854775806ull - j : j; s += std::to_string(big) + (var & 2 ? "\t" : " ") + std::to_string(j * 4294967296ull % 9000000000000000000ull) + (j % 7 ? "\n" : "\r\n"); }
        string last = "1 2"; string tail = "#"; while (s.size() + tail.size() + 1 + last.size() < want_size) tail += 'c';
        s += tail + "\n" + last;   // the last edge ends at the last byte of the file
        set(s);
    }
    void configs(std::vector<Config>& o) override { cfg_policy(o, {1, 2, 3, 5, 8}); }
};
OMC_ADD(Large);

// narrow types: more entries than labels, sizes around the limits of the types
template <class L, class O> struct Many : Base {
    char nm2[40];
    Many() : Base(nm2) { snprintf(nm2, sizeof nm2, "many_%s%s", tname<L>(), tname<O>()); }
    size_t count() override { return many_count(cap<O>()); }
    void prepare(size_t i) override {
        std::vector<Entry> e; Dims d; many_case(i, cap<O>(), e, d, cap<L>()); if (e.size() > 9999 && i % 5 != 2) e.resize(1500); string s; size_t k = 0;
        for (auto& x : e) { ++k; s += (k % 7 == 3 ? " " : "") + std::to_string(x.x) + (k % 11 == 5 ? "\t" : " ") + std::to_string(x.y) + (k % 13 == 1 ? " 9\r\n" : "\n"); if (k % 50 == 49) s += "# 1 2\n\n"; }
        if (i & 1) s.pop_back(); set(s);
    }
    void configs(std::vector<Config>& o) override { if (want.size() > 9999) cfg_policy(o, {1, 4}); else cfg_policy(o, {1, 2, 3, 8}); }
    void body() override { go<L, O>(); }
};
OMC_ADD(Many<uint8_t, uint8_t>()) OMC_ADD(Many<uint8_t, uint16_t>()) OMC_ADD(Many<uint8_t, uint32_t>()) OMC_ADD(Many<uint16_t, uint8_t>()) OMC_ADD(Many<uint16_t, uint64_t>()) OMC_ADD(Many<uint32_t, uint16_t>()) OMC_ADD(Many<uint32_t, uint32_t>())
OMC_ADD(Many<int8_t, int8_t>()) OMC_ADD(Many<int16_t, int8_t>()) OMC_ADD(Many<int, int>()) OMC_ADD(Many<int8_t, int64_t>()) OMC_ADD(Many<int64_t, int16_t>()) OMC_ADD(Many<int16_t, uint32_t>()) OMC_ADD(Many<uint32_t, int>())
// the largest labels the types hold
template <class L, class O> struct Top : Base {
    char nm2[40];
    Top() : Base(nm2) { snprintf(nm2, sizeof nm2, "top_%s%s", tname<L>(), tname<O>()); }
    size_t count() override { return 64; }
    void prepare(size_t i) override {
        ull t = cap<L>() - 1; if (t > 9000000000000000000ull) t = 9000000000000000000ull; ull v[] = {t, t - 1, t / 2, t / 2 + 1, 0, t / 10, t - t % 10, 7};
        string s; for (int k = 0; k < 2; ++k) { s += std::to_string(v[(k ? i / 8 : i) % 8]) + " " + std::to_string(v[(k ? i + 3 : i / 8 + 1) % 8]) + (i & 1 ? " " : "") + "\n"; } if (i & 2) s.pop_back(); set(s);
    }
    void configs(std::vector<Config>& o) override { cfg_full(o, {1, 2}); cfg_policy(o, {3}); }
    void body() override { go<L, O>(); }
};
OMC_ADD(Top<uint8_t, uint8_t>()) OMC_ADD(Top<uint16_t, uint8_t>()) OMC_ADD(Top<uint32_t, uint32_t>()) OMC_ADD(Top<uint64_t, uint32_t>()) OMC_ADD(Top<int8_t, int8_t>()) OMC_ADD(Top<int16_t, uint32_t>()) OMC_ADD(Top<int, int>()) OMC_ADD(Top<int64_t, int64_t>())
}
