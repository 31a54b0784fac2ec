// C18 a File behaves as a bounded byte array with a cursor: all operation sequences up to a depth
#include "common.h"
#include "el.h"
#include <new>
using namespace h;
namespace {
// the reference: an array of bytes (some of a created file's unknown) with a cursor
struct Model {
    string b, known; size_t cur; bool rw;
    uint64_t hash() const { uint64_t x = 1469598103934665603ull; for (char c : b + known) x = (x ^ (unsigned char)c) * 1099511628211ull; return x * 31 + cur * 2 + rw; }
};
enum Op { SEEK0, SEEK1, SEEKM, SEEKL, SEEKE, SEEKX, R8, R16, R32, R64, RSTR, RNO, RLONG, PR0, PR1, PRM, PRALL, PRBIG, READER, MOVEC, MOVEA, MOVESELF,
          W8, W16, W32, W64, WI, WD, WSTR, WEMPTY, PW0, PW1, PWM, PWALL, PWBIG, NOPS };
const char* ON[] = {"seek(0)", "seek(1)", "seek(n/2)", "seek(n-1)", "seek(n)", "seek(max)", "read<u8>", "read<u16>", "read<u32>", "read<u64>", "read(matching)", "read(other)", "read(longer)", "pread(0)", "pread(1)", "pread(3)", "pread(all)", "pread(n+1)", "reader", "move", "move=", "self move=",
    "write<u8>", "write<u16>", "write<u32>", "write<u64>", "write<int>", "write<double>", "write(string)", "write(\"\")", "pwrite(0)", "pwrite(1)", "pwrite(5)", "pwrite(all)", "pwrite(n+1)"};
const int RO_OPS[] = {SEEK0, SEEKM, SEEKL, SEEKE, SEEKX, R8, R16, R64, RSTR, RNO, RLONG, PR0, PR1, PRM, PRALL, PRBIG, READER, MOVEC, MOVEA, MOVESELF};
const int RW_OPS[] = {SEEK0, SEEKM, SEEKL, SEEKE, W8, W32, W64, WSTR, WEMPTY, PW0, PW1, PWM, PWALL, PWBIG, R16, PRM, MOVEC, MOVEA, READER};
const int RW_ALL[] = {SEEK0, SEEK1, SEEKM, SEEKL, SEEKE, SEEKX, R8, R16, R32, R64, RSTR, RNO, RLONG, PR0, PR1, PRM, PRALL, PRBIG, READER, MOVEC, MOVEA, MOVESELF, W8, W16, W32, W64, WI, WD, WSTR, WEMPTY, PW0, PW1, PWM, PWALL, PWBIG};

struct Hist : omc::Suite {
    const int* ops; int nops; bool rw; size_t lo, hi; std::vector<size_t> sizes; char nm[40];
    SeqEnum en{0, 0, 0}; std::vector<int> seq; size_t size; string init;
    pigo::File* f; string* other; Model m; unsigned char val; char base_[1]; char* base; bool full;
    Hist(const char* n, const int* o, int no, bool w, size_t l, size_t hh, std::vector<size_t> s, bool fl = true) : Suite(nm), ops(o), nops(no), rw(w), lo(l), hi(hh), sizes(s), size(0), f(nullptr), other(nullptr), val(0), base(nullptr), full(fl) { snprintf(nm, sizeof nm, "%s", n); }
    size_t count() override { en = SeqEnum{(size_t)nops, lo, hi + (omc::thorough() ? 1 : 0)}; return en.count() * sizes.size(); }
    void prepare(size_t i) override {
        size = sizes[i % sizes.size()]; seq.clear(); for (int k : en.get(i / sizes.size())) seq.push_back(ops[k]);
        init.clear(); for (size_t k = 0; k < size; ++k) init += "PIGO-12ab\n\0\xff"[k % 12];
        if (rw) { if (i % 3 == 0) unlink(path("f").c_str()); else put_file(path("f"), string(i % 3 == 1 ? size + 7 : size / 2 + 1, 'Z')); }
        else put_file(path("f"), init);
        put_file(path("g"), "other contents");
    }
    string describe() override { string s = string(nm) + " size " + std::to_string(size) + ":"; for (int o : seq) s += string(" ") + ON[o]; return s; }
    void configs(std::vector<Config>& o) override { if (full) cfg_full(o, {1, 2, 3}); else cfg_policy(o, {2, 3}); if (full) cfg_policy(o, {5}); }
    size_t left() { return m.b.size() - m.cur; }
    void bad(const string& s) { omc::fail(s); }
    void state(const char* what) {
        if ((size_t)(f->fp() - base) != m.cur) bad(string(what) + ": the cursor is at " + std::to_string(f->fp() - base) + " instead of " + std::to_string(m.cur));
        if (f->size() != m.b.size()) bad(string(what) + ": size() is " + std::to_string(f->size()));
        omc::omc_step(m.hash());
    }
    // an operation that transfers n bytes: fits -> moves the cursor, else throws and changes nothing
    template <class F> void access(const char* what, size_t n, F go) {
        bool fits = n <= left(), threw = false;
        try { go(); } catch (pigo::Error&) { threw = true; }
        if (fits == threw) bad(string(what) + (fits ? ": refused although it fits" : ": accepted although it does not fit"));
        if (fits) m.cur += n;
    }
    void expect(const char* what, const char* got, size_t at, size_t n) {
        for (size_t k = 0; k < n; ++k) if (m.known[at + k] && got[k] != m.b[at + k]) bad(string(what) + ": byte " + std::to_string(at + k) + " is " + std::to_string((unsigned char)got[k]) + " instead of " + std::to_string((unsigned char)m.b[at + k]));
    }
    template <class T> void rd(const char* what) {
        size_t at = m.cur; T v = 0; access(what, sizeof(T), [&] { v = f->read<T>(); });
        if (m.cur != at) expect(what, (const char*)&v, at, sizeof(T));
    }
    template <class T> void wr(const char* what, T v) {
        size_t at = m.cur; access(what, sizeof(T), [&] { f->write(v); });
        if (m.cur != at) set((const char*)&v, at, sizeof(T));
    }
    void set(const char* p, size_t at, size_t n) { omc::Quiet q; for (size_t k = 0; k < n; ++k) { m.b[at + k] = p[k]; m.known[at + k] = 1; } }
    void pread(const char* what, size_t n) {
        char* b; { omc::Quiet q; b = nullptr; } b = (char*)malloc(n + 2); for (size_t k = 0; k < n + 2; ++k) b[k] = 0x11;
        size_t at = m.cur; bool fits = n <= left(); access(what, n, [&] { f->parallel_read(b + 1, n); });
        if (fits) expect(what, b + 1, at, n); else for (size_t k = 1; k <= n; ++k) if (b[k] != 0x11) bad(string(what) + ": refused but wrote to the destination");
        if (b[0] != 0x11 || b[n + 1] != 0x11) bad(string(what) + ": wrote beside the destination");
        free(b);
    }
    void pwrite(const char* what, size_t n) {
        char* b = (char*)malloc(n + 1); for (size_t k = 0; k < n; ++k) b[k] = (char)(val + 3 * k + 1); val += 17;
        size_t at = m.cur; bool fits = n <= left(); access(what, n, [&] { f->parallel_write(b, n); });
        if (fits) set(b, at, n);
        for (size_t k = 0; k < n; ++k) if (b[k] != (char)(val - 17 + 3 * k + 1)) bad(string(what) + ": changed its source");
        free(b);
    }
    void seek(const char* what, size_t p) {
        bool fits = p < m.b.size(), threw = false;
        try { f->seek(p); } catch (pigo::Error&) { threw = true; }
        if (fits == threw) bad(string(what) + (fits ? ": refused" : ": accepted beyond the end"));
        if (fits) m.cur = p;
    }
    void rstr(const char* what, const string& s, bool match) {
        bool threw = false; try { f->read(s); } catch (pigo::Error&) { threw = true; }
        if (match == threw) bad(string(what) + (match ? ": refused" : ": accepted"));
        if (match) m.cur += s.size();
    }
    void op(int o) {
        const char* w = ON[o]; size_t n = m.b.size(); val += 7;
        switch (o) {
            case SEEK0: seek(w, 0); break; case SEEK1: seek(w, 1); break; case SEEKM: seek(w, n / 2); break; case SEEKL: seek(w, n - 1); break; case SEEKE: seek(w, n); break; case SEEKX: seek(w, (size_t)-1); break;
            case R8: rd<uint8_t>(w); break; case R16: rd<uint16_t>(w); break; case R32: rd<uint32_t>(w); break; case R64: rd<uint64_t>(w); break;
            case RSTR: case RNO: case RLONG: {
                string s; { omc::Quiet q; size_t k = std::min<size_t>(left(), 4); s.assign(m.b, m.cur, k); }
                bool known = true; for (size_t k = 0; k < s.size(); ++k) known = known && m.known[m.cur + k];
                if (o == RNO) { omc::Quiet q; if (s.empty()) s = "x"; else s[s.size() - 1] ^= 1; }
                if (o == RLONG) { omc::Quiet q; s.assign(m.b, m.cur, left()); s += 'x'; }
                { omc::Quiet q; string t(s); (void)t; }
                if (known || o == RLONG) rstr(w, s, o == RSTR);
                omc::Quiet q; string().swap(s); break; }
            case PR0: pread(w, 0); break; case PR1: pread(w, 1); break; case PRM: pread(w, 3); break; case PRALL: pread(w, left()); break; case PRBIG: pread(w, n + 1); break;
            case READER: { pigo::FileReader r = f->reader(); if (r.size() != left()) bad("reader().size() is " + std::to_string(r.size())); size_t k = m.cur; while (r.good()) { char c = r.peek(); expect(w, &c, k++, 1); r += 1; } break; }
            case MOVEC: { pigo::File* g = new pigo::File(std::move(*f)); delete f; f = g; break; }
            case MOVEA: { pigo::File* g; { string p; { omc::Quiet q; p = path("g"); } g = new pigo::File(p, pigo::READ); omc::Quiet q; string().swap(p); } *g = std::move(*f); delete f; f = g; break; }
            case MOVESELF: { pigo::File& r = *f; r = std::move(*f); break; }
            case W8: wr<uint8_t>(w, val); break; case W16: wr<uint16_t>(w, (uint16_t)(val * 259)); break; case W32: wr<uint32_t>(w, val * 0x01020305u); break; case W64: wr<uint64_t>(w, val * 0x0102030405060709ull); break;
            case WI: wr<int>(w, -(int)val - 1); break; case WD: wr<double>(w, val * -0.37); break;
            case WSTR: { string s("x\n" "yz"); size_t at = m.cur; bool fits = 4 <= left(); access(w, 4, [&] { f->write(s); }); if (fits) set("x\nyz", at, 4); break; }
            case WEMPTY: { string s; access(w, 0, [&] { f->write(s); }); break; }
            case PW0: pwrite(w, 0); break; case PW1: pwrite(w, 1); break; case PWM: pwrite(w, 5); break; case PWALL: pwrite(w, left()); break; case PWBIG: pwrite(w, n + 1); break;
        }
        state(w);
    }
    void body() override {
        { omc::Quiet q; new (&m) Model(); m.b = rw ? string(size, '\0') : init; m.known = string(size, rw ? 0 : 1); m.cur = 0; m.rw = rw; val = 1; }
        string p; { omc::Quiet q; p = path("f"); }
        if (rw) f = new pigo::File(p, pigo::WRITE, size); else f = new pigo::File(p, pigo::READ);
        base = (char*)f->fp();
        state("open");
        for (int o : seq) op(o);
        if (omc::omc_open_fds() != 0) bad("a descriptor stays open");
        delete f; f = nullptr;
        if (omc::omc_open_maps() != 0) bad("a mapping is left after the File is gone");
        omc::Quiet q; string got; if (!get_file(path("f"), got)) bad("the file is gone");
        if (got.size() != size) bad("the file has " + std::to_string(got.size()) + " bytes instead of " + std::to_string(size));
        for (size_t k = 0; k < size; ++k) if (m.known[k] && got[k] != m.b[k]) bad("after closing, byte " + std::to_string(k) + " is " + std::to_string((unsigned char)got[k]) + " instead of " + std::to_string((unsigned char)m.b[k]));
        string o; if (!get_file(path("g"), o) || o != "other contents") bad("the other file changed");
        for (size_t k = 0; k < size; ++k) if (m.known[k]) omc::outcome(got[k]);
        string().swap(p); string().swap(m.b); string().swap(m.known);
    }
};
#define N(a) (int)(sizeof(a) / sizeof(a[0]))
OMC_ADD(Hist("read", RO_OPS, N(RO_OPS), false, 0, 3, {9}));
OMC_ADD(Hist("read_sizes", RO_OPS, N(RO_OPS), false, 1, 2, {1, 2, 3, 4, 7, 8, 16, 33}));
OMC_ADD(Hist("write", RW_OPS, N(RW_OPS), true, 0, 3, {9}));
OMC_ADD(Hist("write_all", RW_ALL, N(RW_ALL), true, 1, 2, {1, 5, 8, 24, 4097}));
OMC_ADD(Hist("write_deep", RW_OPS, N(RW_OPS), true, 4, 4, {12}, false));
OMC_ADD(Hist("read_deep", RO_OPS, N(RO_OPS), false, 4, 4, {13}, false));

// opening: what is refused, and what a created file is
struct Open : omc::Suite {
    Open() : Suite("open") {} size_t k = 0; static const size_t S[];
    size_t count() override { return 40; }
    void prepare(size_t i) override { k = i; unlink(path("f").c_str()); rmdir(path("d").c_str()); mkdir(path("d").c_str(), 0700); if (k % 4 == 1) put_file(path("f"), string(5000, 'q')); if (k % 4 == 2) put_file(path("f"), ""); if (k % 4 == 3) put_file(path("f"), "abc"); }
    string describe() override { return "open case " + std::to_string(k); }
    void configs(std::vector<Config>& o) override { cfg_full(o, {1, 2}); }
    template <class F> bool refused(F f) { try { f(); } catch (pigo::Error&) { return true; } return false; }
    void body() override {
        string p; { omc::Quiet q; p = path(k / 4 == 9 ? "d" : k / 4 == 8 ? "no/such/file" : "f"); }
        bool exists = k % 4 != 0, empty = k % 4 == 2; size_t len = k % 4 == 1 ? 5000 : k % 4 == 3 ? 3 : 0;
        switch (k / 4) {
            case 0: if (refused([&] { pigo::File f(p, pigo::READ); if (f.size() != len || f.reader().size() != len) omc::fail("size of an opened file"); }) != (!exists || empty)) omc::fail("opening for reading"); break;
            case 1: if (refused([&] { pigo::ROFile f(p); if (f.size() != len) omc::fail("size of an opened file"); f.seek(len - 1); if (f.read<char>() != (k % 4 == 1 ? 'q' : 'c')) omc::fail("last byte"); }) != (!exists || empty)) omc::fail("opening for reading"); break;
            case 2: if (!refused([&] { pigo::File f(p, pigo::READ, 10); })) omc::fail("a size is accepted for reading"); break;
            case 3: if (!refused([&] { pigo::WFile f(p, 0); })) omc::fail("size zero is accepted"); break;
            case 4: case 5: case 6: case 7: {
                static const size_t S[] = {1, 3, 4096, 70001}; size_t n = S[k / 4 - 4];
                if (refused([&] { pigo::WFile f(p, n); if (f.size() != n) omc::fail("size of a created file"); f.seek(n - 1); f.write<char>('E'); f.seek(0); f.write<char>('B'); })) omc::fail("creating a file is refused");
                omc::Quiet q; string g; if (!get_file(p, g) || g.size() != n || g[0] != 'B' || (n > 1 && g[n - 1] != 'E')) omc::fail("the created file has other contents or another size"); break; }
            case 8: if (!refused([&] { pigo::WFile f(p, 10); }) || !refused([&] { pigo::ROFile f(p); })) omc::fail("a path that does not exist is accepted"); break;
            case 9: if (!refused([&] { pigo::WFile f(p, 10); }) || !refused([&] { pigo::ROFile f(p); })) omc::fail("a directory is accepted"); break;
        }
        if (omc::omc_open_fds() != 0 || omc::omc_open_maps() != 0) omc::fail("a descriptor or mapping is left");
        omc::Quiet q; string().swap(p);
    }
};
OMC_ADD(Open);
}
