// C11 binary loaders refuse files that cannot hold what they announce
#include "mat.h"
#include "types.h"
#include "bin.h"
namespace {
using namespace h;
struct Bad { string what, bytes; bool ok; int same_as; }; // ok: an intact file
typedef std::vector<std::pair<size_t, size_t>> Fields; // offset and width of the announced sizes
inline ull rd(const string& s, size_t o, size_t n) { ull v = 0; memcpy(&v, s.data() + o, n); return v; }
inline string wr(string s, size_t o, size_t n, ull v) { memcpy(&s[o], &v, n); return s; }
// all single damages of an intact file whose header is hlen bytes long, followed by nsz template size bytes
inline void damage(std::vector<Bad>& out, const string& good, size_t start, size_t hlen, size_t nsz, bool trunc = true) {
    auto add = [&](const string& w, const string& b) { if (b != good) out.push_back(Bad{w, b, false, 0}); };
    if (trunc) for (size_t k = 0; k < good.size(); ++k) add("truncated to " + std::to_string(k) + " of " + std::to_string(good.size()) + " bytes", good.substr(0, k));
    for (size_t k = start; k < start + hlen; ++k) for (int v : {good[k] + 1, good[k] - 1, good[k] ^ 0x20, 0, 255, (int)'0', (int)'9', (int)'\n'}) { string b = good; b[k] = (char)v; add("header byte " + std::to_string(k) + " set to " + std::to_string(v & 255), b); }
    for (size_t k = start + hlen; k < start + hlen + nsz; ++k) for (int v = 0; v < 256; ++v) { string b = good; b[k] = (char)v; add("template size byte " + std::to_string(k) + " set to " + std::to_string(v), b); }
}
inline std::vector<ull> extremes(ull v, size_t width, std::initializer_list<ull> units) {
    std::vector<ull> r; ull max = width == 8 ? ~0ULL : (1ULL << (width * 8)) - 1;
    for (ull k = 1; k <= 9; ++k) r.push_back(v + k);
    for (ull k = 0; k < 3; ++k) r.push_back(max - k);
    for (size_t b = 4; b < width * 8; ++b) for (ull k : {0ULL, 1ULL}) { r.push_back((1ULL << b) + v + k); r.push_back((1ULL << b) - 1 + k); }
    if (width == 8) for (ull u : units) for (ull q = 1; q < u; ++q) { ull base = (ull)(((unsigned __int128)q << 64) / u); for (ull k = 0; k < 3; ++k) { r.push_back(base + k); r.push_back(base + v + k); } }
    for (ull& x : r) x &= max;
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r;
}
struct Refuse : omc::Suite {
    char nm[80]; std::vector<Bad> bad; bool ready = false; size_t cur = 0; int how = 0;
    Refuse() : Suite(nm) {}
    virtual void make() = 0;
    size_t count() override { if (!ready) { make(); ready = true; for (size_t k = 0; k < bad.size(); ++k) for (int h = 0; h < 3; ++h) if (bad[k].ok || k % 10 == 0 || (int)(k % 3) == h || omc::thorough()) ways.push_back({(uint32_t)k, (uint8_t)h}); } return ways.size(); }
    std::vector<std::pair<uint32_t, uint8_t>> ways; // every intact and every tenth damaged file is offered in all three ways, the others in one
    void prepare(size_t i) override { cur = ways[i].first; how = ways[i].second; put_file(path("in.bin"), bad[cur].bytes); }
    string describe() override { return string(nm) + " " + bad[cur].what + " how=" + std::to_string(how); }
    void configs(std::vector<Config>& o) override { if (bad[cur].ok || cur % 16 == 0 || omc::thorough()) { cfg_full(o, {1, 2}); cfg_policy(o, {3, 8}); } else cfg_full(o, {cur % 4 ? 1 : 2}); }
    virtual void attempt(const string& p, int how) = 0;
    void body() override {
        string p; { omc::Quiet q; p = path("in.bin"); }
        bool refused = false;
        try { attempt(p, how); }
        catch (pigo::Error&) { refused = true; }
        catch (std::exception& e) { omc::fail(string("something else than a PIGO Error is thrown: ") + e.what()); }
        omc::outcome(refused);
        if (refused && bad[cur].ok) omc::fail("an intact file is refused");
        if (!refused && !bad[cur].ok) omc::fail("a damaged file is accepted");
        { omc::Quiet q; string().swap(p); }
    }
};
template <class C> void load3(const string& p, int how, pigo::FileType t, bool autodetect) {
    C* c = nullptr;
    if (how == 0) c = new C(p, t);
    else if (how == 1 && autodetect) c = new C(p);
    else { pigo::File f(p, pigo::READ); c = new C(f, how == 1 ? t : autodetect ? pigo::AUTO : t); }
    c->free(); delete c;
}
// detection can only be relied on while the file starts like a PIGO file
inline bool detectable(const string& b) { return b.size() >= 4 && b.substr(0, 4) == "PIGO"; }
static const std::vector<Entry> contents[] = {{}, {{1, 0, 3}}, {{0, 1, 1}, {0, 2, 2}, {2, 0, 5}}, {{0, 0, 1}, {1, 1, 2}, {1, 2, 3}, {3, 3, 4}, {3, 0, 5}}};
static const char* foreign[] = {"PIGO-COO-v1", "PIGO-CSR-v2", "PIGO-DiGraph-v1", "PIGO-Tensor-2", "PIGO-COO-v0", "PIGO-COO-v2", "PIGO-CSR-v1", "PIGO-CSR-v3", "PIGO-DiGraph-v0", "PIGO-DiGraph-v2", "PIGO-Tensor-1", "PIGO-Tensor-3", "PIGO", "PIGO-", "PIGO-XXX-v1", "PIGO-coo-v1"};
inline void crossed(std::vector<Bad>& out, const string& mine, const string& good) { for (auto f : foreign) if (mine != f) out.push_back(Bad{string("header ") + f, f + good.substr(mine.size()), false, 0}); }

template <class L, class O, int S, class W, bool wgt> struct Coo : Refuse {
    typedef pigo::COO<L, O, typename St<L, S>::t, false, false, false, wgt, W, typename St<W, S>::t> C;
    Coo() { snprintf(nm, sizeof nm, "coo_%s%s%s_%s", tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    void make() override {
        for (auto e : contents) {
            if (!wgt) zero_w(e);
            string g = coo_bin<L, O, W>(e, Dims{4, 4, 4}, wgt); bad.push_back(Bad{"intact", g, true, 0});
            damage(bad, g, 0, 11, 2); crossed(bad, "PIGO-COO-v1", g);
            size_t mo = 13 + 3 * sizeof(L);
            for (ull v : extremes(e.size(), sizeof(O), {sizeof(L), 2 * sizeof(L), 2 * sizeof(L) + sizeof(W), sizeof(W)})) if (v > e.size()) bad.push_back(Bad{"announces " + std::to_string(v) + " entries", wr(g, mo, sizeof(O), v), false, 0});
            if (wgt && e.size()) bad.push_back(Bad{"saved without weights", coo_bin<L, O, W>(e, Dims{4, 4, 4}, false), false, 0});
        }
    }
    void attempt(const string& p, int how) override { load3<C>(p, how, pigo::PIGO_COO_BIN, detectable(bad[cur].bytes) && bad[cur].what.compare(0, 7, "header ")); }
};
template <class L, class O, class W> void damage_csr(std::vector<Bad>& bad, const string& g, size_t o, size_t n, size_t m, bool wgt, bool trunc) {
    damage(bad, g, o, 11, 2, trunc);
    size_t no = o + 13, mo = no + sizeof(L);
    size_t left = g.size() - (o + 13 + 3 * sizeof(L) + sizeof(O)); // what follows the sizes
    unsigned __int128 es = sizeof(L) + (wgt ? sizeof(W) : 0);
    auto fits = [&](unsigned __int128 a, unsigned __int128 b) { return (a + 1) * sizeof(O) + b * es <= left; };
    auto en = extremes(n, sizeof(L), {sizeof(O)}), em = extremes(m, sizeof(O), {sizeof(L), sizeof(W), (ull)es});
    for (ull v : en) if (!fits(v, m)) bad.push_back(Bad{"announces " + std::to_string(v) + " rows", wr(g, no, sizeof(L), v), false, 0});
    for (ull v : em) if (!fits(n, v)) bad.push_back(Bad{"announces " + std::to_string(v) + " entries", wr(g, mo, sizeof(O), v), false, 0});
    // both at once: only the combinations whose size wraps around or whose parts each look fine
    for (ull a : en) for (ull b : em) { unsigned __int128 t = ((unsigned __int128)a + 1) * sizeof(O) + b * es; if (t > left && ((ull)t <= left || (uint32_t)t <= left || (a <= left && b <= left))) bad.push_back(Bad{"announces " + std::to_string(a) + " rows and " + std::to_string(b) + " entries", wr(wr(g, no, sizeof(L), a), mo, sizeof(O), b), false, 0}); }
}
template <class L, class O, int S, class W, bool wgt> struct Csr : Refuse {
    typedef pigo::CSR<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> C;
    Csr() { snprintf(nm, sizeof nm, "csr_%s%s%s_%s", tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    void make() override {
        for (auto e : contents) for (ll n : {4, 6, 0}) {
            if (!wgt) zero_w(e);
            if (n == 0 && e.size()) continue;
            e = by_row(e); string g = csr_bin<L, O, W>(e, Dims{n, n, 4}, wgt); bad.push_back(Bad{"intact", g, true, 0});
            damage_csr<L, O, W>(bad, g, 0, n, e.size(), wgt, true); crossed(bad, "PIGO-CSR-v2", g);
            if (wgt && e.size()) bad.push_back(Bad{"saved without weights", csr_bin<L, O, W>(e, Dims{n, n, 4}, false), false, 0});
        }
    }
    void attempt(const string& p, int how) override { load3<C>(p, how, pigo::PIGO_CSR_BIN, detectable(bad[cur].bytes) && bad[cur].what.compare(0, 7, "header ")); }
};
template <class L, class O, int S, class W, bool wgt> struct Dig : Refuse {
    typedef pigo::DiGraph<L, O, typename St<L, S>::t, typename St<O, S>::t, wgt, W, typename St<W, S>::t> C;
    Dig() { snprintf(nm, sizeof nm, "digraph_%s%s%s_%s", tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    void make() override {
        for (auto e : contents) {
            if (!wgt) zero_w(e);
            string g = digraph_bin<L, O, W>(e, Dims{4, 4, 4}, wgt); bad.push_back(Bad{"intact", g, true, 0});
            size_t part = csr_bin<L, O, W>(e, Dims{4, 4, 4}, wgt).size();
            damage(bad, g, 0, 15, 0); crossed(bad, "PIGO-DiGraph-v1", g);
            std::vector<Bad> tmp; damage_csr<L, O, W>(tmp, g, 15 + part, 4, e.size(), wgt, false); for (auto& b : tmp) { b.what = "out-edges: " + b.what; bad.push_back(b); }
            tmp.clear(); damage_csr<L, O, W>(tmp, g.substr(0, 15 + part), 15, 4, e.size(), wgt, false); for (auto& b : tmp) { b.what = "in-edges: " + b.what; b.bytes += g.substr(15 + part); bool over = b.what.find("announces") != string::npos; if (!over) bad.push_back(b); }
            for (auto f : foreign) if (string("PIGO-CSR-v2") != f) { bad.push_back(Bad{string("in-edges ") + f, "PIGO-DiGraph-v1" + (f + g.substr(15 + 11)), false, 0}); bad.push_back(Bad{string("out-edges ") + f, g.substr(0, 15 + part) + f + g.substr(15 + part + 11), false, 0}); }
        }
    }
    void attempt(const string& p, int how) override { load3<C>(p, how, pigo::PIGO_DIGRAPH_BIN, detectable(bad[cur].bytes) && bad[cur].what.compare(0, 7, "header ")); }
};
template <class L, class O, int S, class W, bool wgt> struct Tns : Refuse {
    typedef pigo::Tensor<L, O, typename St<L, S>::t, W, typename St<W, S>::t, wgt> C;
    Tns() { snprintf(nm, sizeof nm, "tensor_%s%s%s_%s", tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    void make() override {
        for (size_t m : {0, 1, 3, 5}) for (size_t order : {1, 2, 3, 4}) {
            std::vector<TEntry> e; for (size_t k = 0; k < m; ++k) { TEntry t; for (size_t j = 0; j < order; ++j) t.c.push_back((k + j) % 4); t.w = wval(k); e.push_back(t); }
            string g = tensor_bin<L, O, W>(e, order, wgt); bad.push_back(Bad{"intact", g, true, 0});
            damage(bad, g, 0, 13, 2 + wgt); crossed(bad, "PIGO-Tensor-2", g);
            size_t oo = 15 + wgt, mo = oo + sizeof(O), left = g.size() - mo - sizeof(O);
            auto fits = [&](unsigned __int128 a, unsigned __int128 b) { return a * b * sizeof(L) + b * (wgt ? sizeof(W) : 0) <= left; };
            auto eo = extremes(order, sizeof(O), {sizeof(L), sizeof(L) * (m ? m : 1)}), em = extremes(m, sizeof(O), {sizeof(L), sizeof(L) * order, sizeof(L) * order + sizeof(W), sizeof(W)});
            for (ull v : eo) if (!fits(v, m)) bad.push_back(Bad{"announces order " + std::to_string(v), wr(g, oo, sizeof(O), v), false, 0});
            for (ull v : em) if (!fits(order, v)) bad.push_back(Bad{"announces " + std::to_string(v) + " entries", wr(g, mo, sizeof(O), v), false, 0});
            for (ull a : eo) for (ull b : em) if (!fits(a, b)) { ull t = (ull)a * b * sizeof(L) + b * (wgt ? sizeof(W) : 0); if (t <= left || (uint32_t)t <= left) bad.push_back(Bad{"announces order " + std::to_string(a) + " and " + std::to_string(b) + " entries", wr(wr(g, oo, sizeof(O), a), mo, sizeof(O), b), false, 0}); }
        }
    }
    void attempt(const string& p, int how) override { load3<C>(p, how, pigo::PIGO_TENSOR_BIN, detectable(bad[cur].bytes) && bad[cur].what.compare(0, 7, "header ")); }
};
// a file of one kind loaded as another, by explicit type or by detection
struct Cross : Refuse {
    struct K { int target; pigo::FileType t; }; std::vector<K> ks;
    Cross() { snprintf(nm, sizeof nm, "crossed"); }
    void make() override {
        typedef uint32_t U; std::vector<Entry> e = contents[2]; Dims d{4, 4, 4}; std::vector<TEntry> te; for (auto& k : e) { TEntry t; t.c = {k.x, k.y}; t.w = k.w; te.push_back(t); }
        string f[4] = {coo_bin<U, U, float>(e, d, true), csr_bin<U, U, float>(by_row(e), d, true), digraph_bin<U, U, float>(e, d, true), tensor_bin<U, U, float>(te, 2, true)};
        pigo::FileType ty[4] = {pigo::PIGO_COO_BIN, pigo::PIGO_CSR_BIN, pigo::PIGO_DIGRAPH_BIN, pigo::PIGO_TENSOR_BIN}; const char* n[4] = {"COO", "CSR", "DiGraph", "Tensor"};
        for (int file = 0; file < 4; ++file) for (int target = 0; target < 4; ++target) for (int t = 0; t < 5; ++t) {
            pigo::FileType as = t < 4 ? ty[t] : pigo::AUTO; int eff = t < 4 ? t : file;
            bool can = eff == file && (target == 3 ? eff == 3 : target == 2 ? eff <= 2 : eff <= 1); // a DiGraph is not loaded into a COO or CSR
            bad.push_back(Bad{string(n[file]) + " file loaded into a " + n[target] + " as " + (t < 4 ? n[t] : "detected"), f[file], can, 0}); ks.push_back(K{target, as});
        }
    }
    void attempt(const string& p, int how) override {
        K k = ks[cur]; pigo::File* f = how == 2 ? new pigo::File(p, pigo::READ) : nullptr;
        struct G { pigo::File* f; ~G() { delete f; } } g{f};
        auto go = [&](auto* c) { c = f ? new typename std::remove_pointer<decltype(c)>::type(*f, k.t) : k.t == pigo::AUTO ? new typename std::remove_pointer<decltype(c)>::type(p) : new typename std::remove_pointer<decltype(c)>::type(p, k.t); c->free(); delete c; };
        typedef uint32_t U;
        switch (k.target) { case 0: go((pigo::COO<U, U, U*, false, false, false, true>*)nullptr); break; case 1: go((pigo::CSR<U, U, U*, U*, true>*)nullptr); break; case 2: go((pigo::DiGraph<U, U, U*, U*, true>*)nullptr); break; default: go((pigo::Tensor<>*)nullptr); }
    }
};
#define REFS(...) OMC_ADD(Coo<__VA_ARGS__>()); OMC_ADD(Csr<__VA_ARGS__>()); OMC_ADD(Dig<__VA_ARGS__>()); OMC_ADD(Tns<__VA_ARGS__>());
}
