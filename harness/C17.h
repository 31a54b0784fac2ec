// C17 parallel operations are free of data races and independent of the schedule: every operation, all interleavings
#include "ops.h"
namespace {
using namespace h;
enum Kind { ALL2, ALL3, FOUR, MANY };
template <class L, class O, int S, class W, bool wgt> struct Race : omc::Suite {
    typedef Ops<L, O, S, W, wgt> X; X x; char nm[60]; int kind, op, size, how;
    Race(int k) : Suite(nm), kind(k) { static const char* n[] = {"all2", "all3", "four", "many"}; snprintf(nm, sizeof nm, "%s_%s%s%s%s", n[k], tname<L>(), tname<O>(), sname(S), wgt ? tname<W>() : ""); }
    static int sizes(int k) { return k == ALL2 ? 4 : k == ALL3 ? 4 : k == FOUR ? 3 : 2; }
    size_t count() override { return (size_t)NOPID * sizes(kind) * (kind == MANY ? 1 : 2); }
    void prepare(size_t i) override { op = i % NOPID; i /= NOPID; size = i % sizes(kind); i /= sizes(kind); how = i; if (kind == MANY) size += 3; x.prepare(op, size, how, 0); }
    string describe() override { return string(nm) + ": " + opname(op) + " size " + std::to_string(size) + " how " + std::to_string(how); }
    void configs(std::vector<Config>& o) override {
        if (x.skip) return; bool th = omc::thorough();
        if (kind == ALL2) { if (size < 3) cfg_full(o, {1, 2}); else cfg_bound(o, {2}, th ? 5 : 4); }
        else if (kind == ALL3) { if (size < 3) cfg_full(o, {3}); else cfg_bound(o, {3}, th ? 3 : 2); }
        else if (kind == FOUR) { if (size < 2) cfg_full(o, {4}); else cfg_bound(o, {4}, th ? 4 : 3); cfg_bound(o, {5}, th ? 3 : 2); }
        else { cfg_policy(o, {2, 3, 4, 7, 8, 16}); cfg_bound(o, {2}, th ? 2 : 1); cfg_bound(o, {3, 5}, 1); }
    }
    void body() override {
        try { x.run(); } catch (std::exception& e) { omc::fail(string(opname(op)) + " fails: " + e.what()); }
        omc::outcome(op);
    }
};
#define RC(...) OMC_ADD(Race<__VA_ARGS__>(ALL2)); OMC_ADD(Race<__VA_ARGS__>(ALL3)); OMC_ADD(Race<__VA_ARGS__>(FOUR)); OMC_ADD(Race<__VA_ARGS__>(MANY));
}
