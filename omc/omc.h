// omc - a small model checker for OpenMP code: harness-side interface.
//
// A harness is an ordinary C++ program that includes the code under test (compiled with
// -fsanitize=thread so that every memory access and every atomic calls a hook) and registers
// Suites.  Linked with libomc.so it is explored exhaustively by the omc runtime (rt.cpp); linked
// with native.o and the real libgomp the same bodies run free (the conformance pass).
#ifndef OMC_H
#define OMC_H
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace omc {

enum Mode {
    FULL,    // all interleavings of visible operations (DPOR + sleep sets + state matching)
    BOUND,   // all schedules with at most `bound` deviations from the default schedule
    POLICY   // the three canonical schedules: ascending, descending, round-robin
};

struct Config {
    int T;          // team size
    Mode mode;
    int bound;      // for BOUND
    int pattern;    // byte that fresh heap and stack memory is filled with
    bool realchunk; // keep the chunk sizes in the source (FULL/BOUND default: 1)
};

struct Suite {
    const char* name;
    int faults = 0;            // number of simultaneous environment faults to enumerate (0, 1, 2)
    Suite(const char* n) : name(n) {}
    virtual ~Suite() {}
    virtual size_t count() = 0;                 // number of cases
    virtual void prepare(size_t i) = 0;         // build case i (input file, expected results); not explored
    virtual void configs(std::vector<Config>& out) = 0; // for the prepared case
    virtual void body() = 0;                    // the explored program
    virtual std::string describe() = 0;         // for the prepared case
};

extern "C" {
    void omc_quiet_enter();
    void omc_quiet_leave();
    void omc_fail(const char* msg) __attribute__((noreturn));
    void omc_observe(const void* p, size_t n);
    void omc_outcome(const void* p, size_t n);
    void omc_step(uint64_t model_state);        // one transition of the harness's reference model
    const char* omc_dir();
    int omc_tier();                 // 0 quick, 1 thorough
    int omc_native();
    int omc_fault_fired();          // number of injected faults so far in this execution
    const char* omc_fault_name();   // name of the call that failed
    long omc_open_fds();            // descriptors opened by the code under test and not closed
    long omc_open_maps();           // mappings made by it and not unmapped
    long omc_live_blocks();         // heap blocks allocated by it and not freed
    long omc_live_bytes();
    void omc_set_fault_window(int on); // faults are injected only while the window is open
    int omc_team();                 // configured team size
    void omc_add(Suite* s);
    int omc_main(int argc, char** argv);
}

// Code in the scope of a Quiet is the harness's own: not monitored, libc heap.
struct Quiet {
    Quiet() { omc_quiet_enter(); }
    ~Quiet() { omc_quiet_leave(); }
    Quiet(const Quiet&) = delete;
};

inline bool thorough() { return omc_tier() == 1; }
inline bool native() { return omc_native(); }
inline const char* dir() { return omc_dir(); }
[[noreturn]] inline void fail(const std::string& s) { omc_quiet_enter(); omc_fail(s.c_str()); }
template <class T> inline void observe(const T& t) { omc_observe(&t, sizeof t); }
template <class T> inline void outcome(const T& t) { omc_outcome(&t, sizeof t); }
inline void outcome_bytes(const std::string& s) { omc_outcome(s.data(), s.size()); }

} // namespace omc
#endif
