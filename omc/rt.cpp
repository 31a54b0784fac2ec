// omc runtime: controlled OpenMP runtime + memory monitor + stateless/stateful explorer.
// See DESIGN.md.  Single OS thread per process; team members are fibers on fixed-address stacks.
#include "omc.h"
#include <pthread.h>
#include <cerrno>
#include <cstdarg>
#include <csetjmp>
#include <csignal>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <link.h>
#include <new>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

namespace {

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;

// ---------------------------------------------------------------- small containers (libc heap)
template <class T> struct Vec {
    T* a = nullptr; size_t n = 0, cap = 0;
    void grow(size_t c) { if (c <= cap) return; size_t k = cap ? cap * 2 : 16; if (k < c) k = c;
        a = (T*)::realloc((void*)a, k * sizeof(T)); if (!a) { fprintf(stderr, "omc: out of memory\n"); _exit(3); } cap = k; }
    T& push(const T& t) { if (n == cap) { T c = t; grow(n + 1); a[n] = c; } else a[n] = t; return a[n++]; }
    void resize(size_t k) { grow(k); for (size_t i = n; i < k; ++i) memset((void*)&a[i], 0, sizeof(T)); n = k; }
    T& operator[](size_t i) { return a[i]; }
    const T& operator[](size_t i) const { return a[i]; }
    T& back() { return a[n - 1]; }
    void clear() { n = 0; }
};
// open-addressing map from u64 to u32 index, cleared by generation
struct IMap {
    struct E { u64 k; u32 v; u32 g; }; E* t = nullptr; size_t cap = 0, n = 0; u32 g = 1;
    void init(size_t c) { cap = c; t = (E*)calloc(c, sizeof(E)); n = 0; g = 1; }
    void clear() { if (n) { ++g; n = 0; if (!g) { memset(t, 0, cap * sizeof(E)); g = 1; } } }
    static u64 mix(u64 k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdULL; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ULL; k ^= k >> 33; return k; }
    u32* find(u64 k) { if (!cap) init(1024); size_t i = mix(k) & (cap - 1); while (t[i].g == g) { if (t[i].k == k) return &t[i].v; i = (i + 1) & (cap - 1); } return nullptr; }
    void put(u64 k, u32 v) { if (!cap) init(1024); if (n * 2 > cap) { E* o = t; size_t oc = cap; u32 og = g; init(cap * 2); for (size_t i = 0; i < oc; ++i) if (o[i].g == og) put(o[i].k, o[i].v); ::free(o); }
        size_t i = mix(k) & (cap - 1); while (t[i].g == g) { if (t[i].k == k) { t[i].v = v; return; } i = (i + 1) & (cap - 1); } t[i].k = k; t[i].v = v; t[i].g = g; ++n; }
};
struct H128 { u64 a, b; };
struct HSet {
    H128* t = nullptr; size_t cap = 0, n = 0;
    void clear() { if (n) memset(t, 0, cap * sizeof(H128)); n = 0; if (cap > (1u << 16)) { ::free(t); t = nullptr; cap = 0; } }
    bool add(H128 h) { if (!h.a && !h.b) h.a = 1; if (!cap) { cap = 256; t = (H128*)calloc(cap, sizeof(H128)); }
        if (n * 2 > cap) { H128* o = t; size_t oc = cap; cap *= 2; t = (H128*)calloc(cap, sizeof(H128)); n = 0; for (size_t i = 0; i < oc; ++i) if (o[i].a || o[i].b) add(o[i]); ::free(o); }
        size_t i = h.a & (cap - 1); while (t[i].a || t[i].b) { if (t[i].a == h.a && t[i].b == h.b) return false; i = (i + 1) & (cap - 1); } t[i] = h; ++n; return true; }
};
struct Hash {
    u64 a = 0x9e3779b97f4a7c15ULL, b = 0xc2b2ae3d27d4eb4fULL;
    inline void w(u64 x) { a = (a ^ x) * 0xff51afd7ed558ccdULL; a ^= a >> 32; b = (b + x) * 0x9fb21c651e98df25ULL; b ^= b >> 29; }
    void add(const void* p, size_t n) { const char* c = (const char*)p; while (n >= 8) { u64 x; memcpy(&x, c, 8); w(x); c += 8; n -= 8; } u64 x = 0; if (n) memcpy(&x, c, n); w(x ^ ((u64)n << 56)); }
    H128 get() { H128 h; h.a = IMap::mix(a ^ (b << 1)); h.b = IMap::mix(b + 0x1234567); return h; }
};

// ---------------------------------------------------------------- address space
#ifdef OMC_MANY                                   // the build for large teams: canonical schedules only
const bool MANY = true;
const uintptr_t BASE = 0x200000000000UL, SIZE = 1536UL << 20;
const int MAXF = 301, NODEF = 1, TIDSH = 22;
const size_t STK = 512UL << 10, STK_FILL = 8192, HEAP0_OFF = 160UL << 20, HEAPN_SZ = 4UL << 20;
struct Set {                                      // a set of thread numbers
    u64 w[5];
    Set(u64 x = 0) { w[0] = x; for (int i = 1; i < 5; ++i) w[i] = 0; }
    bool has(int t) const { return w[t >> 6] >> (t & 63) & 1; }
    void add(int t) { w[t >> 6] |= 1ULL << (t & 63); }
    void addall(const Set& o) { for (int i = 0; i < 5; ++i) w[i] |= o.w[i]; }
    Set minus(const Set& o) const { Set r; for (int i = 0; i < 5; ++i) r.w[i] = w[i] & ~o.w[i]; return r; }
    Set meet(const Set& o) const { Set r; for (int i = 0; i < 5; ++i) r.w[i] = w[i] & o.w[i]; return r; }
    bool any() const { for (int i = 0; i < 5; ++i) if (w[i]) return true; return false; }
    bool same(const Set& o) const { for (int i = 0; i < 5; ++i) if (w[i] != o.w[i]) return false; return true; }
    unsigned low() const { return w[0]; }
};
#else
const bool MANY = false;
const uintptr_t BASE = 0x200000000000UL, SIZE = 256UL << 20;
const int MAXF = 17, NODEF = 17, TIDSH = 24;
const size_t STK = 2UL << 20, STK_FILL = 24576, HEAP0_OFF = 48UL << 20, HEAPN_SZ = 4UL << 20;
struct Set {                                      // a set of thread numbers
    u32 w;
    Set(u32 x = 0) : w(x) {}
    bool has(int t) const { return w >> t & 1; }
    void add(int t) { w |= 1u << t; }
    void addall(Set o) { w |= o.w; }
    Set minus(Set o) const { return Set(w & ~o.w); }
    Set meet(Set o) const { return Set(w & o.w); }
    bool any() const { return w != 0; }
    bool same(Set o) const { return w == o.w; }
    unsigned low() const { return w; }
};
#endif
const u32 CLKMAX = (1u << TIDSH) - 1;
const uintptr_t HEAP0 = BASE + HEAP0_OFF;        // arena 0 (master, also sequential code)
const size_t HEAP0_SZ = 64UL << 20;
const uintptr_t HEAPN = HEAP0 + HEAP0_SZ;        // the other arenas
const uintptr_t MAPS = HEAPN + (MAXF - 1) * HEAPN_SZ; // file mappings
const uintptr_t MAPS_END = BASE + SIZE;
static_assert(MAXF * STK <= HEAP0_OFF && MAPS + (80UL << 20) <= MAPS_END, "layout");
u8* const AMAP = (u8*)0x210000000000UL;          // 1 byte per region byte: 1 = addressable
struct Cell { u32 gen, w, r, rs, as, pad; };
Cell* const CELLS = (Cell*)0x220000000000UL;

uintptr_t exe_lo, exe_hi;                        // writable segment of the harness executable
Cell* exe_cells; u8* exe_snap;
char* tls_ptr; size_t tls_size; char* tls_init;

// ---------------------------------------------------------------- state
enum OpKind : u8 { K_NONE, K_R, K_W, K_A };      // K_A: commuting add (reference counting)
struct Op { u64 obj; u8 kind; u8 lock; };
enum FState : u8 { F_IDLE, F_RUN, F_READY, F_BAR, F_DONE };

struct WS { u8 kind; bool claimed; bool ull; bool up; long next, end, incr, chunk; u64 unext, uend, uincr, uchunk; void* copy; int left; };
struct Team { int n; Vec<WS> ws; };

struct Fiber {
    void* sp; int tid; FState st; Op pend; u32 clk; u32 vc[MAXF]; u32 epoch;
    void* user_sp; void* eh[2]; char* tls; bool stack_used;
    Team* team; int team_tid; u32 ws_seq; int level; // level counts nested serial regions
    struct Saved { Team* team; int tid; u32 ws_seq; } nest[32];
    long st_next; // cursor for static loops handed out through the API
    void (*fn)(void*); void* data;
    u32 dclk[MAXF];       // DPOR clock
    int bar_cancel;
};
Fiber fib[MAXF];
Fiber* cur = nullptr;
void* ctrl_sp;
int user_mode = 0;      // 1 while code under test runs
int quiet_depth = 0;
inline void set_um();
bool in_exec = false;
u32 gen = 1;
bool race_on = false;
u64 steps = 0, step_limit = 400000000ULL;
Team teams[2]; Team serial_team;
int nthreads_req;       // omp_set_num_threads
int cfg_T; omc::Config cfg; omc::Suite* suite; size_t cur_case; int cfg_index;
Vec<omc::Suite*> suites;
int tier = 0;
char scratch[256];

// violation record
char vio_msg[4096]; bool vio = false; u64 vio_pc1;
sigjmp_buf ctrl_jmp;
bool cut = false; // execution abandoned because redundant

// stats
struct Stats { u64 execs, complete, pruned, sleepcut, states, trans, nodes, cases, items, outcomes, multi, capped, replays, faults, divergence_checks, accesses, steps_h, step_states; } S;
Hash obs, outc;
HSet visited, outcomes_seen, step_states;

[[noreturn]] void internal(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); char b[2048]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    dprintf(2, "omc internal error: %s (suite %s case %zu)\n", b, suite ? suite->name : "?", cur_case);
    if (getenv("OMC_ABORT")) abort();
    _exit(3);
}

extern "C" void omc_switch(void** save, void* to);
asm(".text\n.p2align 4\n.globl omc_switch\n.hidden omc_switch\n.type omc_switch,@function\nomc_switch:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n.size omc_switch,.-omc_switch\n");

inline void eh_swap_out(Fiber* f) { void** g = (void**)__cxxabiv1::__cxa_get_globals(); f->eh[0] = g[0]; f->eh[1] = (void*)(uintptr_t)*(unsigned*)&g[1]; }
inline void eh_swap_in(Fiber* f) { void** g = (void**)__cxxabiv1::__cxa_get_globals(); g[0] = f->eh[0]; *(unsigned*)&g[1] = (unsigned)(uintptr_t)f->eh[1]; }

inline void set_um() { user_mode = in_exec && cur && quiet_depth == 0; }

// from controller to fiber
void resume(Fiber* f) {
    cur = f;
    eh_swap_in(f);
    if (tls_size && f->tls) memcpy(tls_ptr, f->tls, tls_size);
    f->epoch = ((u32)f->tid << TIDSH) | f->clk;
    set_um();
    omc_switch(&ctrl_sp, f->sp);
}
// from fiber to controller
void yield_ctrl() {
    Fiber* f = cur;
    user_mode = 0;
    eh_swap_out(f);
    if (tls_size && f->tls) memcpy(f->tls, tls_ptr, tls_size);
    omc_switch(&f->sp, ctrl_sp);
}

[[noreturn]] void abort_exec() { user_mode = 0; cur = nullptr; siglongjmp(ctrl_jmp, 1); }

[[noreturn]] void violate(const char* fmt, ...) {
    user_mode = 0;
    va_list ap; va_start(ap, fmt);
    if (!vio) { vio = true; vsnprintf(vio_msg, sizeof vio_msg, fmt, ap); }
    va_end(ap);
    abort_exec();
}

// ---------------------------------------------------------------- arenas
struct Arena { uintptr_t lo, hi, cur, high; } ar[MAXF];
const size_t RZ = 16;
struct BlkHdr { u64 size; u32 magic; u32 kind; };   // lives in the 16 bytes before the block
long live_blocks, live_bytes;
enum { BK_MALLOC = 1, BK_NEW = 2, BK_NEWA = 3 };

inline void addr_set(uintptr_t a, size_t n, u8 v) { memset(AMAP + (a - BASE), v, n); }
inline bool in_region(const void* p) { return (uintptr_t)p - BASE < SIZE; }

void* arena_alloc(size_t n, size_t align, int kind) {
    Arena& A = ar[cur ? cur->tid : 0];
    if (align < 16) align = 16;
    uintptr_t p = (A.cur + RZ + sizeof(BlkHdr) + align - 1) & ~(uintptr_t)(align - 1);
    if (n > (1UL << 40) || p + n + RZ > A.hi) return nullptr;
    BlkHdr* h = (BlkHdr*)(p - sizeof(BlkHdr)); h->size = n; h->magic = 0xA11CA11C; h->kind = kind;
    memset((void*)p, cfg.pattern, n);
    addr_set(p, n, 1);
    A.cur = (p + n + 15) & ~15UL; if (A.cur == p) A.cur += 16;
    if (A.cur > A.high) A.high = A.cur;
    ++live_blocks; live_bytes += n;
    return (void*)p;
}
const char* region_name(uintptr_t a);
void free_race(uintptr_t a, size_t n);
void arena_free(void* p, int kind) {
    BlkHdr* h = (BlkHdr*)((char*)p - sizeof(BlkHdr));
    if ((uintptr_t)p & 15 || (uintptr_t)p < HEAP0 || (uintptr_t)p >= MAPS || (h->magic != 0xA11CA11C && h->magic != 0xDEADDEAD))
        violate("free of a pointer that is not the start of a heap block");
    if (h->magic == 0xDEADDEAD) violate("double free of a heap block of %llu bytes", (unsigned long long)h->size);
    if (kind && h->kind != (u32)kind) violate("mismatched deallocation: block from %s released with %s",
        h->kind == BK_MALLOC ? "malloc" : h->kind == BK_NEW ? "new" : "new[]", kind == BK_MALLOC ? "free" : kind == BK_NEW ? "delete" : "delete[]");
    if (race_on && h->size) free_race((uintptr_t)p, h->size);
    h->magic = 0xDEADDEAD;
    --live_blocks; live_bytes -= h->size;
    addr_set((uintptr_t)p, h->size, 2);
    // contents are left for determinism of the state hash; accesses are flagged through the map
}

// Memory the harness allocates in Quiet scopes during an execution: deterministic addresses, no reuse, part of
// the state.  Valid until the execution ends.
const uintptr_t QLO = 0x230000000000UL, QHI = QLO + (1UL << 30);
uintptr_t qcur = QLO;
inline bool in_quiet(const void* p) { return (uintptr_t)p - QLO < QHI - QLO; }
void* quiet_alloc(size_t n, size_t al) {
    if (al < 16) al = 16;
    uintptr_t p = (qcur + 16 + al - 1) & ~(uintptr_t)(al - 1);
    if (n > QHI - QLO || p + n + 16 > QHI) internal("the harness needs too much memory");
    ((u64*)p)[-1] = n; ((u64*)p)[-2] = 0; memset((void*)p, 0, (n + 15) & ~15UL); qcur = p + ((n + 15) & ~15UL);
    return (void*)p;
}
inline void quiet_free(void* p) { if (!in_exec) internal("harness memory of an execution outlives it"); u64 n = ((u64*)p)[-1]; memset(p, 0, (n + 15) & ~15UL); if ((uintptr_t)p + ((n + 15) & ~15UL) == qcur) { /* the last block: give it back */ qcur = (uintptr_t)p - 16; } }

// ---------------------------------------------------------------- race detector
struct Side { u32 v[MAXF]; };
Vec<Side> rside, aside_w, aside_r; // indices start at 1
struct SyncVC { u32 v[MAXF]; };
Vec<SyncVC> syncs; IMap sync_map;

void new_gen(int n) {
    ++gen; rside.n = 1; aside_w.n = 1; aside_r.n = 1; syncs.n = 0; sync_map.clear();
    rside.grow(2); aside_w.grow(2); aside_r.grow(2);
    for (int i = 0; i < n; ++i) { fib[i].clk = 1; for (int j = 0; j < MAXF; ++j) fib[i].vc[j] = 0; fib[i].vc[i] = 1; fib[i].epoch = ((u32)i << TIDSH) | 1; }
}
inline bool hb(u32 e) { return (e & CLKMAX) <= cur->vc[e >> TIDSH]; }

const char* region_name(uintptr_t a) {
    static char b[128];
    if (a >= exe_lo && a < exe_hi) return "global variable";
    if (a - BASE >= SIZE) return "memory outside the monitored region";
    if (a < HEAP0) { snprintf(b, sizeof b, "stack of thread %d", (int)((a - BASE) / STK)); return b; }
    if (a >= MAPS) return "file mapping";
    return "heap";
}
[[noreturn]] void race(uintptr_t a, bool wr, int other, const char* what, void* pc) {
    vio_pc1 = (u64)pc;
    violate("data race on %s: %s by thread %d is unordered with %s by thread %d", region_name(a), wr ? "write" : "read", cur->tid, what, other);
}
inline Cell* cell_of(uintptr_t a) {
    if (a - BASE < SIZE) return CELLS + (a - BASE);
    if (a - exe_lo < exe_hi - exe_lo) return exe_cells + (a - exe_lo);
    return nullptr;
}
void race_slow(Cell& c, uintptr_t a, bool wr, void* pc) {
    int t = cur->tid;
    if (c.gen != gen) { c.gen = gen; c.w = c.r = c.rs = c.as = 0; }
    if (c.w && !hb(c.w)) race(a, wr, c.w >> TIDSH, "a write", pc);
    if (c.as) {
        for (int j = 0; j < MAXF; ++j) {
            if (aside_w[c.as].v[j] > cur->vc[j]) race(a, wr, j, "an atomic write", pc);
            if (wr && aside_r[c.as].v[j] > cur->vc[j]) race(a, wr, j, "an atomic read", pc);
        }
    }
    if (wr) {
        if (c.rs) { for (int j = 0; j < MAXF; ++j) if (rside[c.rs].v[j] > cur->vc[j]) race(a, wr, j, "a read", pc); }
        else if (c.r && !hb(c.r)) race(a, wr, c.r >> TIDSH, "a read", pc);
        c.w = cur->epoch; c.r = 0; c.rs = 0;
    } else {
        if (c.rs) rside[c.rs].v[t] = cur->clk;
        else if (!c.r || hb(c.r)) c.r = cur->epoch;
        else { Side s; memset(&s, 0, sizeof s); s.v[c.r >> TIDSH] = c.r & CLKMAX; s.v[t] = cur->clk; rside.push(s); c.rs = rside.n - 1; }
    }
}
inline void race_check(uintptr_t a, size_t n, bool wr, void* pc) {
    Cell* c = cell_of(a); if (!c) return;
    u32 e = cur->epoch;
    for (size_t i = 0; i < n; ++i) {
        Cell& k = c[i];
        if (likely(k.gen == gen) && (wr ? (k.w == e && !k.r && !k.rs && !k.as) : (k.r == e))) continue;
        race_slow(k, a + i, wr, pc);
    }
}
void race_atomic(uintptr_t a, size_t n, bool wr, void* pc) {
    Cell* c = cell_of(a); if (!c) return;
    for (size_t i = 0; i < n; ++i) {
        Cell& k = c[i];
        if (k.gen != gen) { k.gen = gen; k.w = k.r = k.rs = k.as = 0; }
        if (k.w && !hb(k.w)) race(a, wr, k.w >> TIDSH, "a plain write", pc);
        if (wr) {
            if (k.rs) { for (int j = 0; j < MAXF; ++j) if (rside[k.rs].v[j] > cur->vc[j]) race(a, wr, j, "a plain read", pc); }
            else if (k.r && !hb(k.r)) race(a, wr, k.r >> TIDSH, "a plain read", pc);
        }
        if (!k.as) { Side z; memset(&z, 0, sizeof z); aside_w.push(z); aside_r.push(z); k.as = aside_w.n - 1; }
        (wr ? aside_w : aside_r)[k.as].v[cur->tid] = cur->clk;
    }
}
void free_race(uintptr_t a, size_t n) { race_check(a, n, true, nullptr); }
SyncVC& sync_of(u64 id) {
    u32* p = sync_map.find(id);
    if (!p) { SyncVC z; memset(&z, 0, sizeof z); syncs.push(z); sync_map.put(id, syncs.n - 1); return syncs.back(); }
    return syncs[*p];
}
void acquire(u64 id) { SyncVC& s = sync_of(id); for (int j = 0; j < MAXF; ++j) if (s.v[j] > cur->vc[j]) cur->vc[j] = s.v[j]; }
void release(u64 id, bool join) {
    SyncVC& s = sync_of(id);
    for (int j = 0; j < MAXF; ++j) if (!join || cur->vc[j] > s.v[j]) s.v[j] = cur->vc[j];
    ++cur->clk; if (cur->clk >= CLKMAX) internal("clock overflow"); cur->vc[cur->tid] = cur->clk; cur->epoch = ((u32)cur->tid << TIDSH) | cur->clk;
}

// ---------------------------------------------------------------- monitored accesses
[[noreturn]] void bad_access(uintptr_t a, size_t n, bool wr, void* pc) {
    uintptr_t x = a; while (x < a + n && x - BASE < SIZE && AMAP[x - BASE] == 1) ++x;
    vio_pc1 = (u64)pc;
    const char* how = "out of bounds";
    if (x - BASE < SIZE && AMAP[x - BASE] == 2) how = "after release";
    violate("%s of %zu byte(s) %s: %s", wr ? "write" : "read", n, how, region_name(x));
}
inline void access(uintptr_t a, size_t n, bool wr, void* pc) {
    if (unlikely(++steps > step_limit)) { violate("no termination within %llu memory accesses", (unsigned long long)step_limit); }
    uintptr_t o = a - BASE;
    if (likely(o < SIZE)) {
        const u8* m = AMAP + o;
        switch (n) {
            case 1: if (unlikely(m[0] != 1)) bad_access(a, n, wr, pc); break;
            case 2: { uint16_t v; memcpy(&v, m, 2); if (unlikely(v != 0x0101)) bad_access(a, n, wr, pc); break; }
            case 4: { u32 v; memcpy(&v, m, 4); if (unlikely(v != 0x01010101u)) bad_access(a, n, wr, pc); break; }
            case 8: { u64 v; memcpy(&v, m, 8); if (unlikely(v != 0x0101010101010101ULL)) bad_access(a, n, wr, pc); break; }
            default: for (size_t i = 0; i < n; ++i) if (unlikely(m[i] != 1)) bad_access(a, n, wr, pc);
        }
    }
    if (race_on) race_check(a, n, wr, pc);
}

} // namespace

// ---------------------------------------------------------------- tsan hooks
#define PC __builtin_return_address(0)
#define HOOK(N) \
    EXPORT void __tsan_read##N(void* p) { if (user_mode) access((uintptr_t)p, N, false, PC); } \
    EXPORT void __tsan_write##N(void* p) { if (user_mode) access((uintptr_t)p, N, true, PC); } \
    EXPORT void __tsan_unaligned_read##N(void* p) { if (user_mode) access((uintptr_t)p, N, false, PC); } \
    EXPORT void __tsan_unaligned_write##N(void* p) { if (user_mode) access((uintptr_t)p, N, true, PC); } \
    EXPORT void __tsan_read##N##_pc(void* p, void* pc) { if (user_mode) access((uintptr_t)p, N, false, pc); } \
    EXPORT void __tsan_write##N##_pc(void* p, void* pc) { if (user_mode) access((uintptr_t)p, N, true, pc); } \
    EXPORT void __tsan_volatile_read##N(void* p) { if (user_mode) access((uintptr_t)p, N, false, PC); } \
    EXPORT void __tsan_volatile_write##N(void* p) { if (user_mode) access((uintptr_t)p, N, true, PC); } \
    EXPORT void __tsan_unaligned_volatile_read##N(void* p) { if (user_mode) access((uintptr_t)p, N, false, PC); } \
    EXPORT void __tsan_unaligned_volatile_write##N(void* p) { if (user_mode) access((uintptr_t)p, N, true, PC); } \
    EXPORT void __tsan_read_write##N(void* p) { if (user_mode) access((uintptr_t)p, N, true, PC); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)
EXPORT void __tsan_read_range(void* p, size_t n) { if (user_mode && n) access((uintptr_t)p, n, false, PC); }
EXPORT void __tsan_write_range(void* p, size_t n) { if (user_mode && n) access((uintptr_t)p, n, true, PC); }
EXPORT void __tsan_vptr_update(void** p, void*) { if (user_mode) access((uintptr_t)p, 8, true, PC); }
EXPORT void __tsan_vptr_read(void** p) { if (user_mode) access((uintptr_t)p, 8, false, PC); }
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_init() {}
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}

// ---------------------------------------------------------------- scheduler and explorer
namespace {

struct Node {
    Set enabled, done, backtrack; int chosen; int phase; int cost_before;
    int nsleep; struct { u8 tid; Op op; } sleep[NODEF]; // sleep set on entry + explored choices
    Op op;            // op executed by chosen (with kind as executed)
    u32 clk[NODEF];    // DPOR clock of the transition
    Op pend[NODEF];
    int order[NODEF], norder; // BOUND: default order; alternative index
    int alt;
};
Vec<Node> nodes; size_t depth; size_t prefix; int phase;
bool team_running; int team_n;
Vec<int> replay_choices; bool replay_mode = false;
Vec<int> trace_choices;

struct ObjAcc { int w[MAXF], r[MAXF], a[MAXF]; }; // last transition index per thread and kind
Vec<ObjAcc> objs; IMap obj_map;

// locks
struct LockRec { u64 id; int owner; int count; };
Vec<LockRec> locks;
LockRec* lock_find(u64 id) { for (size_t i = 0; i < locks.n; ++i) if (locks[i].id == id) return &locks[i]; return nullptr; }
LockRec* lock_get(u64 id) { LockRec* l = lock_find(id); if (l) return l; LockRec z; z.id = id; z.owner = -1; z.count = 0; return &locks.push(z); }

inline bool op_enabled(Fiber& f) {
    if (f.st != F_READY) return false;
    if (f.pend.lock) { LockRec* l = lock_find(f.pend.obj); return !l || l->owner < 0; }
    return true;
}
inline bool dep(const Op& x, const Op& y) {
    if (x.obj != y.obj) return false;
    if (x.kind == K_R && y.kind == K_R) return false;
    if (x.kind == K_A && y.kind == K_A) return false;
    return true;
}

// called by a team member: announce a visible operation and wait to be chosen
inline void visible(u64 obj, u8 kind, bool lock = false) {
    Fiber* f = cur;
    if (!team_running || f->team->n == 1) {
        if (lock) { LockRec* l = lock_find(obj); if (l && l->owner >= 0) violate("deadlock: a thread waits for a lock that is never released"); }
        return;
    }
    f->pend.obj = obj; f->pend.kind = kind; f->pend.lock = lock; f->st = F_READY;
    yield_ctrl();
    f->st = F_RUN;
    set_um();
}

Hash state_hash_base() {
    Hash h;
    h.add((void*)exe_lo, exe_hi - exe_lo);
    h.add((void*)QLO, qcur - QLO);
    int used = team_running ? team_n : 1;
    for (int i = 0; i < MAXF; ++i) {
        Arena& A = ar[i];
        h.w(A.cur - A.lo);
        if (A.cur > A.lo) h.add((void*)A.lo, A.cur - A.lo);
    }
    for (int i = 0; i < used; ++i) {
        Fiber& f = fib[i];
        uintptr_t top = BASE + (i + 1) * STK;
        h.w((uintptr_t)f.user_sp);
        if (f.user_sp) h.add(f.user_sp, top - (uintptr_t)f.user_sp);
        h.w(f.ws_seq); h.w(f.level);
        if (tls_size && f.tls) h.add(f.tls, tls_size);
    }
    return h;
}
void maps_hash(Hash& h);
extern int fault_count, fault_calls;

// true if the state was seen before
bool seen_state() {
    if (replay_mode) return false;
    if (depth < prefix) return false; // still inside the replayed prefix
    Hash h = state_hash_base();
    maps_hash(h);
    h.w(obs.a); h.w(obs.b); h.w(phase); h.w(nthreads_req); h.w(fault_calls); h.w(fault_count);
    h.w(locks.n);
    for (size_t i = 0; i < locks.n; ++i) { h.w(locks[i].id); h.w(locks[i].owner); h.w(locks[i].count); }
    if (cfg.mode == omc::BOUND) { int c = 0; for (size_t i = 0; i < depth; ++i) if (nodes[i].alt) ++c; h.w(c); }
    if (!visited.add(h.get())) return true;
    ++S.states; return false;
}

void begin_phase() { ++phase; objs.n = 0; obj_map.clear(); for (int i = 0; i < MAXF; ++i) for (int j = 0; j < MAXF; ++j) fib[i].dclk[j] = 0; }

ObjAcc& obj_acc(u64 id) {
    u32* p = obj_map.find(id);
    if (p) return objs[*p];
    ObjAcc o; for (int i = 0; i < MAXF; ++i) o.w[i] = o.r[i] = o.a[i] = -1;
    objs.push(o); obj_map.put(id, objs.n - 1); return objs.back();
}

// after the chosen op of node `ni` executed
void dpor_record(size_t ni, const Op& op) {
    Node& nd = nodes[ni]; int p = nd.chosen; nd.op = op;
    if (cfg.mode != omc::FULL) return;
    ObjAcc& o = obj_acc(op.obj);
    Fiber& f = fib[p];
    // dclk[q] = 1 + index of the last transition of q that happens before the next op of p
    for (int q = 0; q < team_n; ++q) {
        if (q == p) continue;
        int cand[3]; int nc = 0;
        if (o.w[q] >= 0) cand[nc++] = o.w[q];
        if (op.kind != K_R && o.r[q] >= 0) cand[nc++] = o.r[q];
        if (op.kind != K_A && o.a[q] >= 0) cand[nc++] = o.a[q];
        for (int k = 0; k < nc; ++k) {
            int i = cand[k];
            if ((u32)(i + 1) > f.dclk[q]) { // unordered: a race between transition i and this one
                Node& b = nodes[i];
                if (b.enabled.has(p)) b.backtrack.add(p); else b.backtrack.addall(b.enabled);
            }
        }
    }
    for (int q = 0; q < team_n; ++q) {
        int cand[3]; int nc = 0;
        if (o.w[q] >= 0) cand[nc++] = o.w[q];
        if (op.kind != K_R && o.r[q] >= 0) cand[nc++] = o.r[q];
        if (op.kind != K_A && o.a[q] >= 0) cand[nc++] = o.a[q];
        for (int k = 0; k < nc; ++k) for (int j = 0; j < NODEF; ++j) if (nodes[cand[k]].clk[j] > f.dclk[j]) f.dclk[j] = nodes[cand[k]].clk[j];
    }
    f.dclk[p] = ni + 1;
    memcpy(nd.clk, f.dclk, sizeof nd.clk);
    if (op.kind == K_W) o.w[p] = ni; else if (op.kind == K_R) o.r[p] = ni; else o.a[p] = ni;
}

int rr_last;
void default_order(Node& nd) {
    nd.norder = 0; const Set& en = nd.enabled;
    struct { Node& nd; void operator()(int t) { if (nd.norder < NODEF) nd.order[nd.norder++] = t; } } put{nd};
    int pol = cfg.mode == omc::POLICY ? cfg.bound : 0;
    if (pol == 1) { for (int t = team_n - 1; t >= 0; --t) if (en.has(t)) put(t); }
    else if (pol == 2) { for (int k = 1; k <= team_n; ++k) { int t = (rr_last + k) % team_n; if (en.has(t)) put(t); } }
    else {
        // run the same thread on, then ascending
        if (rr_last >= 0 && rr_last < team_n && en.has(rr_last)) put(rr_last);
        for (int t = 0; t < team_n; ++t) if (en.has(t) && t != rr_last) put(t);
    }
}

// returns chosen thread, or -1 if the execution is redundant
int choose(const Set& enabled) {
    if (depth >= 4000000) violate("no termination within 4000000 scheduling points");
    if (replay_mode) {
        int c;
        if (depth < replay_choices.n) c = replay_choices[depth]; else { c = 0; while (!enabled.has(c)) ++c; }
        if (c < 0 || c >= MAXF || !enabled.has(c)) internal("replay diverged at step %zu", depth);
        if (nodes.n == depth) { Node z; memset((void*)&z, 0, sizeof z); nodes.push(z); }
        Node& nd = nodes[depth]; memset((void*)&nd, 0, sizeof nd); nd.enabled = enabled; nd.chosen = c; nd.phase = phase; ++depth; return c;
    }
    if (depth < nodes.n) { // replaying the prefix
        Node& nd = nodes[depth];
        if (!nd.enabled.same(enabled)) internal("replay of a schedule prefix diverged (step %zu: enabled %x then %x): uncaptured nondeterminism", depth, nd.enabled.low(), enabled.low());
        if (!MANY) for (int t = 0; t < team_n; ++t) if (enabled.has(t)) if (nd.pend[t].obj != fib[t].pend.obj && in_region((void*)nd.pend[t].obj)) internal("replay of a schedule prefix diverged (object, thread %d)", t);
        ++S.replays;
        ++depth; return nd.chosen;
    }
    Node z; memset((void*)&z, 0, sizeof z); z.enabled = enabled; z.phase = phase;
    if (!MANY) for (int t = 0; t < team_n; ++t) if (enabled.has(t)) z.pend[t] = fib[t].pend;
    ++S.nodes;
    if (cfg.mode == omc::FULL) {
        Set asleep;
        if (depth > 0 && nodes[depth - 1].phase == phase) {
            Node& pr = nodes[depth - 1];
            for (int i = 0; i < pr.nsleep; ++i) if (pr.sleep[i].tid != pr.chosen && !dep(pr.sleep[i].op, pr.op)) { z.sleep[z.nsleep++] = pr.sleep[i]; asleep.add(pr.sleep[i].tid); }
        }
        Set can = enabled.minus(asleep);
        if (!can.any()) { ++S.sleepcut; return -1; }
        int c = 0;
        // prefer to continue the thread that ran last
        if (depth > 0 && can.has(nodes[depth - 1].chosen)) c = nodes[depth - 1].chosen; else while (!can.has(c)) ++c;
        z.chosen = c; z.backtrack.add(c); z.done.add(c);
    } else {
        rr_last = depth > 0 && nodes[depth - 1].phase >= 0 ? nodes[depth - 1].chosen : -1;
        default_order(z);
        z.alt = 0; z.chosen = z.order[0];
    }
    nodes.push(z); ++depth;
    return z.chosen;
}

// move to the next unexplored alternative; false when the tree is exhausted
bool backtrack_next() {
    if (cfg.mode == omc::POLICY) return false;
    while (nodes.n) {
        Node& nd = nodes.back();
        if (cfg.mode == omc::FULL) {
            // the explored choice goes to sleep
            bool already = false;
            for (int i = 0; i < nd.nsleep; ++i) if (nd.sleep[i].tid == nd.chosen) already = true;
            if (!already) { nd.sleep[nd.nsleep].tid = nd.chosen; nd.sleep[nd.nsleep].op = nd.op; ++nd.nsleep; }
            Set asleep; for (int i = 0; i < nd.nsleep; ++i) asleep.add(nd.sleep[i].tid);
            Set cand = nd.backtrack.meet(nd.enabled).minus(nd.done).minus(asleep);
            if (cand.any()) { int c = 0; while (!cand.has(c)) ++c; nd.chosen = c; nd.done.add(c); prefix = nodes.n; return true; }
        } else {
            int cost = 0; for (size_t i = 0; i + 1 < nodes.n; ++i) if (nodes[i].alt) ++cost;
            if (nd.alt + 1 < nd.norder && cost + 1 <= cfg.bound) { ++nd.alt; nd.chosen = nd.order[nd.alt]; prefix = nodes.n; return true; }
        }
        --nodes.n;
    }
    return false;
}

[[noreturn]] void cut_exec() { cut = true; abort_exec(); }

// runs on the controller stack: drive the team until all members have finished
void run_team() {
    for (int i = 0; i < team_n; ++i) resume(&fib[i]); // initial invisible part
    for (;;) {
        Set enabled; int bar = 0, done = 0, ready = 0;
        for (int i = 0; i < team_n; ++i) {
            Fiber& f = fib[i];
            if (f.st == F_BAR) ++bar; else if (f.st == F_DONE) ++done; else { ++ready; if (op_enabled(f)) enabled.add(i); }
        }
        if (!ready) {
            if (done == team_n) return;
            if (bar == team_n) {
                new_gen(team_n); begin_phase();
                if (cfg.mode != omc::POLICY && seen_state()) { ++S.pruned; cut_exec(); }
                for (int i = 0; i < team_n; ++i) fib[i].st = F_RUN;
                for (int i = 0; i < team_n; ++i) resume(&fib[i]);
                continue;
            }
            violate("deadlock: %d thread(s) wait at a barrier that %d thread(s) never reach", bar, done);
        }
        if (!enabled.any()) violate("deadlock: %d thread(s) blocked on locks, %d at a barrier", ready, bar);
        int c = choose(enabled);
        if (c < 0) cut_exec();
        size_t ni = depth - 1;
        ++S.trans;
        fib[c].st = F_RUN;
        fib[c].bar_cancel = 0;
        resume(&fib[c]);
        // executed_op was stored by the op itself
        extern Op last_exec[MAXF];
        dpor_record(ni, last_exec[c]);
    }
}
Op last_exec[MAXF];
// to be called by an operation right after visible() returned, with the kind it turned out to have
inline void commit(u64 obj, u8 kind) { if (team_running && cur->team->n > 1) { Op o; o.obj = obj; o.kind = kind; o.lock = 0; last_exec[cur->tid] = o; } }

void init_stack(Fiber* f, void (*entry)()) {
    uintptr_t top = BASE + (f->tid + 1) * STK;
    if (!f->stack_used) { memset((void*)(top - STK_FILL), cfg.pattern, STK_FILL); f->stack_used = true; }
    void** sp = (void**)(top - 64);
    sp[0] = 0; // return address of entry: end of stack for unwinders
    *--sp = (void*)entry;
    for (int i = 0; i < 6; ++i) *--sp = 0;
    f->sp = sp;
    f->eh[0] = f->eh[1] = nullptr;
}
void fiber_main_worker() {
    Fiber* f = cur;
    set_um();
    f->fn(f->data);
    user_mode = 0;
    f = cur; f->st = F_DONE; f->user_sp = nullptr;
    yield_ctrl();
    internal("resumed a finished thread");
}
asm(".text\nomc_worker_entry:\n.cfi_startproc\n.cfi_undefined rip\nxorl %ebp,%ebp\nsubq $16,%rsp\ncall omc_worker_c\nud2\n.cfi_endproc\n"
    "omc_master_entry:\n.cfi_startproc\n.cfi_undefined rip\nxorl %ebp,%ebp\nsubq $16,%rsp\ncall omc_master_c\nud2\n.cfi_endproc\n");
extern "C" void omc_worker_entry(); extern "C" void omc_master_entry();
extern "C" __attribute__((used, visibility("hidden"))) void omc_worker_c() { fiber_main_worker(); }

extern "C" { void* omc_user_sp; }

void push_serial(Fiber* f) {
    if (f->level >= 31) violate("parallel regions nested too deeply");
    f->nest[f->level].team = f->team; f->nest[f->level].tid = f->team_tid; f->nest[f->level].ws_seq = f->ws_seq; ++f->level;
    f->team = &serial_team; f->team_tid = 0; f->ws_seq = 0x40000000;
}
void pop_serial(Fiber* f) { --f->level; f->team = f->nest[f->level].team; f->team_tid = f->nest[f->level].tid; f->ws_seq = f->nest[f->level].ws_seq; }
WS serial_ws[MAXF];

int do_parallel(void (*fn)(void*), void* data, unsigned nth, void* sp, bool hashable) {
    Fiber* f = cur; int save = quiet_depth;
    int n = nth ? (int)nth : (nthreads_req ? nthreads_req : cfg_T);
    if (n > MAXF - 1) n = MAXF - 1;
    if (save || team_running || n == 1 || f->team->n > 1) { // nested, one-thread or quiet: serial team
        push_serial(f); f->ws_seq = 0x40000000;
        fn(data);
        pop_serial(f);
        return 0;
    }
    user_mode = 0;
    Team& tm = teams[1]; tm.n = n; tm.ws.n = 0;
    team_n = n;
    Fiber::Saved sv; sv.team = f->team; sv.tid = f->team_tid; sv.ws_seq = f->ws_seq;
    for (int i = 0; i < n; ++i) {
        Fiber& g = fib[i];
        g.team = &tm; g.team_tid = i; g.ws_seq = 0; g.fn = fn; g.data = data; g.st = F_RUN; g.pend.obj = 0; g.user_sp = nullptr;
        if (i) { g.tid = i; g.level = 0; init_stack(&g, omc_worker_entry); }
    }
    f->st = F_RUN;
    new_gen(n); begin_phase(); race_on = true; team_running = true; locks.n = 0;
    extern bool req_team; req_team = true;
    f->user_sp = sp;
    yield_ctrl();           // controller starts run_team(), which resumes us first
    set_um();
    fn(data);
    user_mode = 0;
    f->st = F_DONE; f->user_sp = sp;
    yield_ctrl();           // resumed by the controller after the join
    race_on = false; team_running = false;
    new_gen(1); begin_phase();
    f->team = sv.team; f->team_tid = sv.tid; f->ws_seq = sv.ws_seq; f->st = F_RUN;
    if (hashable && cfg.mode != omc::POLICY) { f->user_sp = sp; if (seen_state()) { ++S.pruned; cut_exec(); } }
    set_um();
    return 0;
}
bool req_team;

void full_barrier(void* sp) {
    Fiber* f = cur;
    if (quiet_depth || !team_running || f->team->n == 1) return;
    user_mode = 0;
    f->user_sp = sp; f->st = F_BAR;
    yield_ctrl();
    set_um();
}

} // namespace

extern "C" __attribute__((used, visibility("hidden"))) void omc_parallel_c(void (*fn)(void*), void* data, unsigned nth, unsigned) { do_parallel(fn, data, nth, omc_user_sp, true); }
extern "C" __attribute__((used, visibility("hidden"))) void omc_barrier_c() { full_barrier(omc_user_sp); }
extern "C" __attribute__((used, visibility("hidden"))) void omc_loopend_c() { full_barrier(omc_user_sp); }

#define TRAMP(NAME, TARGET) \
asm(".text\n.p2align 4\n.globl " NAME "\n.type " NAME ",@function\n" NAME ":\n.cfi_startproc\n" \
    "pushq %rbp\n.cfi_adjust_cfa_offset 8\npushq %rbx\n.cfi_adjust_cfa_offset 8\npushq %r12\n.cfi_adjust_cfa_offset 8\n" \
    "pushq %r13\n.cfi_adjust_cfa_offset 8\npushq %r14\n.cfi_adjust_cfa_offset 8\npushq %r15\n.cfi_adjust_cfa_offset 8\n" \
    "subq $8,%rsp\n.cfi_adjust_cfa_offset 8\nmovq $0,(%rsp)\n" \
    "leaq omc_user_sp(%rip),%rax\nmovq %rsp,(%rax)\ncall " TARGET "\n" \
    "addq $8,%rsp\n.cfi_adjust_cfa_offset -8\npopq %r15\n.cfi_adjust_cfa_offset -8\npopq %r14\n.cfi_adjust_cfa_offset -8\npopq %r13\n.cfi_adjust_cfa_offset -8\n" \
    "popq %r12\n.cfi_adjust_cfa_offset -8\npopq %rbx\n.cfi_adjust_cfa_offset -8\npopq %rbp\n.cfi_adjust_cfa_offset -8\nret\n.cfi_endproc\n.size " NAME ",.-" NAME "\n");
asm(".hidden omc_user_sp\n");
TRAMP("GOMP_parallel", "omc_parallel_c")
TRAMP("GOMP_barrier", "omc_barrier_c")
TRAMP("GOMP_loop_end", "omc_loopend_c")
TRAMP("GOMP_sections_end", "omc_loopend_c")

// ---------------------------------------------------------------- OpenMP API
namespace {
const u64 OBJ_WS = 1ULL << 56, OBJ_LOCK = 2ULL << 56;
WS& ws_get(u32 seq, bool& fresh) {
    Team* t = cur->team;
    if (t->n == 1 || !team_running || t == &serial_team) { fresh = true; WS& w = serial_ws[cur->tid]; memset(&w, 0, sizeof w); return w; }
    fresh = false;
    while (t->ws.n <= seq) { WS z; memset(&z, 0, sizeof z); t->ws.push(z); fresh = true; }
    return t->ws[seq];
}
inline WS& ws_cur() { Team* t = cur->team; if (t->n == 1 || !team_running || t == &serial_team) return serial_ws[cur->tid]; return t->ws[cur->ws_seq - 1]; }
struct RT { int s; RT() : s(user_mode) { user_mode = 0; } ~RT() { set_um(); } };

bool single_start() {
    RT g;
    u32 seq = cur->ws_seq++;
    if (cur->team->n == 1 || !team_running) return true;
    u64 obj = OBJ_WS | seq;
    visible(obj, K_W);
    user_mode = 0;
    bool fresh; WS& w = ws_get(seq, fresh);
    if (!w.claimed) { w.claimed = true; commit(obj, K_W); return true; }
    commit(obj, K_R); return false;
}
void loop_init(u32 seq, long s, long e, long inc, long chunk) {
    bool fresh; WS& w = ws_get(seq, fresh);
    if (w.kind) return;
    w.kind = 1; w.next = s; w.end = e; w.incr = inc;
    w.chunk = (cfg.realchunk || chunk <= 0) ? (chunk <= 0 ? 1 : chunk) : 1;
    if (inc > 0 && s > e) w.end = s;
    if (inc < 0 && s < e) w.end = s;
}
bool loop_next(long* is, long* ie) {
    u32 seq = cur->ws_seq - 1; u64 obj = OBJ_WS | seq;
    visible(obj, K_W);
    user_mode = 0;
    WS& w = ws_cur();
    if (w.next == w.end) { commit(obj, K_R); return false; }
    commit(obj, K_W);
    long left = w.end - w.next; // sign follows incr
    long span = w.chunk * w.incr;
    if (w.incr > 0 ? (span < left) : (span > left)) left = span;
    *is = w.next; *ie = w.next + left;
    w.next += left;
    // normalise: the end is exclusive and may not be a multiple of incr
    if (w.incr > 0 ? w.next > w.end : w.next < w.end) w.next = w.end;
    return true;
}
bool loop_start(long s, long e, long inc, long chunk, long* is, long* ie) {
    RT g; u32 seq = cur->ws_seq++; loop_init(seq, s, e, inc, chunk); return loop_next(is, ie);
}
void ull_init(u32 seq, bool up, u64 s, u64 e, u64 inc, u64 chunk) {
    bool fresh; WS& w = ws_get(seq, fresh);
    if (w.kind) return;
    w.kind = 2; w.up = up; w.unext = s; w.uend = e; w.uincr = inc; w.uchunk = cfg.realchunk ? (chunk ? chunk : 1) : 1;
    if (up && s > e) w.uend = s;
    if (!up && s < e) w.uend = s;
}
bool ull_next(u64* is, u64* ie) {
    u32 seq = cur->ws_seq - 1; u64 obj = OBJ_WS | seq;
    visible(obj, K_W);
    user_mode = 0;
    WS& w = ws_cur();
    if (w.unext == w.uend) { commit(obj, K_R); return false; }
    commit(obj, K_W);
    u64 span = w.uchunk * w.uincr;
    if (w.up) { u64 left = w.uend - w.unext; if (span < left) left = span; *is = w.unext; *ie = w.unext + left; w.unext += left; }
    else { u64 left = w.unext - w.uend; u64 sp = (u64)0 - span; if (sp < left) left = sp; *is = w.unext; *ie = w.unext - left; w.unext -= left; }
    return true;
}
bool ull_start(bool up, u64 s, u64 e, u64 inc, u64 chunk, u64* is, u64* ie) { RT g; u32 seq = cur->ws_seq++; ull_init(seq, up, s, e, inc, chunk); return ull_next(is, ie); }
bool static_start(long s, long e, long inc, long chunk, long* is, long* ie);

void lock_acquire(u64 id) {
    RT g;
    visible(id, K_W, true);
    user_mode = 0;
    LockRec* l = lock_get(id); l->owner = cur->tid; l->count = 1;
    commit(id, K_W);
    acquire(id);
}
void lock_release(u64 id) {
    RT g;
    LockRec* l = lock_get(id);
    if (l->owner != cur->tid) violate("a lock is released by a thread that does not hold it");
    l->owner = -1; l->count = 0;
    release(id, false);
}
}
typedef unsigned long long ull_t;
EXPORT bool GOMP_single_start() { if (!cur) return true; return single_start(); }
EXPORT void* GOMP_single_copy_start() {
    if (single_start()) return nullptr;
    RT g; full_barrier(__builtin_frame_address(0)); return ws_cur().copy;
}
EXPORT void GOMP_single_copy_end(void* d) { RT g; ws_cur().copy = d; full_barrier(__builtin_frame_address(0)); }
EXPORT bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b); }
EXPORT bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b); }
EXPORT bool GOMP_loop_guided_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b); }
EXPORT bool GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b); }
EXPORT bool GOMP_loop_runtime_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, a, b); }
EXPORT bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, a, b); }
EXPORT bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, a, b); }
EXPORT bool GOMP_loop_dynamic_next(long* a, long* b) { RT g; return loop_next(a, b); }
EXPORT bool GOMP_loop_nonmonotonic_dynamic_next(long* a, long* b) { RT g; return loop_next(a, b); }
EXPORT bool GOMP_loop_guided_next(long* a, long* b) { RT g; return loop_next(a, b); }
EXPORT bool GOMP_loop_nonmonotonic_guided_next(long* a, long* b) { RT g; return loop_next(a, b); }
EXPORT bool GOMP_loop_runtime_next(long* a, long* b) { RT g; return loop_next(a, b); }
EXPORT bool GOMP_loop_nonmonotonic_runtime_next(long* a, long* b) { RT g; return loop_next(a, b); }
EXPORT bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a, long* b) { RT g; return loop_next(a, b); }
EXPORT bool GOMP_loop_static_start(long s, long e, long i, long c, long* a, long* b) { return static_start(s, e, i, c, a, b); }
EXPORT bool GOMP_loop_static_next(long* a, long* b);
EXPORT bool GOMP_loop_start(long s, long e, long i, long sched, long c, long* a, long* b, uintptr_t*, void** mem) {
    if (mem) violate("unsupported OpenMP construct (task reduction / scan memory)");
    if ((sched & 0xff) == 1) return static_start(s, e, i, c, a, b);
    if (!a) { RT g; u32 seq = cur->ws_seq++; loop_init(seq, s, e, i, c); return true; }
    return loop_start(s, e, i, c, a, b);
}
EXPORT void GOMP_loop_end_nowait() {}
EXPORT bool GOMP_loop_ull_dynamic_start(bool up, ull_t s, ull_t e, ull_t i, ull_t c, ull_t* a, ull_t* b) { return ull_start(up, s, e, i, c, (u64*)a, (u64*)b); }
EXPORT bool GOMP_loop_ull_nonmonotonic_dynamic_start(bool up, ull_t s, ull_t e, ull_t i, ull_t c, ull_t* a, ull_t* b) { return ull_start(up, s, e, i, c, (u64*)a, (u64*)b); }
EXPORT bool GOMP_loop_ull_guided_start(bool up, ull_t s, ull_t e, ull_t i, ull_t c, ull_t* a, ull_t* b) { return ull_start(up, s, e, i, c, (u64*)a, (u64*)b); }
EXPORT bool GOMP_loop_ull_nonmonotonic_guided_start(bool up, ull_t s, ull_t e, ull_t i, ull_t c, ull_t* a, ull_t* b) { return ull_start(up, s, e, i, c, (u64*)a, (u64*)b); }
EXPORT bool GOMP_loop_ull_runtime_start(bool up, ull_t s, ull_t e, ull_t i, ull_t* a, ull_t* b) { return ull_start(up, s, e, i, 1, (u64*)a, (u64*)b); }
EXPORT bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool up, ull_t s, ull_t e, ull_t i, ull_t* a, ull_t* b) { return ull_start(up, s, e, i, 1, (u64*)a, (u64*)b); }
EXPORT bool GOMP_loop_ull_nonmonotonic_runtime_start(bool up, ull_t s, ull_t e, ull_t i, ull_t* a, ull_t* b) { return ull_start(up, s, e, i, 1, (u64*)a, (u64*)b); }
EXPORT bool GOMP_loop_ull_dynamic_next(ull_t* a, ull_t* b) { RT g; return ull_next((u64*)a, (u64*)b); }
EXPORT bool GOMP_loop_ull_nonmonotonic_dynamic_next(ull_t* a, ull_t* b) { RT g; return ull_next((u64*)a, (u64*)b); }
EXPORT bool GOMP_loop_ull_guided_next(ull_t* a, ull_t* b) { RT g; return ull_next((u64*)a, (u64*)b); }
EXPORT bool GOMP_loop_ull_nonmonotonic_guided_next(ull_t* a, ull_t* b) { RT g; return ull_next((u64*)a, (u64*)b); }
EXPORT bool GOMP_loop_ull_runtime_next(ull_t* a, ull_t* b) { RT g; return ull_next((u64*)a, (u64*)b); }
EXPORT bool GOMP_loop_ull_nonmonotonic_runtime_next(ull_t* a, ull_t* b) { RT g; return ull_next((u64*)a, (u64*)b); }
EXPORT bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(ull_t* a, ull_t* b) { RT g; return ull_next((u64*)a, (u64*)b); }
namespace {
// block-cyclic static schedule through the API (used with ordered/runtime clauses): hand out thread t's chunks
bool static_next(long* is, long* ie) {
    WS& w = ws_cur(); int n = cur->team->n; long cnt = w.incr > 0 ? (w.end - w.next + w.incr - 1) / w.incr : (w.next - w.end - w.incr - 1) / -w.incr;
    long ch = w.chunk ? w.chunk : (cnt + n - 1) / n; if (ch <= 0) return false;
    long k = (cur->st_next++ * n + cur->team_tid) * ch;
    if (k >= cnt) return false;
    long k2 = k + ch; if (k2 > cnt) k2 = cnt;
    *is = w.next + k * w.incr; *ie = w.next + k2 * w.incr; return true;
}
bool static_start(long s, long e, long inc, long chunk, long* is, long* ie) {
    RT g; u32 seq = cur->ws_seq++; bool fresh; WS& w = ws_get(seq, fresh);
    if (!w.kind) { w.kind = 1; w.next = s; w.end = e; w.incr = inc; w.chunk = chunk; }
    cur->st_next = 0; if (!is) return true; return static_next(is, ie);
}
}
EXPORT bool GOMP_loop_static_next(long* a, long* b) { RT g; return static_next(a, b); }

// combined parallel+loop: the outlined function only calls the _next entry points
namespace {
struct PL { void (*fn)(void*); void* data; int kind; long s, e, i, c; };
void pl_body(void* p) {
    PL* q = (PL*)p;
    { RT g; u32 seq = cur->ws_seq++; if (q->kind == 0) loop_init(seq, q->s, q->e, q->i, q->c); else { bool fresh; WS& w = ws_get(seq, fresh); if (!w.kind) { w.kind = 1; w.next = q->s; w.end = q->e; w.incr = q->i; w.chunk = q->c; } cur->st_next = 0; } }
    q->fn(q->data);
}
void par_loop(void (*fn)(void*), void* data, unsigned nth, int kind, long s, long e, long i, long c) {
    PL q = {fn, data, kind, s, e, i, c}; do_parallel(pl_body, &q, nth, __builtin_frame_address(0), false);
}
}
#define PARLOOP(NAME, KIND) EXPORT void NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { par_loop(fn, d, n, KIND, s, e, i, c); }
PARLOOP(GOMP_parallel_loop_static, 1) PARLOOP(GOMP_parallel_loop_dynamic, 0) PARLOOP(GOMP_parallel_loop_guided, 0)
PARLOOP(GOMP_parallel_loop_nonmonotonic_dynamic, 0) PARLOOP(GOMP_parallel_loop_nonmonotonic_guided, 0)
EXPORT void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { par_loop(fn, d, n, 0, s, e, i, 1); }
EXPORT void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { par_loop(fn, d, n, 0, s, e, i, 1); }
EXPORT void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { par_loop(fn, d, n, 0, s, e, i, 1); }
// sections: the next section number, from 1; 0 when exhausted
EXPORT unsigned GOMP_sections_next() { RT g; long a, b; if (!loop_next(&a, &b)) return 0; return (unsigned)a; }
EXPORT unsigned GOMP_sections_start(unsigned n) { RT g; u32 seq = cur->ws_seq++; loop_init(seq, 1, (long)n + 1, 1, 1); long a, b; if (!loop_next(&a, &b)) return 0; return (unsigned)a; }
EXPORT void GOMP_sections_end_nowait() {}
EXPORT void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nth, unsigned count, unsigned) { par_loop(fn, d, nth, 0, 1, (long)count + 1, 1, 1); }
EXPORT void GOMP_critical_start() { lock_acquire(OBJ_LOCK | 1); }
EXPORT void GOMP_critical_end() { lock_release(OBJ_LOCK | 1); }
EXPORT void GOMP_critical_name_start(void** p) { lock_acquire(OBJ_LOCK ^ (u64)p); }
EXPORT void GOMP_critical_name_end(void** p) { lock_release(OBJ_LOCK ^ (u64)p); }
EXPORT void GOMP_atomic_start() { if (!cur || quiet_depth) return; lock_acquire(OBJ_LOCK | 2); }
EXPORT void GOMP_atomic_end() { if (!cur || quiet_depth) return; lock_release(OBJ_LOCK | 2); }
EXPORT unsigned GOMP_parallel_reductions(void (*fn)(void*), void* d, unsigned n, unsigned) { do_parallel(fn, d, n, __builtin_frame_address(0), false); return cfg_T; }
EXPORT void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
    if (cpyfn) { char* b = (char*)alloca(size + align); char* q = (char*)(((uintptr_t)b + align - 1) & ~(uintptr_t)(align - 1)); cpyfn(q, data); fn(q); } else fn(data);
}
EXPORT void GOMP_taskwait() {}
EXPORT void GOMP_taskyield() {}
EXPORT void GOMP_taskgroup_start() {}
EXPORT void GOMP_taskgroup_end() {}
EXPORT bool GOMP_cancel(int, bool) { return false; }
EXPORT bool GOMP_cancellation_point(int) { return false; }

EXPORT int omp_get_num_threads() { return cur && !quiet_depth ? cur->team->n : 1; }
EXPORT int omp_get_thread_num() { return cur && !quiet_depth ? cur->team_tid : 0; }
EXPORT int omp_get_max_threads() { if (!cur) return 1; return nthreads_req ? nthreads_req : cfg_T; }
EXPORT void omp_set_num_threads(int n) { if (n > 0) nthreads_req = n > MAXF - 1 ? MAXF - 1 : n; }
EXPORT int omp_get_num_procs() { return cfg_T; }
EXPORT int omp_get_thread_limit() { return 16; }
EXPORT int omp_in_parallel() { return cur && team_running; }
EXPORT int omp_get_level() { return cur ? (team_running ? 1 : 0) + cur->level : 0; }
EXPORT int omp_get_active_level() { return cur && team_running; }
EXPORT int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : (cur ? cur->team_tid : 0); }
EXPORT int omp_get_team_size(int) { return cur ? cur->team->n : 1; }
EXPORT void omp_set_dynamic(int) {}
EXPORT int omp_get_dynamic() { return 0; }
EXPORT void omp_set_nested(int) {}
EXPORT int omp_get_nested() { return 0; }
EXPORT void omp_set_max_active_levels(int) {}
EXPORT int omp_get_max_active_levels() { return 1; }
EXPORT void omp_set_schedule(int, int) {}
EXPORT void omp_get_schedule(int* k, int* c) { *k = 1; *c = 0; }
EXPORT double omp_get_wtime() { return 0.0; }
EXPORT double omp_get_wtick() { return 1e-9; }
EXPORT void omp_init_lock(void**) {}
EXPORT void omp_destroy_lock(void**) {}
EXPORT void omp_set_lock(void** p) { lock_acquire(OBJ_LOCK ^ (u64)p); }
EXPORT void omp_unset_lock(void** p) { lock_release(OBJ_LOCK ^ (u64)p); }
EXPORT int omp_test_lock(void** p) {
    RT g; u64 id = OBJ_LOCK ^ (u64)p; visible(id, K_W); user_mode = 0; LockRec* l = lock_get(id);
    if (l->owner >= 0) { commit(id, K_R); return 0; }
    l->owner = cur->tid; commit(id, K_W); acquire(id); return 1;
}
// std::mutex
EXPORT int __wrap_pthread_mutex_lock(pthread_mutex_t* p) { if (!cur || quiet_depth) return pthread_mutex_lock(p); lock_acquire(OBJ_LOCK ^ (u64)p); return 0; }
EXPORT int __wrap_pthread_mutex_unlock(pthread_mutex_t* p) { if (!cur || quiet_depth) return pthread_mutex_unlock(p); lock_release(OBJ_LOCK ^ (u64)p); return 0; }
EXPORT int __wrap_pthread_mutex_trylock(pthread_mutex_t* p) { if (!cur || quiet_depth) return pthread_mutex_trylock(p); return omp_test_lock((void**)p) ? 0 : EBUSY; }

// ---------------------------------------------------------------- atomics
namespace {
enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQREL, MO_SEQCST };
inline bool mo_acq(int m) { return m == MO_ACQUIRE || m == MO_CONSUME || m == MO_ACQREL || m == MO_SEQCST; }
inline bool mo_rel(int m) { return m == MO_RELEASE || m == MO_ACQREL || m == MO_SEQCST; }
inline void at_bounds(void* p, size_t n, bool wr, void* pc) {
    ++steps; if (steps > step_limit) violate("no termination within %llu memory accesses", (unsigned long long)step_limit);
    uintptr_t a = (uintptr_t)p;
    if (a - BASE < SIZE) for (size_t i = 0; i < n; ++i) if (AMAP[a - BASE + i] != 1) bad_access(a, n, wr, pc);
}
// enter: returns true if monitoring is active
inline bool at_enter(void* p, size_t n, bool wr, void* pc) {
    if (!user_mode) return false;
    user_mode = 0;
    at_bounds(p, n, wr, pc);
    if (race_on) { visible((u64)p, wr ? K_W : K_R); user_mode = 0; at_bounds(p, n, wr, pc); }
    return true;
}
inline void at_leave(bool act, void* p, size_t n, bool did_write, u8 kind, int mo, void* pc) {
    if (!act) return;
    if (race_on) {
        race_atomic((uintptr_t)p, n, did_write, pc);
        if (mo_acq(mo)) acquire((u64)p);
        if (did_write && mo_rel(mo)) release((u64)p, true);
        commit((u64)p, kind);
    }
    set_um();
}
template <class T> inline u8 add_kind(T now, T delta, int mo) { // reference counting: +-1, acq_rel, not reaching zero
    if (mo == MO_ACQREL && sizeof(T) == 4 && (delta == (T)1 || delta == (T)-1) && now != 0) return K_A;
    return K_W;
}
}
#define ATOMICS(BITS, T) \
    EXPORT T __tsan_atomic##BITS##_load(const volatile T* p, int mo) { bool a = at_enter((void*)p, sizeof(T), false, PC); T v = *p; at_leave(a, (void*)p, sizeof(T), false, K_R, mo, PC); return v; } \
    EXPORT void __tsan_atomic##BITS##_store(volatile T* p, T v, int mo) { bool a = at_enter((void*)p, sizeof(T), true, PC); *p = v; at_leave(a, (void*)p, sizeof(T), true, K_W, mo, PC); } \
    EXPORT T __tsan_atomic##BITS##_exchange(volatile T* p, T v, int mo) { bool a = at_enter((void*)p, sizeof(T), true, PC); T o = *p; *p = v; at_leave(a, (void*)p, sizeof(T), true, K_W, mo, PC); return o; } \
    EXPORT T __tsan_atomic##BITS##_fetch_add(volatile T* p, T v, int mo) { bool a = at_enter((void*)p, sizeof(T), true, PC); T o = *p; *p = o + v; at_leave(a, (void*)p, sizeof(T), true, add_kind<T>((T)(o + v), v, mo), mo, PC); return o; } \
    EXPORT T __tsan_atomic##BITS##_fetch_sub(volatile T* p, T v, int mo) { bool a = at_enter((void*)p, sizeof(T), true, PC); T o = *p; *p = o - v; at_leave(a, (void*)p, sizeof(T), true, add_kind<T>((T)(o - v), v, mo), mo, PC); return o; } \
    EXPORT T __tsan_atomic##BITS##_fetch_and(volatile T* p, T v, int mo) { bool a = at_enter((void*)p, sizeof(T), true, PC); T o = *p; *p = o & v; at_leave(a, (void*)p, sizeof(T), true, K_W, mo, PC); return o; } \
    EXPORT T __tsan_atomic##BITS##_fetch_or(volatile T* p, T v, int mo) { bool a = at_enter((void*)p, sizeof(T), true, PC); T o = *p; *p = o | v; at_leave(a, (void*)p, sizeof(T), true, K_W, mo, PC); return o; } \
    EXPORT T __tsan_atomic##BITS##_fetch_xor(volatile T* p, T v, int mo) { bool a = at_enter((void*)p, sizeof(T), true, PC); T o = *p; *p = o ^ v; at_leave(a, (void*)p, sizeof(T), true, K_W, mo, PC); return o; } \
    EXPORT T __tsan_atomic##BITS##_fetch_nand(volatile T* p, T v, int mo) { bool a = at_enter((void*)p, sizeof(T), true, PC); T o = *p; *p = ~(o & v); at_leave(a, (void*)p, sizeof(T), true, K_W, mo, PC); return o; } \
    EXPORT int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { bool a = at_enter((void*)p, sizeof(T), true, PC); T o = *p; bool ok = o == *e; if (ok) *p = v; else *e = o; at_leave(a, (void*)p, sizeof(T), ok, ok ? K_W : K_R, mo, PC); return ok; } \
    EXPORT int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { bool a = at_enter((void*)p, sizeof(T), true, PC); T o = *p; bool ok = o == *e; if (ok) *p = v; else *e = o; at_leave(a, (void*)p, sizeof(T), ok, ok ? K_W : K_R, mo, PC); return ok; } \
    EXPORT T __tsan_atomic##BITS##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) { bool a = at_enter((void*)p, sizeof(T), true, PC); T o = *p; bool ok = o == e; if (ok) *p = v; at_leave(a, (void*)p, sizeof(T), ok, ok ? K_W : K_R, mo, PC); return o; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) {}
EXPORT void __tsan_atomic_signal_fence(int) {}

// function-local statics: a blocking lock per guard
EXPORT int __cxa_guard_acquire(uint64_t* g) {
    if (*(volatile u8*)g) return 0;
    if (!cur) { return 1; }
    int um = user_mode; user_mode = 0; u64 id = OBJ_LOCK ^ (u64)g;
    visible(id, K_W, true); user_mode = 0;
    if (race_on) acquire(id);
    if (*(volatile u8*)g) { commit(id, K_R); set_um(); return 0; }
    LockRec* l = lock_get(id); l->owner = cur->tid; commit(id, K_W); (void)um; set_um(); return 1;
}
EXPORT void __cxa_guard_release(uint64_t* g) {
    *(volatile u8*)g = 1; if (!cur) return;
    int um = user_mode; user_mode = 0; u64 id = OBJ_LOCK ^ (u64)g; LockRec* l = lock_get(id); l->owner = -1; if (race_on) { release(id, false); release((u64)g, true); } (void)um; set_um();
}
EXPORT void __cxa_guard_abort(uint64_t* g) { if (!cur) return; u64 id = OBJ_LOCK ^ (u64)g; LockRec* l = lock_get(id); l->owner = -1; }

// ---------------------------------------------------------------- environment: faults
namespace {
int fault_count, fault_calls;    // faults injected / fallible calls seen, in this execution
int fault_at[2]; int nfault_at;  // which calls fail
int fault_window;
const char* fault_last = "";
bool fault_now(const char* name) {
    if (!fault_window) return false;
    int k = fault_calls++;
    for (int i = 0; i < nfault_at; ++i) if (fault_at[i] == k) { ++fault_count; fault_last = name; ++S.faults; return true; }
    return false;
}
struct MapRec { uintptr_t a; size_t len, pages; bool wr; bool live; };
Vec<MapRec> maps; uintptr_t maps_cur; long maps_live;
struct FdRec { int fd; void* file; };
Vec<FdRec> fds;
void fd_add(int fd, void* file) { FdRec r; r.fd = fd; r.file = file; fds.push(r); }
bool fd_del(int fd) { for (size_t i = 0; i < fds.n; ++i) if (fds[i].fd == fd) { fds[i] = fds.back(); --fds.n; return true; } return false; }
void maps_hash(Hash& h) {
    h.w(fds.n);
    for (size_t i = 0; i < maps.n; ++i) { MapRec& m = maps[i]; h.w(m.a); h.w(m.len); h.w(m.live); if (m.live && m.wr) h.add((void*)m.a, m.len); }
}
void region_restore(uintptr_t a, size_t pages) { if (mmap((void*)a, pages, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) internal("cannot restore the mapping region"); }
void maps_reset() {
    for (size_t i = 0; i < maps.n; ++i) { MapRec& m = maps[i]; addr_set(m.a, m.pages, 0); if (m.live) region_restore(m.a, m.pages); }
    maps.n = 0; maps_cur = MAPS; maps_live = 0;
}
inline bool um_enter() { if (!user_mode) return false; user_mode = 0; return true; }
inline void um_leave() { set_um(); }
}

extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
}
EXPORT void* __wrap_mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
    if (!um_enter()) return mmap(addr, len, prot, flags, fd, off);
    if (fault_now("mmap")) { um_leave(); errno = ENOMEM; return MAP_FAILED; }
    if (len == 0) { um_leave(); errno = EINVAL; return MAP_FAILED; }
    size_t pages = (len + 4095) & ~4095UL;
    if (pages < len || len > MAPS_END - MAPS || maps_cur + pages + 8192 > MAPS_END) { um_leave(); errno = ENOMEM; return MAP_FAILED; }
    uintptr_t a = maps_cur + 4096;
    struct stat st; size_t valid = len;
    if (!(flags & MAP_ANONYMOUS)) { if (fstat(fd, &st) != 0) { um_leave(); errno = EBADF; return MAP_FAILED; } size_t fs = st.st_size > off ? st.st_size - off : 0; if (valid > fs) valid = fs; }
    void* r = mmap((void*)a, len, prot, (flags & ~MAP_FIXED_NOREPLACE) | MAP_FIXED, fd, off);
    if (r == MAP_FAILED) { int e = errno; region_restore(a, pages); um_leave(); errno = e; return r; }
    maps_cur = a + pages;
    if ((prot & PROT_READ) || (prot & PROT_WRITE)) addr_set(a, valid, 1);
    MapRec m; m.a = a; m.len = len; m.pages = pages; m.wr = (prot & PROT_WRITE) != 0; m.live = true; maps.push(m); ++maps_live;
    um_leave(); return r;
}
EXPORT void* __wrap_mmap64(void* addr, size_t len, int prot, int flags, int fd, off_t off) { return __wrap_mmap(addr, len, prot, flags, fd, off); }
EXPORT int __wrap_munmap(void* addr, size_t len) {
    if (!um_enter()) return munmap(addr, len);
    if (!in_region(addr)) {
        if ((uintptr_t)addr & 4095 || len == 0) { um_leave(); errno = EINVAL; return -1; }
        violate("munmap of memory that is not a live mapping of the program");
    }
    for (size_t i = 0; i < maps.n; ++i) { MapRec& m = maps[i];
        if (m.a == (uintptr_t)addr && m.live) {
            if (((len + 4095) & ~4095UL) != m.pages) { if (len == 0) { um_leave(); errno = EINVAL; return -1; } violate("munmap of %zu bytes of a mapping of %zu bytes", len, m.len); }
            if (m.wr) obs.add(addr, m.len);
            m.live = false; --maps_live; addr_set(m.a, m.pages, 2); region_restore(m.a, m.pages); um_leave(); return 0; }
        if (m.a == (uintptr_t)addr) violate("a file mapping is released twice");
    }
    violate("munmap of memory that is not a live mapping of the program");
}
EXPORT int __wrap_madvise(void* a, size_t n, int adv) {
    if (!um_enter()) return madvise(a, n, adv);
    if (fault_now("madvise")) { um_leave(); errno = EAGAIN; return -1; }
    int r = madvise(a, n, adv); int e = errno; um_leave(); errno = e; return r;
}
EXPORT int __wrap_posix_madvise(void* a, size_t n, int adv) { if (!um_enter()) return posix_madvise(a, n, adv); if (fault_now("posix_madvise")) { um_leave(); return EINVAL; } int r = posix_madvise(a, n, adv); um_leave(); return r; }
EXPORT int __wrap_msync(void* a, size_t n, int fl) { if (!um_enter()) return msync(a, n, fl); if (fault_now("msync")) { um_leave(); errno = EIO; return -1; } int r = msync(a, n, fl); um_leave(); return r; }
EXPORT int __wrap_mprotect(void* a, size_t n, int p) { return mprotect(a, n, p); }
static int do_open(const char* fn, int flags, mode_t mode) {
    if (!um_enter()) return open(fn, flags, mode);
    if (fault_now("open")) { um_leave(); errno = EMFILE; return -1; }
    int fd = open(fn, flags, mode); int e = errno; if (fd >= 0) fd_add(fd, nullptr); um_leave(); errno = e; return fd;
}
EXPORT int __wrap_open(const char* fn, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } return do_open(fn, flags, m); }
EXPORT int __wrap_open64(const char* fn, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } return do_open(fn, flags, m); }
EXPORT int __wrap___open_2(const char* fn, int flags) { return do_open(fn, flags, 0); }
EXPORT int __wrap___open64_2(const char* fn, int flags) { return do_open(fn, flags, 0); }
EXPORT int __wrap_close(int fd) {
    if (!um_enter()) return close(fd);
    if (!fd_del(fd)) violate("close of a descriptor the program does not own");
    if (fault_now("close")) { close(fd); um_leave(); errno = EIO; return -1; }
    int r = close(fd); um_leave(); return r;
}
EXPORT FILE* __wrap_fopen(const char* fn, const char* m) {
    if (!um_enter()) return fopen(fn, m);
    if (fault_now("fopen")) { um_leave(); errno = EACCES; return nullptr; }
    FILE* f = fopen(fn, m); int e = errno; if (f) fd_add(fileno(f), f); um_leave(); errno = e; return f;
}
EXPORT FILE* __wrap_fopen64(const char* fn, const char* m) { return __wrap_fopen(fn, m); }
EXPORT FILE* __wrap_fdopen(int fd, const char* m) {
    if (!um_enter()) return fdopen(fd, m);
    if (fault_now("fdopen")) { um_leave(); errno = ENOMEM; return nullptr; }
    FILE* f = fdopen(fd, m); int e = errno; if (f) { fd_del(fd); fd_add(fd, f); } um_leave(); errno = e; return f;
}
EXPORT int __wrap_fclose(FILE* f) {
    if (!um_enter()) return fclose(f);
    bool own = false; for (size_t i = 0; i < fds.n; ++i) if (fds[i].file == f) own = true;
    if (!own) violate("fclose of a stream that is not open");
    fd_del(fileno(f));
    bool flt = fault_now("fclose");
    int r = fclose(f); um_leave(); if (flt) { errno = EIO; return EOF; } return r;
}
EXPORT int __wrap_fseeko(FILE* f, off_t o, int w) { if (!um_enter()) return fseeko(f, o, w); if (fault_now("fseeko")) { um_leave(); errno = EIO; return -1; } int r = fseeko(f, o, w); int e = errno; um_leave(); errno = e; return r; }
EXPORT int __wrap_fseeko64(FILE* f, off_t o, int w) { return __wrap_fseeko(f, o, w); }
EXPORT int __wrap_fseek(FILE* f, long o, int w) { return __wrap_fseeko(f, o, w); }
EXPORT off_t __wrap_ftello(FILE* f) { if (!um_enter()) return ftello(f); if (fault_now("ftello")) { um_leave(); errno = EIO; return -1; } off_t r = ftello(f); um_leave(); return r; }
EXPORT off_t __wrap_ftello64(FILE* f) { return __wrap_ftello(f); }
EXPORT long __wrap_ftell(FILE* f) { return __wrap_ftello(f); }
EXPORT int __wrap_fputc(int c, FILE* f) { if (!um_enter()) return fputc(c, f); if (fault_now("fputc")) { um_leave(); errno = ENOSPC; return EOF; } int r = fputc(c, f); um_leave(); return r; }
EXPORT size_t __wrap_fwrite(const void* p, size_t s, size_t n, FILE* f) { if (!um_enter()) return fwrite(p, s, n, f); if (fault_now("fwrite")) { um_leave(); errno = ENOSPC; return 0; } size_t r = fwrite(p, s, n, f); um_leave(); return r; }
EXPORT int __wrap_fflush(FILE* f) { if (!um_enter()) return fflush(f); if (fault_now("fflush")) { um_leave(); errno = ENOSPC; return EOF; } int r = fflush(f); um_leave(); return r; }
EXPORT int __wrap_ftruncate(int fd, off_t n) { if (!um_enter()) return ftruncate(fd, n); if (fault_now("ftruncate")) { um_leave(); errno = ENOSPC; return -1; } int r = ftruncate(fd, n); int e = errno; um_leave(); errno = e; return r; }
EXPORT int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
EXPORT int __wrap_posix_fallocate(int fd, off_t o, off_t n) { if (!um_enter()) return posix_fallocate(fd, o, n); if (fault_now("posix_fallocate")) { um_leave(); return ENOSPC; } int r = posix_fallocate(fd, o, n); um_leave(); return r; }
EXPORT int __wrap_fstat(int fd, struct stat* s) { if (!um_enter()) return fstat(fd, s); if (fault_now("fstat")) { um_leave(); errno = EIO; return -1; } int r = fstat(fd, s); um_leave(); return r; }
EXPORT int __wrap_fstat64(int fd, struct stat* s) { return __wrap_fstat(fd, s); }
EXPORT off_t __wrap_lseek(int fd, off_t o, int w) { if (!um_enter()) return lseek(fd, o, w); if (fault_now("lseek")) { um_leave(); errno = EIO; return -1; } off_t r = lseek(fd, o, w); um_leave(); return r; }
EXPORT off_t __wrap_lseek64(int fd, off_t o, int w) { return __wrap_lseek(fd, o, w); }
EXPORT ssize_t __wrap_write(int fd, const void* p, size_t n) { if (!um_enter()) return write(fd, p, n); if (fault_now("write")) { um_leave(); errno = ENOSPC; return -1; } ssize_t r = write(fd, p, n); um_leave(); return r; }
EXPORT ssize_t __wrap_pwrite(int fd, const void* p, size_t n, off_t o) { if (!um_enter()) return pwrite(fd, p, n, o); if (fault_now("pwrite")) { um_leave(); errno = ENOSPC; return -1; } ssize_t r = pwrite(fd, p, n, o); um_leave(); return r; }

// ---------------------------------------------------------------- heap
EXPORT void* __wrap_malloc(size_t n) {
    if (!um_enter()) return in_exec ? quiet_alloc(n, 16) : malloc(n);
    if (fault_now("malloc")) { um_leave(); errno = ENOMEM; return nullptr; }
    void* p = arena_alloc(n, 16, BK_MALLOC); um_leave(); if (!p) errno = ENOMEM; return p;
}
EXPORT void* __wrap_calloc(size_t a, size_t b) {
    if (!um_enter()) return in_exec ? quiet_alloc(a * b, 16) : calloc(a, b);
    size_t n; if (__builtin_mul_overflow(a, b, &n) || fault_now("calloc")) { um_leave(); errno = ENOMEM; return nullptr; }
    void* p = arena_alloc(n, 16, BK_MALLOC); if (p) memset(p, 0, n); um_leave(); return p;
}
EXPORT void __wrap_free(void* p) {
    if (!p) return;
    if (in_quiet(p)) { quiet_free(p); return; }
    if (!in_region(p)) { free(p); return; }
    int um = user_mode; user_mode = 0; if (in_exec) arena_free(p, BK_MALLOC); (void)um; set_um();
}
EXPORT void* __wrap_realloc(void* p, size_t n) {
    if (!user_mode && (in_quiet(p) || (!p && in_exec))) { void* q = quiet_alloc(n, 16); if (p) { u64 k = ((u64*)p)[-1]; memcpy(q, p, k < n ? k : n); } return q; }
    if (!user_mode && !in_region(p)) return realloc(p, n);
    user_mode = 0;
    if (fault_now("realloc")) { set_um(); return nullptr; }
    void* q = arena_alloc(n, 16, BK_MALLOC);
    if (q && p) { BlkHdr* h = (BlkHdr*)((char*)p - sizeof(BlkHdr)); memcpy(q, p, h->size < n ? h->size : n); arena_free(p, BK_MALLOC); }
    set_um(); return q;
}
EXPORT int __wrap_posix_memalign(void** r, size_t al, size_t n) {
    if (!um_enter()) { if (in_exec) { *r = quiet_alloc(n, al); return 0; } return posix_memalign(r, al, n); }
    if (fault_now("posix_memalign")) { um_leave(); return ENOMEM; }
    void* p = arena_alloc(n, al, BK_MALLOC); um_leave(); if (!p) return ENOMEM; *r = p; return 0;
}
EXPORT void* __wrap_aligned_alloc(size_t al, size_t n) { if (!um_enter()) return aligned_alloc(al, n); void* p = arena_alloc(n, al, BK_MALLOC); um_leave(); return p; }
namespace {
void* op_new(size_t n, size_t al, int kind) {
    if (!um_enter()) { if (in_exec) return quiet_alloc(n, al); void* p = al > 16 ? aligned_alloc(al, (n + al - 1) & ~(al - 1)) : malloc(n ? n : 1); if (!p) { fprintf(stderr, "omc: out of memory\n"); _exit(3); } return p; }
    if (fault_now("operator new")) { um_leave(); return nullptr; }
    void* p = arena_alloc(n, al, kind);
    um_leave();
    return p;
}
void op_del(void* p, int kind) {
    if (!p) return;
    if (in_quiet(p)) { quiet_free(p); return; }
    if (!in_region(p)) { free(p); return; }
    user_mode = 0; if (in_exec) arena_free(p, kind); set_um();
}
}
#define VIS __attribute__((visibility("default")))
VIS void* operator new(size_t n) { void* p = op_new(n, 16, BK_NEW); if (!p) throw std::bad_alloc(); return p; }
VIS void* operator new[](size_t n) { void* p = op_new(n, 16, BK_NEWA); if (!p) throw std::bad_alloc(); return p; }
VIS void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, BK_NEW); }
VIS void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, BK_NEWA); }
VIS void* operator new(size_t n, std::align_val_t a) { void* p = op_new(n, (size_t)a, BK_NEW); if (!p) throw std::bad_alloc(); return p; }
VIS void* operator new[](size_t n, std::align_val_t a) { void* p = op_new(n, (size_t)a, BK_NEWA); if (!p) throw std::bad_alloc(); return p; }
VIS void operator delete(void* p) noexcept { op_del(p, BK_NEW); }
VIS void operator delete[](void* p) noexcept { op_del(p, BK_NEWA); }
VIS void operator delete(void* p, size_t) noexcept { op_del(p, BK_NEW); }
VIS void operator delete[](void* p, size_t) noexcept { op_del(p, BK_NEWA); }
VIS void operator delete(void* p, std::align_val_t) noexcept { op_del(p, BK_NEW); }
VIS void operator delete[](void* p, std::align_val_t) noexcept { op_del(p, BK_NEWA); }
VIS void operator delete(void* p, size_t, std::align_val_t) noexcept { op_del(p, BK_NEW); }
VIS void operator delete[](void* p, size_t, std::align_val_t) noexcept { op_del(p, BK_NEWA); }
VIS void operator delete(void* p, const std::nothrow_t&) noexcept { op_del(p, BK_NEW); }
VIS void operator delete[](void* p, const std::nothrow_t&) noexcept { op_del(p, BK_NEWA); }

// ---------------------------------------------------------------- memory functions
#define RD(p, n) do { if (n) access((uintptr_t)(p), (n), false, PC); } while (0)
#define WR(p, n) do { if (n) access((uintptr_t)(p), (n), true, PC); } while (0)
EXPORT void* __wrap_memcpy(void* d, const void* s, size_t n) { if (user_mode) { RD(s, n); WR(d, n); if (n && ((uintptr_t)d < (uintptr_t)s + n && (uintptr_t)s < (uintptr_t)d + n) && d != s) violate("memcpy of overlapping regions"); } return memcpy(d, s, n); }
EXPORT void* __wrap_memmove(void* d, const void* s, size_t n) { if (user_mode) { RD(s, n); WR(d, n); } return memmove(d, s, n); }
EXPORT void* __wrap_memset(void* d, int c, size_t n) { if (user_mode) { WR(d, n); } return memset(d, c, n); }
EXPORT int __wrap_memcmp(const void* a, const void* b, size_t n) { if (user_mode) { RD(a, n); RD(b, n); } return memcmp(a, b, n); }
EXPORT void* __wrap_memchr(const void* a, int c, size_t n) { if (user_mode) { const void* r = memchr(a, c, n); size_t k = r ? (const char*)r - (const char*)a + 1 : n; RD(a, k); return (void*)r; } return (void*)memchr(a, c, n); }
EXPORT size_t __wrap_strlen(const char* s) {
    if (user_mode && in_region(s)) { size_t i = 0; for (;; ++i) { access((uintptr_t)s + i, 1, false, PC); if (!s[i]) return i; } }
    return strlen(s);
}
EXPORT int __wrap_strcmp(const char* a, const char* b) {
    if (user_mode) for (size_t i = 0;; ++i) { RD(a + i, 1); RD(b + i, 1); if (a[i] != b[i] || !a[i]) return (unsigned char)a[i] - (unsigned char)b[i]; }
    return strcmp(a, b);
}
EXPORT int __wrap_strncmp(const char* a, const char* b, size_t n) {
    if (user_mode) { for (size_t i = 0; i < n; ++i) { RD(a + i, 1); RD(b + i, 1); if (a[i] != b[i] || !a[i]) return (unsigned char)a[i] - (unsigned char)b[i]; } return 0; }
    return strncmp(a, b, n);
}
EXPORT void* __tsan_memcpy(void* d, const void* s, size_t n) { return __wrap_memcpy(d, s, n); }
EXPORT void* __tsan_memmove(void* d, const void* s, size_t n) { return __wrap_memmove(d, s, n); }
EXPORT void* __tsan_memset(void* d, int c, size_t n) { return __wrap_memset(d, c, n); }
EXPORT int __wrap_vsnprintf(char* b, size_t n, const char* f, va_list ap) {
    if (!user_mode) return vsnprintf(b, n, f, ap);
    user_mode = 0; int r = vsnprintf(b, n, f, ap); set_um();
    if (r >= 0 && n) { size_t k = (size_t)r < n ? r + 1 : n; WR(b, k); } return r;
}
EXPORT int __wrap_snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsnprintf(b, n, f, ap); va_end(ap); return r; }
EXPORT int __wrap_sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsnprintf(b, 0x7fffffff, f, ap); va_end(ap); return r; }
EXPORT int __wrap_strcoll(const char* a, const char* b) { return strcoll(a, b); }
EXPORT void __wrap_abort() { if (user_mode) violate("abort() called"); abort(); }
EXPORT void __wrap_exit(int c) { if (user_mode) violate("exit(%d) called", c); exit(c); }
EXPORT void __wrap__exit(int c) { if (user_mode) violate("_exit(%d) called", c); _exit(c); }
EXPORT void __wrap___assert_fail(const char* e, const char* f, unsigned l, const char*) { if (user_mode) violate("assertion failed: %s (%s:%u)", e, f, l); abort(); }

// ---------------------------------------------------------------- harness interface
EXPORT void omc_quiet_enter() { ++quiet_depth; user_mode = 0; }
EXPORT void omc_quiet_leave() { --quiet_depth; set_um(); }
EXPORT void omc_fail(const char* m) { violate("%s", m); }
EXPORT void omc_observe(const void* p, size_t n) { obs.add(p, n); }
EXPORT void omc_outcome(const void* p, size_t n) { outc.add(p, n); obs.add(p, n); }
EXPORT void omc_step(uint64_t h) { ++S.steps_h; H128 x; x.a = IMap::mix(h); x.b = h; if (step_states.add(x)) ++S.step_states; }
EXPORT const char* omc_dir() { return scratch; }
EXPORT int omc_tier() { return tier; }
EXPORT int omc_native() { return 0; }
EXPORT int omc_fault_fired() { return fault_count; }
EXPORT const char* omc_fault_name() { return fault_last; }
EXPORT long omc_open_fds() { return fds.n; }
EXPORT long omc_open_maps() { return maps_live; }
EXPORT long omc_live_blocks() { return live_blocks; }
EXPORT long omc_live_bytes() { return live_bytes; }
EXPORT void omc_set_fault_window(int on) { fault_window = on; }
EXPORT int omc_team() { return cfg_T; }
EXPORT void omc_add(omc::Suite* s) { suites.push(s); }

// ---------------------------------------------------------------- one execution
namespace {
volatile sig_atomic_t beat; u64 exec_no; volatile u64 watch_exec; volatile int watch_left;
char altstk[65536];

extern "C" __attribute__((used, visibility("hidden"))) void omc_master_c() {
    set_um();
    try { suite->body(); }
    catch (const std::exception& e) { user_mode = 0; quiet_depth = 1; violate("unexpected exception escaped the harness body: %s", e.what()); }
    catch (...) { user_mode = 0; violate("unexpected exception escaped the harness body"); }
    user_mode = 0;
    extern bool exec_done; exec_done = true;
    yield_ctrl();
    internal("resumed a finished execution");
}
bool exec_done;

void on_term() {
    if (in_exec && cur) {
        const char* what = "";
        char buf[300];
        if (std::exception_ptr ep = std::current_exception()) { user_mode = 0; ++quiet_depth; try { std::rethrow_exception(ep); } catch (const std::exception& e) { snprintf(buf, sizeof buf, " (%s)", e.what()); what = buf; } catch (...) {} }
        violate("std::terminate called%s: an exception left a parallel region or a noexcept function%s", team_running ? " inside a parallel region" : "", what);
    }
    fprintf(stderr, "omc: terminate outside an execution\n"); _exit(3);
}
void on_sig(int sig, siginfo_t* si, void* uc) {
    if (sig == SIGVTALRM) {
        if (in_exec && cur && user_mode) { if (watch_exec == exec_no) { if (--watch_left <= 0) { user_mode = 0; vio_pc1 = ((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP]; violate("no termination: the execution made no progress for the time limit"); } } else { watch_exec = exec_no; watch_left = 20; } }
        else if (in_exec && watch_exec != exec_no) { watch_exec = exec_no; watch_left = 20; }
        return;
    }
    if (in_exec && cur) {
        user_mode = 0;
        vio_pc1 = ((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
        violate("crash: signal %d at an address in %s", sig, region_name((uintptr_t)si->si_addr));
    }
    dprintf(2, "omc: signal %d outside an execution (addr %p, suite %s case %zu)\n", sig, si->si_addr, suite ? suite->name : "?", cur_case);
    signal(sig, SIG_DFL); raise(sig);
}

void reset_exec() {
    for (int i = 0; i < MAXF; ++i) {
        Arena& A = ar[i];
        if (A.high > A.lo) { memset(AMAP + (A.lo - BASE), 0, A.high - A.lo); }
        A.cur = A.lo; A.high = A.lo;
        fib[i].tid = i; fib[i].st = F_IDLE; fib[i].level = 0; fib[i].stack_used = false; fib[i].user_sp = nullptr; fib[i].eh[0] = fib[i].eh[1] = nullptr;
        if (tls_size && fib[i].tls) memcpy(fib[i].tls, tls_init, tls_size);
    }
    // leftovers of an abandoned execution
    for (size_t i = 0; i < fds.n; ++i) { if (fds[i].file) fclose((FILE*)fds[i].file); else close(fds[i].fd); }
    fds.n = 0;
    maps_reset();
    live_blocks = live_bytes = 0;
    memcpy((void*)exe_lo, exe_snap, exe_hi - exe_lo);
    steps = 0; obs = Hash(); outc = Hash(); fault_count = fault_calls = 0; fault_window = 0; fault_last = "";
    nthreads_req = 0; race_on = false; team_running = false; phase = 0; depth = 0; locks.n = 0; req_team = false; exec_done = false; cut = false; vio = false; vio_pc1 = 0;
    quiet_depth = 0; qcur = QLO; new_gen(1); begin_phase();
    serial_team.n = 1;
    fib[0].team = &serial_team; fib[0].team_tid = 0; fib[0].ws_seq = 0x40000000;
    memset(serial_ws, 0, sizeof serial_ws);
}
// true if it ran to completion without violation or cut
bool run_exec() {
    reset_exec();
    ++exec_no; ++S.execs;
    in_exec = true;
    if (sigsetjmp(ctrl_jmp, 0) == 0) {
        init_stack(&fib[0], omc_master_entry);
        fib[0].st = F_RUN;
        resume(&fib[0]);
        for (;;) {
            if (exec_done) break;
            if (req_team) { req_team = false; run_team(); resume(&fib[0]); continue; }
            internal("master yielded without a request");
        }
    }
    S.accesses += steps;
    in_exec = false; cur = nullptr; user_mode = 0; quiet_depth = 0; team_running = false; race_on = false;
    { void** g = (void**)__cxxabiv1::__cxa_get_globals(); g[0] = nullptr; *(unsigned*)&g[1] = 0; }
    if (!vio && !cut) ++S.complete;
    return !vio && !cut;
}

// ---------------------------------------------------------------- items
struct Violation { char suite[64]; size_t cs; int cfgi; omc::Config cfg; int faults[2]; int nf; char* choices; char* msg; char* desc; u64 pc; bool confirmed; };
Vec<Violation> vios;
FILE* outcomes_f;
double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
double t_start, budget = 1e9; int max_vios = 12;

char* choices_string() {
    size_t cap = depth * 4 + 16; char* s = (char*)malloc(cap); size_t k = 0; s[0] = 0;
    for (size_t i = 0; i < depth && i < nodes.n; ++i) k += snprintf(s + k, cap - k, "%s%d", i ? "," : "", nodes[i].chosen);
    return s;
}
void record_violation() {
    Violation v; memset(&v, 0, sizeof v);
    snprintf(v.suite, sizeof v.suite, "%s", suite->name); v.cs = cur_case; v.cfgi = cfg_index; v.cfg = cfg; v.nf = nfault_at; v.faults[0] = fault_at[0]; v.faults[1] = fault_at[1];
    v.choices = choices_string(); v.msg = strdup(vio_msg); v.pc = vio_pc1;
    // confirm: replay the same schedule and require the same message
    Vec<int> ch; for (size_t i = 0; i < depth && i < nodes.n; ++i) ch.push(nodes[i].chosen);
    Vec<int> old = replay_choices; replay_choices = ch; replay_mode = true; size_t keep = nodes.n; (void)keep;
    int okc = 0;
    for (int r = 0; r < 2; ++r) { nodes.n = 0; run_exec(); if (vio && !strcmp(vio_msg, v.msg)) ++okc; }
    replay_mode = false; replay_choices = old; nodes.n = 0; ::free(ch.a);
    v.confirmed = okc == 2;
    std::string d = suite->describe(); v.desc = strdup(d.c_str());
    vios.push(v);
}
void json_str(FILE* f, const char* s) {
    fputc('"', f);
    for (; *s; ++s) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
    fputc('"', f);
}

// The configurations of the prepared case.  For large teams: of each suite a number of cases spread evenly, under the canonical schedules.
void get_configs(omc::Suite* s, std::vector<omc::Config>& out) {
    s->configs(out);
    if (!MANY || out.empty()) return;   // no configuration: the case does not apply
    omc::Config k = out[0];
    out.clear(); k.mode = omc::POLICY; k.bound = 0;
    k.T = MAXF - 1; k.realchunk = true; out.push_back(k);
    k.T = 70; out.push_back(k);
}
bool selected(size_t c, size_t n) { if (!MANY) return true; size_t k = tier ? 120 : 20; if (n <= k) return true; return c == n - 1 || (c * (k - 1) / (n - 1) != (c + 1) * (k - 1) / (n - 1)); }

u64 item_sched_cap = 2000000;
// explore all schedules of the current case/config/fault assignment; returns false on violation
bool explore() {
    nodes.n = 0; prefix = 0; visited.clear();
    u64 ex = 0; HSet& os = outcomes_seen; os.clear(); size_t nout = 0;
    int npol = cfg.mode == omc::POLICY ? (cfg_T > 1 ? 3 : 1) : 1;
    for (int pol = 0; pol < npol; ++pol) {
        if (cfg.mode == omc::POLICY) { cfg.bound = pol; nodes.n = 0; prefix = 0; rr_last = -1; }
        for (;;) {
            bool ok = run_exec(); ++ex;
            if (vio) { record_violation(); return false; }
            if (ok) { if (os.add(outc.get())) { ++nout; if (outcomes_f && nfault_at == 0) { H128 h = outc.get(); fprintf(outcomes_f, "%s %zu %d %016llx%016llx\n", suite->name, cur_case, cfg_T, (unsigned long long)h.a, (unsigned long long)h.b); } } }
            // replay determinism: the first complete execution of an item is run twice
            if (ok && ex == 1 && cfg.mode != omc::POLICY) {
                H128 h1 = outc.get(); u64 st1 = steps; size_t d1 = depth; Vec<int> ch; for (size_t i = 0; i < depth; ++i) ch.push(nodes[i].chosen);
                Vec<Node> keep = nodes; nodes = Vec<Node>(); replay_choices = ch; replay_mode = true; run_exec(); replay_mode = false;
                if (vio || outc.get().a != h1.a || steps != st1 || depth != d1) internal("replaying a schedule gave a different execution: uncaptured nondeterminism (%s; outcome %llx %llx steps %llu %llu depth %zu %zu)", vio ? vio_msg : "none", (unsigned long long)h1.a, (unsigned long long)outc.get().a, (unsigned long long)st1, (unsigned long long)steps, d1, depth);
                ++S.divergence_checks; ::free(nodes.a); nodes = keep; ::free(ch.a); replay_choices = Vec<int>(); cut = false;
            }
            if (ex >= item_sched_cap) { ++S.capped; break; }
            if (!backtrack_next()) break;
            if (budget < 1e8 && (ex & 1023) == 0 && now() - t_start > budget) { ++S.capped; break; }
        }
    }
    if (nout > 1) ++S.multi;
    S.outcomes += nout;
    return true;
}
void run_item(omc::Suite* s, size_t cs, int ci, const omc::Config& c) {
    suite = s; cur_case = cs; cfg_index = ci; cfg = c; cfg_T = c.T; nfault_at = 0;
    memcpy(exe_snap, (void*)exe_lo, exe_hi - exe_lo);
    ++S.items;
    if (!explore()) return;
    if (s->faults && !MANY) {
        // the fault-free exploration's last execution tells how many fallible calls there are on it; enumerate until none fires
        for (int k = 0; k < 4000; ++k) {
            nfault_at = 1; fault_at[0] = k; u64 f0 = S.faults;
            if (!explore()) { nfault_at = 0; return; }
            if (S.faults == f0) break;
            if (s->faults > 1) for (int j = k + 1; j < 4000; ++j) {
                nfault_at = 2; fault_at[0] = k; fault_at[1] = j; u64 f1 = S.faults; u64 e1 = S.execs;
                if (!explore()) { nfault_at = 0; return; }
                if (S.faults - f1 <= S.execs - e1) break; // only the first fault ever fired
            }
        }
        nfault_at = 0;
    }
}

int cb_phdr(struct dl_phdr_info* i, size_t, void*) {
    static bool first = true; if (!first) return 0; first = false;
    for (int k = 0; k < i->dlpi_phnum; ++k) {
        const ElfW(Phdr)& p = i->dlpi_phdr[k];
        if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) { exe_lo = i->dlpi_addr + p.p_vaddr; exe_hi = exe_lo + p.p_memsz; }
        if (p.p_type == PT_TLS) { tls_ptr = (char*)i->dlpi_tls_data; tls_size = p.p_memsz; }
    }
    for (int k = 0; k < i->dlpi_phnum; ++k) { const ElfW(Phdr)& p = i->dlpi_phdr[k]; if (p.p_type == PT_GNU_RELRO) { uintptr_t e = (i->dlpi_addr + p.p_vaddr + p.p_memsz + 4095) & ~4095UL; if (e > exe_lo) exe_lo = e; } }
    return 0;
}
void setup() {
    if (mmap((void*)BASE, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)BASE) { perror("omc: mmap region"); _exit(3); }
    if (mmap(AMAP, SIZE + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)AMAP) { perror("omc: mmap map"); _exit(3); }
    if (mmap(CELLS, SIZE * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)CELLS) { perror("omc: mmap cells"); _exit(3); }
    mmap((void*)MAPS, MAPS_END - MAPS, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (mmap((void*)QLO, QHI - QLO, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)QLO) { perror("omc: mmap quiet"); _exit(3); }
    memset(AMAP, 1, MAXF * STK);
    dl_iterate_phdr(cb_phdr, nullptr);
    exe_cells = (Cell*)mmap(nullptr, (exe_hi - exe_lo) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    exe_snap = (u8*)malloc(exe_hi - exe_lo);
    if (tls_size && tls_ptr) { tls_init = (char*)malloc(tls_size); memcpy(tls_init, tls_ptr, tls_size); for (int i = 0; i < MAXF; ++i) fib[i].tls = (char*)malloc(tls_size); }
    else tls_size = 0;
    for (int i = 0; i < MAXF; ++i) { ar[i].lo = i ? HEAPN + (i - 1) * HEAPN_SZ : HEAP0; ar[i].hi = i ? ar[i].lo + HEAPN_SZ : HEAP0 + HEAP0_SZ; ar[i].cur = ar[i].high = ar[i].lo; }
    rside.resize(1); aside_w.resize(1); aside_r.resize(1);
    serial_team.n = 1; teams[0].n = 1; maps_cur = MAPS;
    char* lst = (char*)dlsym(RTLD_DEFAULT, "__libc_single_threaded"); if (lst) *lst = 0;
    stack_t ss; ss.ss_sp = altstk; ss.ss_size = sizeof altstk; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGILL, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr);
    sigaction(SIGVTALRM, &sa, nullptr);
    std::set_terminate(on_term);
}

void write_result(const char* fn) {
    FILE* f = fopen(fn, "w"); if (!f) { perror("omc: result"); _exit(3); }
    fprintf(f, "{\"execs\":%llu,\"complete\":%llu,\"pruned\":%llu,\"sleepcut\":%llu,\"states\":%llu,\"transitions\":%llu,\"nodes\":%llu,\"cases\":%llu,\"items\":%llu,\"outcomes\":%llu,\"multi\":%llu,\"capped\":%llu,\"replays\":%llu,\"faults\":%llu,\"divergence_checks\":%llu,\"accesses\":%llu,\"steps\":%llu,\"step_states\":%llu,\"wall\":%.3f,\"violations\":[",
        (unsigned long long)S.execs, (unsigned long long)S.complete, (unsigned long long)S.pruned, (unsigned long long)S.sleepcut, (unsigned long long)S.states, (unsigned long long)S.trans, (unsigned long long)S.nodes, (unsigned long long)S.cases, (unsigned long long)S.items, (unsigned long long)S.outcomes, (unsigned long long)S.multi, (unsigned long long)S.capped, (unsigned long long)S.replays, (unsigned long long)S.faults, (unsigned long long)S.divergence_checks, (unsigned long long)S.accesses, (unsigned long long)S.steps_h, (unsigned long long)S.step_states, now() - t_start);
    for (size_t i = 0; i < vios.n; ++i) {
        Violation& v = vios[i];
        fprintf(f, "%s{\"suite\":\"%s\",\"case\":%zu,\"cfg\":%d,\"T\":%d,\"mode\":%d,\"bound\":%d,\"pattern\":%d,\"realchunk\":%d,\"faults\":[", i ? "," : "", v.suite, v.cs, v.cfgi, v.cfg.T, v.cfg.mode, v.cfg.bound, v.cfg.pattern, v.cfg.realchunk);
        for (int k = 0; k < v.nf; ++k) fprintf(f, "%s%d", k ? "," : "", v.faults[k]);
        fprintf(f, "],\"choices\":\"%s\",\"confirmed\":%s,\"pc\":\"0x%llx\",\"msg\":", v.choices, v.confirmed ? "true" : "false", (unsigned long long)(v.pc ? v.pc : 0));
        json_str(f, v.msg); fprintf(f, ",\"desc\":"); json_str(f, v.desc); fprintf(f, "}");
    }
    fprintf(f, "],\"base\":\"0x%llx\"}\n", (unsigned long long)0);
    fclose(f);
}
struct Shared { volatile u64 done[64]; volatile size_t suite[64], cs[64], ci[64]; };
Shared* sh;
void rm_scratch() { char c[400]; snprintf(c, sizeof c, "rm -rf '%s'", scratch); if (system(c)) {} }
}

// usage: harness --out DIR [--tier quick|thorough] [--jobs N] [--suite NAME] [--case I] [--budget S] [--replay suite:case:cfg:faults:choices]
EXPORT int omc_main(int argc, char** argv) {
    const char* out = "."; int jobs = 8; const char* only = nullptr; long only_case = -1; const char* replay = nullptr; bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() -> const char* { if (i + 1 >= argc) { fprintf(stderr, "missing argument\n"); _exit(2); } return argv[++i]; };
        if (a == "--out") out = next(); else if (a == "--jobs") jobs = atoi(next()); else if (a == "--suite") only = next(); else if (a == "--case") only_case = atol(next());
        else if (a == "--tier") tier = !strcmp(next(), "thorough"); else if (a == "--budget") budget = atof(next()); else if (a == "--replay") replay = next(); else if (a == "--list") list = true;
        else if (a == "--maxvio") max_vios = atoi(next());
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    setup();
    t_start = now();
    const char* root = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    if (replay) {
        snprintf(scratch, sizeof scratch, "%s/omc.%d.r", root, (int)getpid()); mkdir(scratch, 0700);
        char sn[64]; size_t cs; int ci; char fl[64] = ""; static char chs[1 << 24] = "";
        // suite:case:cfg:faults:choices
        const char* p = replay; const char* q = strchr(p, ':'); snprintf(sn, sizeof sn, "%.*s", (int)(q - p), p); p = q + 1; cs = strtoul(p, (char**)&q, 10); p = q + 1; ci = strtol(p, (char**)&q, 10); p = q + 1; q = strchr(p, ':'); snprintf(fl, sizeof fl, "%.*s", (int)(q - p), p); p = q + 1; snprintf(chs, sizeof chs, "%s", p);
        for (size_t i = 0; i < suites.n; ++i) if (!strcmp(suites[i]->name, sn)) {
            suite = suites[i]; cur_case = cs; suite->count(); suite->prepare(cs); std::vector<omc::Config> cv; get_configs(suite, cv);
            cfg = cv.at(ci); cfg_T = cfg.T; cfg_index = ci; nfault_at = 0; for (char* t = strtok(fl, ","); t && nfault_at < 2; t = strtok(nullptr, ",")) fault_at[nfault_at++] = atoi(t);
            for (char* t = strtok(chs, ","); t; t = strtok(nullptr, ",")) replay_choices.push(atoi(t));
            memcpy(exe_snap, (void*)exe_lo, exe_hi - exe_lo);
            replay_mode = true; bool ok = run_exec(); bool v = vio; rm_scratch();
            printf("case: %s\nT=%d mode=%d\n%s\n", suite->describe().c_str(), cfg_T, cfg.mode, v ? vio_msg : ok ? "no violation" : "cut");
            return v ? 1 : 0;
        }
        fprintf(stderr, "no such suite\n"); return 2;
    }
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (jobs > 64) jobs = 64;
    if (list) { for (size_t i = 0; i < suites.n; ++i) printf("%s %zu\n", suites[i]->name, suites[i]->count()); return 0; }
    // dynamic distribution of (suite, case) over forked workers: blocks taken from a shared counter
    volatile u64* ticket = (volatile u64*)&sh->done[63];
    *ticket = 0;
    for (int j = 0; j < jobs; ++j) {
        fflush(nullptr);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); return 3; }
        if (pid == 0) {
            snprintf(scratch, sizeof scratch, "%s/omc.%d.%d", root, (int)getppid(), j); mkdir(scratch, 0700);
            char ofn[512]; snprintf(ofn, sizeof ofn, "%s/outcomes.%d", out, j); outcomes_f = fopen(ofn, "w");
            struct itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval; setitimer(ITIMER_VIRTUAL, &it, nullptr);
            u64 base = 0, mine = 0; bool have = false;
            for (size_t si = 0; si < suites.n; ++si) {
                omc::Suite* s = suites[si];
                if (only && strcmp(only, s->name)) continue;
                size_t n = s->count(); size_t vio0 = vios.n; double st0 = now(); u64 ex0 = S.execs;
                for (;;) {
                    if (!have) { mine = __atomic_fetch_add(ticket, 1, __ATOMIC_RELAXED); have = true; }
                    if (mine >= base + n) break;
                    size_t c = mine - base; have = false;
                    if (only_case >= 0 ? (size_t)only_case != c : !selected(c, n)) continue;
                    if (budget < 1e8 && now() - t_start > budget) { ++S.capped; continue; }
                    if (vios.n - vio0 >= (size_t)max_vios) continue;
                    sh->suite[j] = si; sh->cs[j] = c; sh->ci[j] = 0;
                    suite = s; cur_case = c;
                    s->prepare(c); ++S.cases;
                    std::vector<omc::Config> cv; get_configs(s, cv);
                    for (size_t k = 0; k < cv.size(); ++k) { sh->ci[j] = k; size_t v0 = vios.n; run_item(s, c, k, cv[k]); if (vios.n > v0) break; }
                }
                base += n;
                if (getenv("OMC_PROF") && S.execs > ex0) fprintf(stderr, "PROF %s %.2f %llu\n", s->name, now() - st0, (unsigned long long)(S.execs - ex0));
            }
            char fn[512]; snprintf(fn, sizeof fn, "%s/result.%d.json", out, j); write_result(fn);
            if (outcomes_f) fclose(outcomes_f);
            rm_scratch();
            fflush(nullptr); _exit(vios.n ? 1 : 0);
        }
    }
    int worst = 0;
    for (int j = 0; j < jobs; ++j) {
        int st; pid_t p = wait(&st); (void)p;
        int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
        if (rc > worst) worst = rc;
    }
    for (int j = 0; j < jobs; ++j) { snprintf(scratch, sizeof scratch, "%s/omc.%d.%d", root, (int)getpid(), j); rm_scratch(); }
    if (worst > 1) { for (int j = 0; j < jobs; ++j) { char fn[512]; snprintf(fn, sizeof fn, "%s/result.%d.json", out, j); if (::access(fn, R_OK) != 0) printf("DIED %s %zu %zu\n", suites[sh->suite[j]]->name, (size_t)sh->cs[j], (size_t)sh->ci[j]); } }
    return worst;
}
