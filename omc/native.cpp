// Free-running counterpart of rt.cpp: the same suites under the real libgomp (and ASan).  Its observed outcomes
// must be among those the explorer found, and its oracle must agree.
#include "omc.h"
#include <cerrno>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ctime>
#ifdef _OPENMP
#include <omp.h>
#else
static void omp_set_num_threads(int) {}
#endif
#include <exception>
#include <vector>
namespace {
std::vector<omc::Suite*>& suites() { static std::vector<omc::Suite*> v; return v; }
int tier; char scratch[256]; int T;
uint64_t ha, hb;
void h0() { ha = 0x9e3779b97f4a7c15ULL; hb = 0xc2b2ae3d27d4eb4fULL; }
void hw(uint64_t x) { ha = (ha ^ x) * 0xff51afd7ed558ccdULL; ha ^= ha >> 32; hb = (hb + x) * 0x9fb21c651e98df25ULL; hb ^= hb >> 29; }
void hadd(const void* p, size_t n) { const char* c = (const char*)p; while (n >= 8) { uint64_t x; memcpy(&x, c, 8); hw(x); c += 8; n -= 8; } uint64_t x = 0; if (n) memcpy(&x, c, n); hw(x ^ ((uint64_t)n << 56)); }
uint64_t mix(uint64_t k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdULL; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ULL; k ^= k >> 33; return k; }
struct NativeFail { std::string m; };
long fd0;
long count_fds() { long n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) ++n; closedir(d); return n; }
double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Shared { volatile size_t suite[64], cs[64]; };
}
extern "C" {
void omc_quiet_enter() {} void omc_quiet_leave() {}
void omc_fail(const char* m) { throw NativeFail{m}; }
void omc_observe(const void*, size_t) {}
void omc_outcome(const void* p, size_t n) { hadd(p, n); }
void omc_step(uint64_t) {}
const char* omc_dir() { return scratch; }
int omc_tier() { return tier; }
int omc_native() { return 1; }
int omc_fault_fired() { return 0; }
const char* omc_fault_name() { return ""; }
long omc_open_fds() { return count_fds() - fd0; }
long omc_open_maps() { return 0; }
long omc_live_blocks() { return 0; }
long omc_live_bytes() { return 0; }
void omc_set_fault_window(int) {}
int omc_team() { return T; }
void omc_add(omc::Suite* s) { suites().push_back(s); }
const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=512:detect_odr_violation=0:exitcode=66"; }
int omc_main(int argc, char** argv) {
    const char* out = "."; int jobs = 4; long maxc = 4000; double budget = 60; const char* only = nullptr; long only_case = -1;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto next = [&]() { return argv[++i]; };
        if (a == "--out") out = next(); else if (a == "--jobs") jobs = atoi(next()); else if (a == "--max") maxc = atol(next()); else if (a == "--budget") budget = atof(next()); else if (a == "--tier") tier = !strcmp(next(), "thorough"); else if (a == "--suite") only = next(); else if (a == "--case") only_case = atol(next()); }
    const char* root = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    size_t total = 0; for (auto s : suites()) total += s->count();
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = now(); int worst = 0;
    for (int j = 0; j < jobs; ++j) {
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            snprintf(scratch, sizeof scratch, "%s/omcn.%d.%d", root, (int)getppid(), j); mkdir(scratch, 0700);
            char fn[512]; snprintf(fn, sizeof fn, "%s/native.%d", out, j); FILE* f = fopen(fn, "w");
            size_t g = 0; long runs = 0; int bad = 0;
            { FILE* w = fopen("/dev/null", "r"); fd0 = 0; fclose(w); }
            for (size_t si = 0; si < suites().size(); ++si) { omc::Suite* s = suites()[si]; size_t n = s->count();
                size_t stride = 1; if ((long)total > maxc) stride = (total + maxc - 1) / maxc; 
                if (n / stride < 50) stride = n / 50 ? n / 50 : 1;
                for (size_t c = 0; c < n; c += stride, ++g) {
                    if (only && (strcmp(only, s->name) || (only_case >= 0 && (size_t)only_case != c))) continue;
                    if ((long)(mix(g) % jobs) != j || now() - t0 > budget) continue;
                    sh->suite[j] = si; sh->cs[j] = c;
                    s->prepare(c); std::vector<omc::Config> cv; s->configs(cv);
                    int last = 0;
                    for (auto& k : cv) { if (k.T == last) continue; last = k.T;
                        T = k.T; omp_set_num_threads(T); h0(); fd0 = count_fds(); ++runs;
                        try { s->body(); fprintf(f, "O %s %zu %d %016llx%016llx\n", s->name, c, T, (unsigned long long)mix(ha ^ (hb << 1)), (unsigned long long)mix(hb + 0x1234567)); }
                        catch (const NativeFail& e) { ++bad; std::string d = s->describe(); std::string m = e.m; for (char& ch : m) if (ch == '\n') ch = ' '; for (char& ch : d) if (ch == '\n') ch = ' '; fprintf(f, "F %s %zu %d %s ;; %s\n", s->name, c, T, m.c_str(), d.c_str()); }
                        catch (const std::exception& e) { ++bad; fprintf(f, "F %s %zu %d exception %s ;; %s\n", s->name, c, T, e.what(), s->describe().c_str()); }
                        if (bad > 20) goto end;
                    }
                }
            }
            end:
            fprintf(f, "R %ld\n", runs); fclose(f);
            char cmd[400]; snprintf(cmd, sizeof cmd, "rm -rf '%s'", scratch); if (system(cmd)) {}
            fflush(nullptr); _exit(bad ? 1 : 0);
        }
    }
    for (int j = 0; j < jobs; ++j) { int st; wait(&st); int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); if (rc > worst) worst = rc; }
    for (int j = 0; j < jobs; ++j) { char cmd[400]; snprintf(cmd, sizeof cmd, "rm -rf '%s/omcn.%d.%d'", root, (int)getpid(), j); if (system(cmd)) {} }
    if (worst > 1) for (int j = 0; j < jobs; ++j) printf("AT %s %zu\n", suites()[sh->suite[j]]->name, (size_t)sh->cs[j]);
    return worst;
}
}
