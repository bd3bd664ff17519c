// Coverage flavour only (build.py OUT cov): which basic blocks of the real code a batch of simulated runs reached.
// One shared byte map survives the forked runs; SIMCOV=FILE makes the parent dump the reached call sites at exit.
#ifdef SIM_COV
#include <sys/mman.h>
#include <unistd.h>
#include <cstdio>
#include <cstdint>
#include <cstdlib>
extern "C" char __executable_start, etext;
static unsigned char* map_; static uintptr_t lo_; static size_t n_;
extern "C" void __sanitizer_cov_trace_pc() { if (map_) { size_t i = (uintptr_t)__builtin_return_address(0) - lo_; if (i < n_) map_[i] = 1; } }
static pid_t owner_;
__attribute__((constructor(101))) static void cov_init() {
    lo_ = (uintptr_t)&__executable_start; n_ = (uintptr_t)&etext - lo_;
    void* p = mmap(nullptr, n_, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); owner_ = getpid();
    if (p != MAP_FAILED) map_ = (unsigned char*)p;
}
__attribute__((destructor)) static void cov_dump() {
    const char* f = getenv("SIMCOV"); if (!f || getpid() != owner_ || !map_) return;
    FILE* o = fopen(f, "w"); if (!o) return;
    for (size_t i = 0; i < n_; ++i) if (map_[i]) fprintf(o, "%lx\n", (unsigned long)(lo_ + i));
    fclose(o);
}
#endif
