#include "env.h"
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <streambuf>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <glpk.h>

int verifypn_main(int, const char**);

namespace sim {
const char* const kind_name[K_NKINDS] = {"clock_jump", "lp_failure", "alloc_failure", "open_error", "read_fault", "write_fault", "crash", "preemption", "stdin_chunk"};
bool active = false;
Shared* shared = nullptr;
static EnvCfg g;                       // child only
static bool g_has_dec[K_NKINDS];
static std::map<uint64_t, int64_t>* g_dec = nullptr;
static int64_t now_ns = 0;
static bool in_hook = false;
extern bool in_new;
static uint32_t lp_reads = 0; static bool in_lp = false;   // a long-running solver call is charged virtual time, so that its own time limit takes effect

void ev(uint64_t x) { shared->evhash = (shared->evhash ^ x) * 1099511628211ull; }
void record(Kind k, uint32_t idx, int64_t p) {
    if (shared->n_decisions < (sizeof shared->decisions / sizeof shared->decisions[0])) shared->decisions[shared->n_decisions++] = {(uint8_t)k, idx, p};
    if (k != K_SCHED && k != K_CHUNK) shared->fired[k]++; else shared->fired[k]++;
    ev(((uint64_t)k << 56) ^ ((uint64_t)idx << 20) ^ (uint64_t)p);
}
bool decide_replay(Kind k, uint32_t idx, int64_t& p) {
    if (!g_has_dec[k]) return false;
    auto it = g_dec->find(((uint64_t)k << 32) | idx);
    if (it == g_dec->end()) return false;
    p = it->second; return true;
}
void stop_run(uint32_t why) { shared->stopped = why; syscall(SYS_exit_group, 77); __builtin_unreachable(); }

std::string EnvCfg::serialise() const {
    std::ostringstream o;
    o << "env clock_start " << clock_start << "\nenv clock_step " << clock_step << "\nenv rand_seed " << rand_seed
      << "\nenv layout_seed " << layout_seed << "\nenv max_rand " << max_rand << "\nenv max_alloc " << max_alloc << "\n";
    for (auto& d : decisions) o << "decision " << kind_name[d.kind] << " " << d.idx << " " << d.param << "\n";
    return o.str();
}
bool EnvCfg::parse_line(const std::string& line) {
    std::istringstream i(line); std::string w, k; i >> w >> k;
    if (w == "env") {
        if (k == "clock_start") i >> clock_start; else if (k == "clock_step") i >> clock_step;
        else if (k == "rand_seed") i >> rand_seed; else if (k == "layout_seed") i >> layout_seed;
        else if (k == "max_rand") i >> max_rand; else if (k == "max_alloc") i >> max_alloc; else return false;
        return true;
    }
    if (w == "decision") {
        for (int n = 0; n < K_NKINDS; ++n) if (k == kind_name[n]) { Decision d{}; d.kind = (uint8_t)n; i >> d.idx >> d.param; decisions.push_back(d); replay = true; return true; }
    }
    return false;
}

const EnvCfg& env_cfg() { return g; }
void env_start(const EnvCfg& cfg) {
    g = cfg;
    g_dec = new std::map<uint64_t, int64_t>();
    memset(g_has_dec, 0, sizeof g_has_dec);
    if (cfg.replay) for (auto& d : cfg.decisions) { (*g_dec)[((uint64_t)d.kind << 32) | d.idx] = d.param; g_has_dec[d.kind] = true; }
    now_ns = cfg.clock_start * 1000000000ll;
    memset((void*)shared, 0, offsetof(Shared, decisions));
    memset((void*)shared->count, 0, sizeof(Shared) - offsetof(Shared, count));
    shared->evhash = 14695981039346656037ull;
}
static inline bool seeded(Kind k, uint32_t idx, uint32_t ppm, Rng& r) {
    if (g.replay || ppm == 0) return false;
    r = Rng(mix(mix(g.seed, 1000 + k), idx));
    return r.below(1000000) < ppm;
}
bool alloc_should_fail(size_t) {
    if (in_hook) return false;
    uint64_t n = ++shared->alloc_calls;
    if (n > g.max_alloc) stop_run(1);
    if (g.replay) {
        static bool persist = false;
        if (!g_has_dec[K_ALLOC]) return false;
        if (persist) return true;
        int64_t p; in_hook = true; bool r = decide_replay(K_ALLOC, (uint32_t)n, p); in_hook = false;
        if (r) { record(K_ALLOC, (uint32_t)n, p); if (p == 2) persist = true; }
        return r;
    }
    if (!g.alloc_fail_at) return false;
    if (g.alloc_new) {
        static bool done = false;
        if (done) return g.alloc_persist;
        if (n < g.alloc_fail_at || !in_new) return false;
        done = true; record(K_ALLOC, (uint32_t)n, g.alloc_persist ? 2 : 1); return true;
    }
    if (n == g.alloc_fail_at) { record(K_ALLOC, (uint32_t)n, g.alloc_persist ? 2 : 1); return true; }
    return g.alloc_persist && n > g.alloc_fail_at;
}
static int64_t clock_read() {
    uint32_t idx = (uint32_t)shared->count[K_CLOCK]++;
    int64_t p = 0; Rng r;
    int64_t before = now_ns;
    now_ns += g.clock_step;
    if (in_lp && ++lp_reads > 200) now_ns += 50000000;
    if (idx > 5000) now_ns += idx > 20000 ? 100000000 : 5000000;       // a program that keeps asking for the time is working: let its time limits expire
    if (g.replay) { if (decide_replay(K_CLOCK, idx, p)) { now_ns += p; record(K_CLOCK, idx, p); } }
    else if (seeded(K_CLOCK, idx, g.clock_jump_ppm, r)) {
        int64_t m = g.clock_jump_max; int lg = 0; while ((m >> lg) > 1) ++lg;
        int64_t d = (int64_t)1 << r.range(10, lg > 10 ? lg : 10); d += (int64_t)r.below((uint64_t)d);
        if (g.clock_back && r.chance(1, 3)) d = -d;
        now_ns += d; record(K_CLOCK, idx, d);
    }
    if (now_ns < 1000000000ll) now_ns = 1000000000ll; else if (now_ns > 4000000000000000000ll) now_ns = 4000000000000000000ll;   // a clock a libc can represent
    if (now_ns > before) shared->clock_ns_advanced += now_ns - before;
    return now_ns;
}
static uint64_t rnd_state;
static uint64_t draw() {
    uint64_t n = ++shared->rand_calls;
    if (g.max_rand && n > g.max_rand) stop_run(2);
    Rng r(mix(mix(g.rand_seed, rnd_state), n)); 
    uint64_t v = r.next(); ev(v); return v;
}

// ---------------------------------------------------------------- files
static uint8_t fd_class[1024];          // 0 untracked, 1 input, 2 output
static int fopen_hook(const char* mode, const char* name, int& err) {
    uint32_t idx = (uint32_t)shared->count[K_OPEN]++;
    int64_t p; Rng r;
    (void)name; (void)mode;
    if (g.replay) { if (decide_replay(K_OPEN, idx, p)) { record(K_OPEN, idx, p); err = (int)p; return 1; } }
    else if (seeded(K_OPEN, idx, g.open_ppm, r)) { static const int es[] = {EACCES, EMFILE, ENOENT, EIO}; err = es[r.below(4)]; record(K_OPEN, idx, err); return 1; }
    return 0;
}
static ssize_t raw_read(int fd, void* b, size_t n) { return syscall(SYS_read, fd, b, n); }
static ssize_t raw_write(int fd, const void* b, size_t n) { return syscall(SYS_write, fd, b, n); }
ssize_t sim_read(int fd, void* b, size_t n) {
    if (fd < 0 || fd >= 1024 || fd_class[fd] != 1) return raw_read(fd, b, n);
    uint32_t idx = (uint32_t)shared->count[K_READ]++;
    int64_t p = 0; Rng r; bool hit = false;
    if (g.replay) hit = decide_replay(K_READ, idx, p);
    else if (seeded(K_READ, idx, g.read_err_ppm, r)) { hit = true; p = r.chance(1, 2) ? -EIO : -EINTR; }
    else if (seeded(K_READ, idx + 0x40000000u, g.read_short_ppm, r)) { hit = true; p = 1 + (int64_t)r.below(r.chance(1, 2) ? 16 : 1024); }
    if (hit) {
        record(K_READ, idx, p);
        if (p < 0) { errno = (int)-p; return -1; }
        if ((size_t)p < n) n = (size_t)p;
    }
    ssize_t got = raw_read(fd, b, n); ev((uint64_t)got); return got;
}
ssize_t sim_write(int fd, const void* b, size_t n) {
    if (fd < 0 || fd >= 1024 || fd_class[fd] != 2) return raw_write(fd, b, n);
    uint32_t idx = (uint32_t)shared->count[K_WRITE]++;
    shared->count[K_CRASH]++;
    int64_t p = 0; Rng r; bool hit = false;
    bool crash = false; int64_t cp = 0;
    if (g.replay) crash = decide_replay(K_CRASH, idx, cp);
    else if (g.crash_at_write && idx + 1 == g.crash_at_write) {
        crash = true; Rng q(mix(g.seed, 0xC4A5)); off_t sz = lseek(fd, 0, SEEK_END); cp = (int64_t)q.below((uint64_t)sz + n + 1);
        if (q.chance(1, 3)) cp = sz + (int64_t)q.below(n + 1);
    }
    if (crash) {
        record(K_CRASH, idx, cp);
        raw_write(fd, b, n); (void)!ftruncate(fd, cp);
        stop_run(4);
    }
    if (g.replay) hit = decide_replay(K_WRITE, idx, p);
    else if (seeded(K_WRITE, idx, g.write_err_ppm, r)) { hit = true; static const int es[] = {ENOSPC, EIO, EINTR, EDQUOT}; p = -es[r.below(4)]; }
    else if (seeded(K_WRITE, idx + 0x40000000u, g.write_short_ppm, r)) { hit = true; p = 1 + (int64_t)r.below(64); }
    if (hit) {
        record(K_WRITE, idx, p);
        if (p < 0) { errno = (int)-p; return -1; }
        if ((size_t)p < n) n = (size_t)p;
    }
    ssize_t w = raw_write(fd, b, n); ev((uint64_t)w); return w;
}

// ---------------------------------------------------------------- stdin / stdout of interactive sessions
struct OutBuf : std::streambuf {
    std::string* pend; uint64_t visible = 0;
    int overflow(int c) override { if (c != EOF) pend->push_back((char)c); return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { pend->append(s, (size_t)n); return n; }
    int sync() override { raw_write(1, pend->data(), pend->size()); visible += pend->size(); pend->clear(); return 0; }
};
struct InBuf : std::streambuf {
    const Stdin* in; OutBuf* out; size_t msg = 0, off = 0; char buf[4096];
    int underflow() override {
        // cin is tied to cout: the library flushes cout only for formatted operations, so do not flush here.
        while (msg < in->messages.size() && off >= in->messages[msg].size()) { ++msg; off = 0; }
        if (msg >= in->messages.size()) { note(); return EOF; }
        if (off == 0) note();
        const std::string& m = in->messages[msg];
        uint32_t idx = (uint32_t)shared->count[K_CHUNK]++;
        int64_t n = (int64_t)(m.size() - off), p;
        if (g.replay) { if (decide_replay(K_CHUNK, idx, p)) { n = std::min(n, p); record(K_CHUNK, idx, p); } }
        else { Rng r(mix(mix(g.seed, 77), idx)); if (r.pct(40)) { p = 1 + (int64_t)r.below(r.chance(1, 2) ? 4 : 256); if (p < n) { n = p; record(K_CHUNK, idx, p); } } }
        n = std::min<int64_t>(n, sizeof buf);
        memcpy(buf, m.data() + off, (size_t)n); off += (size_t)n;
        setg(buf, buf, buf + n);
        return (unsigned char)buf[0];
    }
    void note() { if (shared->n_exchanges < 512) shared->visible_at[shared->n_exchanges++] = out->visible; }
};

// ---------------------------------------------------------------- process runner
static const uintptr_t STACK_BASE = 0x300000000000ull; static const size_t STACK_SIZE = 64u << 20;
static ucontext_t uc_main, uc_child;
static int child_argc; static const char** child_argv; static int child_rc;
static void child_entry() { child_rc = verifypn_main(child_argc, child_argv); std::exit(child_rc); }

static std::string slurp(int fd) {
    std::string s; off_t n = lseek(fd, 0, SEEK_END); if (n <= 0) return s;
    if (n > (8 << 20)) n = 8 << 20;
    s.resize((size_t)n); ssize_t got = pread(fd, &s[0], (size_t)n, 0); if (got < 0) got = 0; s.resize((size_t)got); return s;
}

ProcResult run_process(const std::vector<std::string>& argv, const std::string& dir, const EnvCfg& cfg, const Stdin* in, int cpu_limit) {
    static int fo = -1, fe = -1;
    if (!shared) {
        shared = (Shared*)mmap((void*)0x400000000000ull, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
        fo = memfd_create("out", 0); fe = memfd_create("err", 0);
    }
    (void)!ftruncate(fo, 0); (void)!ftruncate(fe, 0); lseek(fo, 0, SEEK_SET); lseek(fe, 0, SEEK_SET);
    std::cout.flush(); fflush(stdout);
    memset((void*)shared, 0, offsetof(Shared, decisions));
    memset((void*)shared->count, 0, sizeof(Shared) - offsetof(Shared, count));
    pid_t pid = fork();
    if (pid == 0) {
        if (chdir(dir.c_str())) _exit(97);
        dup2(fo, 1); dup2(fe, 2);
        int nul = open("/dev/null", O_RDONLY); dup2(nul, 0);
        for (int i = 3; i < 64; ++i) syscall(SYS_close, i);
        struct rlimit rl{(rlim_t)cpu_limit, (rlim_t)cpu_limit + 1}; setrlimit(RLIMIT_CPU, &rl);
        struct rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
        rl = {64u << 20, 64u << 20}; setrlimit(RLIMIT_FSIZE, &rl);
        signal(SIGXFSZ, SIG_IGN);
        // fixed-address stack with seed-dependent garbage
        char* st = (char*)mmap((void*)STACK_BASE, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (st != (char*)STACK_BASE) _exit(96);
        env_start(cfg);
        rnd_state = 1;
        alloc_init_sim(cfg.layout_seed);
        static const unsigned char pats[] = {0x00, 0xFF, 0xA5, 0x01, 0x7F, 0x80, 0xCD, 0x5A};
        memset(st + STACK_SIZE - (128 << 10), cfg.layout_seed ? pats[mix(cfg.layout_seed, 5) & 7] : 0, 128 << 10);
        // argv inside the simulated heap
        child_argc = (int)argv.size() + 1;
        child_argv = (const char**)malloc(sizeof(char*) * (size_t)(child_argc + 1));
        child_argv[0] = strdup("verifypn");
        for (size_t i = 0; i < argv.size(); ++i) child_argv[i + 1] = strdup(argv[i].c_str());
        child_argv[child_argc] = nullptr;
        if (in && in->enabled) {
            static OutBuf ob; static InBuf ib; ob.pend = new std::string(); ib.in = in; ib.out = &ob;
            std::cout.rdbuf(&ob); std::cin.rdbuf(&ib);
        }
        getcontext(&uc_child);
        uc_child.uc_stack.ss_sp = st; uc_child.uc_stack.ss_size = STACK_SIZE; uc_child.uc_link = nullptr;
        makecontext(&uc_child, child_entry, 0);
        active = true;
        swapcontext(&uc_main, &uc_child);
        _exit(95);
    }
    ProcResult res; int status = 0;
    // wall-clock backstop: CPU limit plus generous wall limit enforced by SIGKILL
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(status)) res.exit_code = WEXITSTATUS(status);
    else if (WIFSIGNALED(status)) { res.sig = WTERMSIG(status); if (res.sig == SIGXCPU || res.sig == SIGKILL) res.timeout = true; }
    res.stopped = shared->stopped;
    memcpy(res.count, shared->count, sizeof res.count); memcpy(res.fired, shared->fired, sizeof res.fired);
    res.rand_calls = shared->rand_calls; res.alloc_calls = shared->alloc_calls; res.lp_first = shared->lp_first; res.lp_last = shared->lp_last; res.clock_ns = shared->clock_ns_advanced;
    res.yields = shared->yields; res.preemptions = shared->preemptions;
    res.visible_at.assign(shared->visible_at, shared->visible_at + shared->n_exchanges);
    res.decisions.assign(shared->decisions, shared->decisions + shared->n_decisions);
    res.out = slurp(fo); res.err = slurp(fe);
    uint64_t h = shared->evhash;
    h = hash_bytes(res.out.data(), res.out.size(), h); h = hash_bytes(res.err.data(), res.err.size(), h);
    h = mix(h, (uint64_t)(res.exit_code * 1000 + res.sig)); h = mix(h, res.alloc_calls); h = mix(h, res.rand_calls); h = mix(h, shared->count[K_CLOCK]);
    res.evhash = res.timeout ? 0 : h;           // where a wall-clock backstop lands is not simulated
    return res;
}
}  // namespace sim

// ================================================================ seams (link-time interposition)
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
    int64_t ns;
    if (sim::active) ns = sim::clock_read();
    else { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); ns = t.tv_sec * 1000000000ll + t.tv_nsec; }
    return time_point(duration_cast<duration>(nanoseconds(ns)));
}
steady_clock::time_point steady_clock::now() noexcept {
    int64_t ns;
    if (sim::active) ns = sim::clock_read();
    else { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); ns = t.tv_sec * 1000000000ll + t.tv_nsec; }
    return time_point(duration_cast<duration>(nanoseconds(ns)));
}
}}}
namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return (result_type)sim::draw(); }
}
extern "C" {
int clock_gettime(clockid_t c, struct timespec* t) noexcept {
    if (!sim::active) return (int)syscall(SYS_clock_gettime, c, t);
    int64_t n = sim::clock_read(); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0;
}
int gettimeofday(struct timeval* t, void*) noexcept {
    struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0;
}
time_t time(time_t* t) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
clock_t clock() noexcept { struct timespec s; clock_gettime(CLOCK_MONOTONIC, &s); return (clock_t)(s.tv_sec * 1000000 + s.tv_nsec / 1000); }
int rand() noexcept { if (!sim::active) return 4; return (int)(sim::draw() & 0x7fffffff); }
void srand(unsigned s) noexcept { if (sim::active) { sim::rnd_state = s; } }
ssize_t read(int fd, void* b, size_t n) { return sim::active ? sim::sim_read(fd, b, n) : syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { return sim::active ? sim::sim_write(fd, b, n) : syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (!sim::active) return syscall(SYS_writev, fd, v, c);
    ssize_t tot = 0;
    for (int i = 0; i < c; ++i) {
        if (!v[i].iov_len) continue;
        ssize_t r = sim::sim_write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return tot ? tot : r;
        tot += r; if ((size_t)r < v[i].iov_len) return tot;
    }
    return tot;
}
typedef FILE* (*fopen_t)(const char*, const char*);
static FILE* fopen_common(fopen_t real, const char* n, const char* m) {
    if (sim::active) {
        int e = 0;
        if (sim::fopen_hook(m, n, e)) { errno = e; return nullptr; }
    }
    FILE* f = real(n, m);
    if (sim::active && f) { int fd = fileno(f); if (fd >= 0 && fd < 1024) sim::fd_class[fd] = m[0] == 'r' ? 1 : 2; }
    return f;
}
FILE* fopen64(const char* n, const char* m) { static fopen_t r = (fopen_t)dlsym(RTLD_NEXT, "fopen64"); return fopen_common(r, n, m); }
FILE* fopen(const char* n, const char* m) { static fopen_t r = (fopen_t)dlsym(RTLD_NEXT, "fopen"); return fopen_common(r, n, m); }

void sim_stub_limit() { if (sim::active) sim::stop_run(6); }

// GLPK: the solver itself is the real library; its outcome can be replaced by any failure it documents.
int __real_glp_simplex(glp_prob*, const glp_smcp*);
int __real_glp_exact(glp_prob*, const glp_smcp*);
int __real_glp_intopt(glp_prob*, const glp_iocp*);
struct LpScope { LpScope() { sim::in_lp = true; sim::lp_reads = 0; } ~LpScope() { sim::in_lp = false; } };
static bool lp_decide(int64_t& p) {
    using namespace sim;
    uint32_t idx = (uint32_t)shared->count[K_LP]++;
    if (!idx) shared->lp_first = shared->alloc_calls;
    shared->lp_last = shared->alloc_calls;
    Rng r;
    if (g.replay) { if (!decide_replay(K_LP, idx, p)) return false; record(K_LP, idx, p); return true; }
    if (!seeded(K_LP, idx, g.lp_ppm, r)) return false;
    static const int es[] = {GLP_ETMLIM, GLP_EITLIM, GLP_EFAIL, GLP_ESING, GLP_ECOND, GLP_ETMLIM};
    p = es[r.below(6)]; if (r.chance(1, 2)) p |= 0x100;
    record(K_LP, idx, p); return true;
}
int __wrap_glp_simplex(glp_prob* P, const glp_smcp* s) {
    int64_t p;
    if (!sim::active || sim::in_lp) return __real_glp_simplex(P, s);      // (branch and bound calls simplex for its nodes)
    if (!lp_decide(p)) { LpScope l; return __real_glp_simplex(P, s); }
    if (p & 0x100) { if (p == (0x100 | GLP_ETMLIM) || p == (0x100 | GLP_EITLIM)) { glp_smcp c = *s; c.it_lim = 1; c.presolve = GLP_OFF; __real_glp_simplex(P, &c); } }
    return (int)(p & 0xff);
}
int __wrap_glp_intopt(glp_prob* P, const glp_iocp* s) {
    int64_t p;
    if (!sim::active || sim::in_lp) return __real_glp_intopt(P, s);
    if (!lp_decide(p)) { LpScope l; return __real_glp_intopt(P, s); }
    return (int)(p & 0xff);
}
}
