// Simulated environment of one verifypn process: every source of nondeterminism the program can
// observe is served from here and is decided by one seed (or by a replayed decision list).
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace sim {

struct Rng {                     // splitmix64 / xorshift based, self-contained
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
    bool chance(int num, int den) { return (int)below(den) < num; }
    bool pct(int p) { return (int)below(100) < p; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull)); r.next(); return r.next(); }
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}

// Kinds of environment decisions. Every one is recorded and can be replayed / removed one by one.
enum Kind : uint8_t {
    K_CLOCK = 0,      // param: extra nanoseconds (may be negative) added at this clock reading
    K_LP,             // param: GLPK return code forced at this simplex/intopt call (0x100 bit: after solving)
    K_ALLOC,          // param: 1 fail this allocation, 2 fail this and all later ones
    K_OPEN,           // param: errno for this open
    K_READ,           // param: >0 short read of that many bytes, <0 -errno
    K_WRITE,          // param: >0 short write, <0 -errno, 
    K_CRASH,          // param: bytes of this write that become durable before the process dies
    K_SCHED,          // param: thread chosen at this yield point
    K_CHUNK,          // param: bytes delivered by this read of stdin
    K_NKINDS
};
extern const char* const kind_name[K_NKINDS];

struct Decision { uint8_t kind; uint32_t idx; int64_t param; };

// Configuration of the environment of one process (part of a case, serialised in replay files).
struct EnvCfg {
    uint64_t seed = 1;            // drives everything below in search mode
    bool replay = false;          // true: only `decisions` happen
    std::vector<Decision> decisions;
    // swarm parameters (search mode); probabilities are per million events
    int64_t clock_start = 1700000000;   // seconds since epoch
    int64_t clock_step = 1000;          // ns per reading
    uint32_t clock_jump_ppm = 0; int64_t clock_jump_max = 0; bool clock_back = false;
    uint32_t lp_ppm = 0;
    uint32_t alloc_fail_at = 0; bool alloc_persist = false, alloc_new = false;  // 0: none; alloc_new: the next operator new from there on
    uint32_t open_ppm = 0, read_short_ppm = 0, read_err_ppm = 0;
    uint32_t write_short_ppm = 0, write_err_ppm = 0; uint32_t crash_at_write = 0;
    uint32_t sched_ppm = 0;             // preemption probability per yield point
    // fixed parameters (kept in replay)
    uint64_t rand_seed = 1;             // stream behind rand()/random_device
    uint64_t layout_seed = 0;           // heap layout / garbage contents; 0 = plain
    uint64_t max_rand = 0;              // stop ("user interrupt") after this many random draws; 0 = unlimited
    uint64_t max_alloc = 30000000;      // deterministic step budget
    std::string serialise() const;
    bool parse_line(const std::string& line);
};

// What one simulated process did. Lives in shared memory between harness and child.
struct Shared {
    uint32_t n_decisions;
    Decision decisions[1 << 16];
    uint64_t count[K_NKINDS];      // seam events seen
    uint64_t fired[K_NKINDS];      // faults that took effect
    uint64_t rand_calls, alloc_calls, lp_first, lp_last;
    int64_t clock_ns_advanced;
    uint64_t evhash;
    uint32_t stopped;              // 1: step budget, 2: max_rand, 3: arena exhausted, 4: simulated crash, 5: deadlock, 6: the stand-in automaton translator gave up
    uint32_t preemptions;
    uint64_t yields;
    uint32_t n_exchanges; uint64_t visible_at[512];   // stdin deliveries and stdout bytes visible to the client at each
};
extern Shared* shared;

struct ProcResult {
    int exit_code = -1;      // valid when !signalled
    int sig = 0;
    bool timeout = false;    // wall-clock backstop hit
    uint32_t stopped = 0;
    std::string out, err;
    uint64_t count[K_NKINDS] = {}, fired[K_NKINDS] = {};
    uint64_t rand_calls = 0, alloc_calls = 0, lp_first = 0, lp_last = 0, evhash = 0, yields = 0; uint32_t preemptions = 0;
    int64_t clock_ns = 0;
    std::vector<uint64_t> visible_at;
    std::vector<Decision> decisions;
    bool clean() const { return sig == 0 && !timeout && stopped == 0; }
    bool any_fault_fired() const { for (int k = 0; k < K_NKINDS; ++k) if (fired[k]) return true; return false; }
};

// Interactive client: text fed to stdin; the simulated reader delivers it in chunks.
struct Stdin { bool enabled = false; std::vector<std::string> messages; };

// Runs `verifypn argv...` in directory dir under the simulated environment.
ProcResult run_process(const std::vector<std::string>& argv, const std::string& dir, const EnvCfg& cfg,
                       const Stdin* in = nullptr, int cpu_limit_s = 20);

// called in child
void env_start(const EnvCfg& cfg);
bool decide_replay(Kind k, uint32_t idx, int64_t& param);
void record(Kind k, uint32_t idx, int64_t param);
void ev(uint64_t x);
[[noreturn]] void stop_run(uint32_t why);
extern bool active;               // true inside the simulated process

// allocator hooks
void alloc_init_sim(uint64_t layout_seed);
}
