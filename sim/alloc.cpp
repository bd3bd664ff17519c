// Replacement malloc family. Harness phase: plain size-class allocator. Simulated phase: a second
// fixed-address arena whose layout, fill patterns and failures are decided by the environment.
#include "env.h"
#include <cerrno>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>
#include <atomic>

namespace sim { bool alloc_should_fail(size_t); void yield_point(); extern bool active; bool in_new = false; }
#include <new>
namespace {
constexpr uintptr_t A_BASE = 0x100000000000ull, B_BASE = 0x200000000000ull;
constexpr size_t A_SIZE = 8ull << 30, B_SIZE = 3ull << 30;
constexpr size_t HDR = 16;
struct Hdr { uint64_t size; uint32_t cls; uint32_t magic; };
struct Node { Node* next; };
constexpr int NCLS = 64 + 40;      // 16..1024 step 16, then powers of two (x1, x1.5)
struct Arena {
    uintptr_t base = 0, cur = 0, end = 0;
    Node* head[NCLS] = {}; Node* tail[NCLS] = {};
    bool sim = false;
};
Arena A, B;
Arena* curA = nullptr;
std::atomic_flag lk = ATOMIC_FLAG_INIT;
struct G { G() { while (lk.test_and_set(std::memory_order_acquire)) {} } ~G() { lk.clear(std::memory_order_release); } };
uint64_t lay_s = 0; bool lay_on = false, fifo = false; uint32_t skip_mask = 0; uint8_t fill_new = 0, fill_free = 0;
uint64_t lay_next() { uint64_t z = (lay_s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

void arena_map(Arena& a, uintptr_t base, size_t size) {
    void* p = mmap((void*)base, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)base) { const char m[] = "sim: arena map failed\n"; (void)!write(2, m, sizeof m - 1); _exit(99); }
    a.base = a.cur = base; a.end = base + size;
    memset(a.head, 0, sizeof a.head); memset(a.tail, 0, sizeof a.tail);
}
int cls_of(size_t n, size_t& rounded) {
    if (n == 0) n = 1;
    if (n <= 1024) { int c = (int)((n + 15) / 16) - 1; rounded = (size_t)(c + 1) * 16; return c; }
    size_t p = 1024; int c = 64;
    while (true) {
        if (n <= p + p / 2) { rounded = p + p / 2; return c; }
        ++c; p *= 2;
        if (n <= p) { rounded = p; return c; }
        ++c;
        if (c >= NCLS - 1) return -1;
    }
}
void* do_alloc(size_t n) {
    if (n > (2ull << 30)) return nullptr;
    Arena& a = *curA;
    size_t r; int c = cls_of(n, r);
    if (c < 0) return nullptr;
    void* res;
    if (a.head[c] && !(a.sim && lay_on && (lay_next() & 15) == 0)) {
        Node* x = a.head[c]; a.head[c] = x->next; if (!a.head[c]) a.tail[c] = nullptr;
        res = x;
    } else {
        if (a.sim && lay_on && skip_mask && (lay_next() & skip_mask) == 0) a.cur += 16 * (1 + (lay_next() & 15));
        if (r >= (1u << 20)) {                                  // large blocks: huge pages, to make simulated runs cheap
            constexpr uintptr_t HP = 2u << 20;
            a.cur = (a.cur + HP - 1) / HP * HP;
            if (a.cur + HDR + r > a.end) return nullptr;
            madvise((void*)a.cur, (HDR + r) / HP * HP, MADV_HUGEPAGE);
        }
        if (a.cur + HDR + r > a.end) return nullptr;
        Hdr* h = (Hdr*)a.cur; a.cur += HDR + r;
        h->cls = (uint32_t)c; h->magic = 0x51AB51AB; h->size = r;
        res = h + 1;
    }
    ((Hdr*)res - 1)->magic = 0x51AB51AB;
    if (a.sim && lay_on) memset(res, fill_new, r <= 65536 ? r : 65536);
    return res;
}
inline void ensure() { if (!curA) { arena_map(A, A_BASE, A_SIZE); curA = &A; } }
void do_free(void* p) {
    uintptr_t u = (uintptr_t)p;
    Arena* a;
    if (u >= A_BASE && u < A_BASE + A_SIZE) { a = &A; if (curA == &B) return; }
    else if (u >= B_BASE && u < B_BASE + B_SIZE) a = &B;
    else return;
    Hdr* h = (Hdr*)p - 1;
    if (h->cls == 0xFFFF) { do_free((void*)h->size); return; }       // aligned block: size holds original pointer
    if (h->magic != 0x51AB51AB) {
        static const char m[] = "sim: heap corruption: bad or double free\n"; (void)!write(2, m, sizeof m - 1);
        if (a->sim) { __builtin_trap(); }
        _exit(98);
    }
    h->magic = 0xF4EEF4EE;
    if (a->sim && lay_on) memset(p, fill_free, h->size <= 65536 ? h->size : 65536);
    Node* x = (Node*)p; int c = (int)h->cls;
    if (a->sim && fifo) { x->next = nullptr; if (a->tail[c]) a->tail[c]->next = x; else a->head[c] = x; a->tail[c] = x; }
    else { x->next = a->head[c]; a->head[c] = x; if (!a->tail[c]) a->tail[c] = x; }
}
size_t usable(void* p) { Hdr* h = (Hdr*)p - 1; if (h->cls == 0xFFFF) { void* o = (void*)h->size; return ((Hdr*)o - 1)->size - ((uintptr_t)p - (uintptr_t)o); } return h->size; }
}
namespace sim {
void alloc_init_sim(uint64_t seed) {
    G g; ensure();
    arena_map(B, B_BASE, B_SIZE);
    B.sim = true; lay_s = seed; lay_on = seed != 0;
    if (lay_on) {
        B.cur += 16 * (lay_next() % 4096);
        fifo = lay_next() & 1; skip_mask = (lay_next() & 1) ? 7 : 0;
        static const uint8_t pats[] = {0x00, 0xFF, 0xA5, 0x01, 0x7F, 0x80, 0xCD, 0x5A};
        fill_new = pats[lay_next() & 7]; fill_free = pats[lay_next() & 7];
    }
    curA = &B;
}
}
extern "C" {
void* malloc(size_t n) {
    if (sim::active) sim::yield_point();
    if (sim::active && sim::alloc_should_fail(n)) { errno = ENOMEM; return nullptr; }
    G g; ensure(); void* p = do_alloc(n); if (!p) errno = ENOMEM; return p;
}
void free(void* p) { if (!p) return; G g; do_free(p); }
void* calloc(size_t a, size_t b) {
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void* p = malloc(n); if (p) memset(p, 0, n); return p;
}
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (n == 0) { free(p); return nullptr; }
    size_t u = usable(p);
    if (n <= u && n * 2 >= u) return p;
    void* q = malloc(n); if (!q) return nullptr;
    memcpy(q, p, u < n ? u : n); free(p); return q;
}
static void* aligned(size_t al, size_t n) {
    if (al <= 16) return malloc(n);
    void* o = malloc(n + al + HDR); if (!o) return nullptr;
    uintptr_t u = ((uintptr_t)o + HDR + al - 1) / al * al;
    Hdr* h = (Hdr*)u - 1; h->size = (uint64_t)o; h->cls = 0xFFFF; h->magic = 0x51AB51AB;
    return (void*)u;
}
void* memalign(size_t al, size_t n) { return aligned(al, n); }
void* aligned_alloc(size_t al, size_t n) { return aligned(al, n); }
int posix_memalign(void** r, size_t al, size_t n) { void* p = aligned(al, n); if (!p) return ENOMEM; *r = p; return 0; }
void* valloc(size_t n) { return aligned(4096, n); }
void* pvalloc(size_t n) { return aligned(4096, (n + 4095) & ~4095ull); }
size_t malloc_usable_size(void* p) { return p ? usable(p) : 0; }
}

void* operator new(size_t n) { sim::in_new = true; void* p = malloc(n ? n : 1); sim::in_new = false; if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
