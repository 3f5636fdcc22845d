// Heap of the simulated process.
//
// Inside a session every allocation comes from an arena at a fixed address, laid out by the order of the calls
// alone, so that a use-after-free, an overflow or an address-dependent order behaves the same in every execution
// of a plan. Two policies, chosen by the plan: freed blocks are poisoned and never handed out again, or they are
// poisoned and reused last-in-first-out per size class (address reuse, as real allocators do).
// Outside sessions the C library's allocator is used.
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

#include "alloc.h"
#include "sim.h"

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace {
constexpr uintptr_t BASE = 0x610000000000ull;
constexpr size_t SIZE = 768ull << 20;
constexpr uint32_t LIVE = 0xA110C8ED, FREED = 0xF4EEDB10;
constexpr uint64_t CANARY = 0xC0DEC0DE5AFEB10Cull;
struct alignas(16) Hdr {
    uint64_t size; // requested
    uint32_t state;
    uint32_t pad; // distance from the start of the slot to the header (aligned allocations)
    Hdr* next;
    uint64_t slot; // bytes of the slot after the header
};
bool g_on = false;
bool g_reuse = false;
uintptr_t g_top = BASE;
constexpr int CLASSES = 64;
Hdr* g_free[CLASSES];
uint64_t g_n = 0, g_live = 0;

inline bool ours(const void* p) { return (uintptr_t) p >= BASE && (uintptr_t) p < BASE + SIZE; }

[[noreturn]] void broken(const char* what) {
    g_on = false;
    char b[160];
    int n = snprintf(b, sizeof b, "simulated heap: %s\n", what);
    (void) !write(2, b, (size_t) n);
    abort();
}
inline void set_canary(Hdr* h) {
    uint8_t* e = (uint8_t*) (h + 1) + h->size;
    uint64_t c = CANARY;
    memcpy(e, &c, 8);
}
inline bool canary_ok(Hdr* h) {
    uint8_t* e = (uint8_t*) (h + 1) + h->size;
    uint64_t c = CANARY;
    return memcmp(e, &c, 8) == 0;
}
inline int cls_of(size_t slot) { return slot <= 1024 ? (int) ((slot + 15) / 16) - 1 : -1; }

void* get(size_t n, size_t align) {
    if (n > SIZE) return nullptr;
    size_t slot = ((n + 8) + 15) & ~(size_t) 15;
    if (align <= 16 && g_reuse) {
        int c = cls_of(slot);
        if (c >= 0 && c < CLASSES && g_free[c]) {
            Hdr* h = g_free[c];
            g_free[c] = h->next;
            h->size = n;
            h->state = LIVE;
            memset((void*) (h + 1), 0x5A, n);
            set_canary(h);
            g_n++;
            return h + 1;
        }
    }
    uintptr_t at = (g_top + sizeof(Hdr) + align - 1) & ~(align - 1);
    if (at + slot > BASE + SIZE) {
        errno = ENOMEM;
        return nullptr; // like an exhausted machine
    }
    Hdr* h = (Hdr*) at - 1;
    g_top = at + slot;
    h->size = n;
    h->slot = slot;
    h->state = LIVE;
    h->next = nullptr;
    if (n <= 4096) memset((void*) (h + 1), 0x5A, n);
    else memset((void*) (h + 1), 0x5A, 256);
    set_canary(h);
    g_n++;
    return h + 1;
}
void put(void* p) {
    Hdr* h = (Hdr*) p - 1;
    if (h->state == FREED) broken("block freed twice");
    if (h->state != LIVE) broken("free of a pointer that is not an allocation");
    if (!canary_ok(h)) broken("write past the end of a block");
    h->state = FREED;
    size_t n = h->size;
    memset(p, 0xDD, n <= 65536 ? n : 65536);
    if (g_reuse) {
        int c = cls_of(h->slot);
        if (c >= 0 && c < CLASSES && ((uintptr_t) p & 15) == 0) {
            h->next = g_free[c];
            g_free[c] = h;
        }
    } else if (n >= (1u << 20)) { // give large blocks back to the machine; the addresses stay reserved
        uintptr_t a = ((uintptr_t) p + 65536 + 4095) & ~4095ull, e = ((uintptr_t) p + n) & ~4095ull;
        if (e > a) sim::raw(SYS_madvise, (long) a, (long) (e - a), MADV_DONTNEED);
    }
}
} // namespace

namespace sim {
void heap_reserve() {
    void* m = mmap((void*) BASE, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m != (void*) BASE) {
        fprintf(stderr, "cannot reserve the simulated heap\n");
        _exit(2);
    }
}
void heap_begin(bool reuse) {
    g_reuse = reuse;
    g_on = true;
}
void heap_end() { g_on = false; }
uint64_t heap_allocs() { return g_n; }
} // namespace sim

extern "C" {
void* malloc(size_t n) {
    if (!g_on) return __libc_malloc(n);
    return get(n, 16);
}
void free(void* p) {
    if (!p) return;
    if (!ours(p)) {
        if (!g_on) __libc_free(p);
        return; // blocks from before the session: leave them alone
    }
    put(p);
}
void* calloc(size_t a, size_t b) {
    if (!g_on) return __libc_calloc(a, b);
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    void* p = get(n, 16);
    if (p) memset(p, 0, n);
    return p;
}
void* realloc(void* p, size_t n) {
    if (p && !ours(p)) {
        if (!g_on) return __libc_realloc(p, n);
        void* q = get(n, 16);
        if (q) { // the old size is not known to us: ask the C library
            size_t o = ((size_t*) p)[-1] & ~(size_t) 15; // glibc chunk size; see malloc/malloc.c
            o = o >= 8 ? o - 8 : 0;
            memcpy(q, p, o < n ? o : n);
        }
        return q;
    }
    if (!p) return malloc(n);
    Hdr* h = (Hdr*) p - 1;
    if (h->state == FREED) broken("realloc of a freed block");
    if (h->state != LIVE) broken("realloc of a pointer that is not an allocation");
    void* q = get(n, 16);
    if (!q) return nullptr;
    memcpy(q, p, h->size < n ? h->size : n);
    put(p);
    return q;
}
void* memalign(size_t al, size_t n) {
    if (!g_on) return __libc_memalign(al, n);
    return get(n, al < 16 ? 16 : al);
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) {
    void* p = memalign(al, n);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
}
