#include "vp.hpp"
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <mutex>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VP_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define VP_ASAN 1
#endif
#ifdef VP_ASAN
#include <sanitizer/asan_interface.h>
extern "C" const char* __asan_default_options() {
    return "detect_stack_use_after_return=0:quarantine_size_mb=8:detect_leaks=0:"
           "allocator_may_return_null=1:exitcode=78:handle_abort=1:abort_on_error=0:"
           "max_malloc_fill_size=1048576:malloc_fill_byte=165:symbolize=0:"
           "detect_stack_use_after_scope=0:print_legend=0:max_allocation_size_mb=2048";
}
#endif
#define VP_TSAN 0
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#undef VP_TSAN
#define VP_TSAN 1
#endif
#endif
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=79:print_stacktrace=0"; }
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=80:report_signal_unsafe=0"; }

namespace vp {

// ------------------------------------------------------------------ shared
static const uint32_t MAXC = 1u << 17;
static const uint32_t MAXLOG = 1u << 16;
struct Shared {
    volatile uint64_t cur_idx;
    volatile uint64_t case_no;      // increments per case started
    volatile int in_case;
    volatile int done;
    volatile uint32_t nchoices;
    volatile uint64_t evaluations;
    volatile uint64_t nontrivial;
    uint32_t loglen;
    char msg[8192];
    uint64_t choices[MAXC];
    char log[MAXLOG];
};
static Shared* sh;      // the current process's slot

static inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
struct Rng {
    uint64_t s;
    uint64_t next() { return splitmix(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

Gen g;
static Rng rng;
static bool replaying;                    // past the prefix: 0 instead of random
static std::vector<uint64_t> prefix;      // choices to use first
static size_t pos;
static std::map<std::string, uint64_t> labels;
static std::set<const char*> case_labels;

uint64_t Gen::below(uint64_t n) {
    uint64_t v;
    if (n <= 1) return 0;
    if (pos < prefix.size()) { v = prefix[pos]; if (v >= n) v %= n; }
    else if (replaying || pos >= MAXC) v = 0;
    else v = rng.below(n);
    if (pos < MAXC) { sh->choices[pos] = v; sh->nchoices = pos + 1; }
    pos++;
    return v;
}
uint64_t Gen::raw64() {
    uint64_t hi = below(1ull << 32), lo = below(1ull << 32);
    return (hi << 32) | lo;
}
size_t Gen::pickv(const std::vector<unsigned>& w) {
    uint64_t total = 0;
    for (unsigned x : w) total += x;
    if (!total) return 0;
    uint64_t v = below(total);
    for (size_t i = 0; i < w.size(); i++) { if (v < w[i]) return i; v -= w[i]; }
    return w.size() - 1;
}
size_t Gen::pick(std::initializer_list<unsigned> weights) { return pickv(std::vector<unsigned>(weights)); }
size_t Gen::size(size_t max) {
    switch (below(4)) {
    case 0: return below(std::min<size_t>(max, 8) + 1);
    case 1: return below(std::min<size_t>(max, 64) + 1);
    case 2: { // around a power of two
        int bits = 1; while (((size_t)1 << bits) <= max && bits < 62) bits++;
        int b = (int)below(bits);
        int64_t v = (int64_t)((size_t)1 << b) + range(-2, 2);
        if (v < 0) v = 0;
        if ((size_t)v > max) v = (int64_t)max;
        return (size_t)v;
    }
    default: { // log-uniform
        int bits = 1; while (((size_t)1 << bits) <= max && bits < 62) bits++;
        size_t lim = (size_t)1 << (1 + below(bits));
        return below(std::min(max + 1, lim));
    }
    }
}
uint64_t Gen::u64() {
    switch (below(5)) {
    case 0: return below(4);
    case 1: { uint64_t b = 1ull << below(64); return b + (uint64_t)range(-1, 1); }
    case 2: return ~below(4);
    case 3: return below(65536);
    default: return raw64();
    }
}
std::vector<uint8_t> Gen::bytes(size_t n) {
    std::vector<uint8_t> v(n);
    for (auto& b : v) b = (uint8_t)below(256);
    return v;
}
std::vector<uint8_t> Gen::bulk(size_t n) {
    Rng r{below(1u << 31)};
    bool zero = (r.s == 0);
    std::vector<uint8_t> v(n);
    for (size_t i = 0; i < n; i++) v[i] = zero ? (uint8_t)('a' + i % 26) : (uint8_t)r.next();
    return v;
}
void Gen::label(const char* name) { case_labels.insert(name); }
void Gen::log(const char* fmt, ...) {
    if (!tracing) return;
    char buf[1024];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    if (sh->loglen + (uint32_t)n + 2 >= MAXLOG) return;
    memcpy(sh->log + sh->loglen, buf, n);
    sh->loglen += n;
    sh->log[sh->loglen++] = '\n';
    sh->log[sh->loglen] = 0;
}
void fail(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
    va_end(ap);
    _exit(77);
}

void fail_at(const char* where, const char* fmt, ...) {
    size_t n = strlen(where);
    if (n > 400) n = 400;
    memcpy(sh->msg, where, n);
    va_list ap; va_start(ap, fmt);
    vsnprintf(sh->msg + n, sizeof sh->msg - n, fmt, ap);
    va_end(ap);
    _exit(77);
}
static std::map<std::string, std::string> params;
double param(const char* name, double dflt) {
    auto it = params.find(name);
    return it == params.end() ? dflt : atof(it->second.c_str());
}
bool param_is(const char* name, const char* value) {
    auto it = params.find(name);
    return it != params.end() && it->second == value;
}

// ------------------------------------------------------------------ heap
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t); void __real_free(void*);
void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t);
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
ssize_t __real_sendmsg(int, const struct msghdr*, int); ssize_t __real_recvmsg(int, struct msghdr*, int);
int __real_accept(int, struct sockaddr*, socklen_t*);
int __real_epoll_wait(int, struct epoll_event*, int, int);
int __real_poll(struct pollfd*, nfds_t, int);
int __real_epoll_create1(int); int __real_epoll_create(int);
}
void* raw_malloc(size_t n) { return __real_malloc(n); }
void raw_free(void* p) { __real_free(p); }

Heap heap;
SysHooks sys;
static bool tracking;
struct Blk { size_t n; uint64_t seq; };
// never destroyed: used by late frees
static std::unordered_map<const void*, Blk>& blocks = *new std::unordered_map<const void*, Blk>;
static std::unordered_map<const void*, Blk>& maps = *new std::unordered_map<const void*, Blk>;
static std::mutex& hm = *new std::mutex;
static size_t bytes_live;
static uint64_t npoints, nhits, nallocs;
static int armed;   // 0 no, 1 nth, 2 from, 3 pair
static uint64_t arm_k, arm_gap;

static bool fault_point() {
    if (!tracking) return false;
    uint64_t i = npoints++;
    bool f = false;
    if (armed == 1) f = i == arm_k;
    else if (armed == 2) f = i >= arm_k;
    else if (armed == 3) f = i == arm_k || i == arm_k + arm_gap;
    if (f) nhits++;
    return f;
}
// Scattered memory: blocks of one size come from four regions 4 GiB apart, so
// that consecutive ones agree in the low half of their addresses; a block given
// back is the next one given out, and a resized block always moves.
namespace {
const int FAR_K = 4; const size_t FAR_STEP = (size_t)1 << 32, FAR_SIZE = (size_t)192 << 20, FAR_MAX = (size_t)4 << 20;
char* far_base; size_t far_at = 64; bool far_none;
struct FarClass { std::vector<char*> bin; size_t off = 0; int k = FAR_K; };
auto& far_classes = *new std::unordered_map<size_t, FarClass>;
bool is_far(const void* p) { return far_base && (const char*)p >= far_base && (const char*)p < far_base + FAR_K * FAR_STEP; }
void far_reset() {
    if (!far_base || far_at == 64) return;
#ifdef VP_ASAN
    for (int i = 0; i < FAR_K; i++) __asan_poison_memory_region(far_base + i * FAR_STEP, far_at);
#endif
    far_classes.clear(); far_at = 64;
}
// null: take ordinary memory
void* far_malloc(size_t n) {
    if (n > FAR_MAX || far_none) return nullptr;
    if (!far_base) {
        void* m = __real_mmap(nullptr, FAR_K * FAR_STEP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) { far_none = true; return nullptr; }
        far_base = (char*)m;
    }
    size_t r = (n + 15) / 16 * 16; FarClass& c = far_classes[r]; char* p;
    if (!c.bin.empty()) { p = c.bin.back(); c.bin.pop_back(); }
    else {
        if (c.k == FAR_K) { if (far_at + r + 32 > FAR_SIZE) return nullptr; c.off = far_at; c.k = 0; far_at += r + 32; }
        p = far_base + c.k++ * FAR_STEP + c.off;
    }
#ifdef VP_ASAN
    __asan_poison_memory_region(p, r + 32); __asan_unpoison_memory_region(p, n);
#endif
    memset(p, 0xa5, n < 65536 ? n : 65536);
    return p;
}
void far_free(void* p, size_t n) {
    size_t r = (n + 15) / 16 * 16; memset(p, 0xdd, n < 65536 ? n : 65536);
#ifdef VP_ASAN
    __asan_poison_memory_region(p, r + 32);
#endif
    far_classes[r].bin.push_back((char*)p);
}
}
void Heap::begin() {
    std::lock_guard<std::mutex> l(hm);
    if (blocks.empty()) far_reset();
    blocks.clear(); maps.clear(); bytes_live = 0; npoints = nhits = nallocs = 0; armed = 0; tracking = true;
}
size_t Heap::live() { std::lock_guard<std::mutex> l(hm); return blocks.size(); }
size_t Heap::live_maps() { std::lock_guard<std::mutex> l(hm); return maps.size(); }
size_t Heap::live_bytes() { std::lock_guard<std::mutex> l(hm); return bytes_live; }
void Heap::expect_clean(const char* where) {
    std::lock_guard<std::mutex> l(hm);
    if (!blocks.empty()) {
        size_t n = blocks.size();
        Blk first{0, ~0ull};
        for (auto& b : blocks) if (b.second.seq < first.seq) first = b.second;
        fail("%s: %zu block(s) leaked; first is allocation #%llu of %zu bytes", where, n, (unsigned long long)first.seq, first.n);
    }
    if (!maps.empty()) fail("%s: %zu memory mapping(s) leaked", where, maps.size());
}
void Heap::end() { std::lock_guard<std::mutex> l(hm); tracking = false; armed = 0; }
bool Heap::owns(const void* p) { std::lock_guard<std::mutex> l(hm); return blocks.count(p); }
size_t Heap::block_size(const void* p) { std::lock_guard<std::mutex> l(hm); auto it = blocks.find(p); return it == blocks.end() ? 0 : it->second.n; }
void Heap::arm_nth(uint64_t k) { armed = 1; arm_k = k; npoints = 0; nhits = 0; }
void Heap::arm_from(uint64_t k) { armed = 2; arm_k = k; npoints = 0; nhits = 0; }
void Heap::arm_pair(uint64_t k, uint64_t gap) { armed = 3; arm_k = k; arm_gap = gap; npoints = 0; nhits = 0; }
void Heap::disarm() { armed = 0; }
uint64_t Heap::points() { return npoints; }
uint64_t Heap::hits() { return nhits; }
uint64_t Heap::total_allocs() { return nallocs; }

ssize_t real_read(int a, void* b, size_t c) { return __real_read(a, b, c); }
ssize_t real_write(int a, const void* b, size_t c) { return __real_write(a, b, c); }
ssize_t real_sendmsg(int a, const void* b, int c) { return __real_sendmsg(a, (const struct msghdr*)b, c); }
ssize_t real_recvmsg(int a, void* b, int c) { return __real_recvmsg(a, (struct msghdr*)b, c); }
int real_accept(int a, void* b, void* c) { return __real_accept(a, (struct sockaddr*)b, (socklen_t*)c); }

static void track(void* p, size_t n) {
    if (!p) return;
    blocks[p] = Blk{n, nallocs++};
    bytes_live += n;
#ifndef VP_ASAN
    memset(p, 0xa5, n < 65536 ? n : 65536);
#endif
    if (bytes_live > (size_t)3 << 30) fail("runaway memory use");
}
static bool untrack(const void* p) {
    auto it = blocks.find(p);
    if (it == blocks.end()) return false;
    bytes_live -= it->second.n;
    blocks.erase(it);
    return true;
}
extern "C" {
void* __wrap_malloc(size_t n) {
    if (!tracking) return __real_malloc(n);
    std::lock_guard<std::mutex> l(hm);
    if (fault_point() || n > heap.limit) { errno = ENOMEM; return nullptr; }
    void* p = heap.far ? far_malloc(n) : nullptr;
    if (!p) p = __real_malloc(n);
    track(p, n);
    return p;
}
void* __wrap_calloc(size_t a, size_t b) {
    if (!tracking) return __real_calloc(a, b);
    std::lock_guard<std::mutex> l(hm);
    if (fault_point() || (b && a > heap.limit / b)) { errno = ENOMEM; return nullptr; }
    void* p = heap.far && (!b || a <= FAR_MAX / b) ? far_malloc(a * b) : nullptr;
    if (p) memset(p, 0, a * b); else p = __real_calloc(a, b);
    if (p) { blocks[p] = Blk{a * b, nallocs++}; bytes_live += a * b; }
    return p;
}
void* __wrap_realloc(void* o, size_t n) {
    if (!tracking) return __real_realloc(o, n);
    std::lock_guard<std::mutex> l(hm);
    if (fault_point() || n > heap.limit) { errno = ENOMEM; return nullptr; }
    if (o && !blocks.count(o)) fail("realloc of a pointer that is not a live block");
    void* p = nullptr;
    if (heap.far || is_far(o)) {
        if (!(p = far_malloc(n))) p = __real_malloc(n);
        if (p && o) { size_t was = blocks[o].n; memcpy(p, o, was < n ? was : n); if (is_far(o)) far_free(o, was); else __real_free(o); }
    } else p = __real_realloc(o, n);
    if (p) { size_t s = 0; if (o) untrack(o); (void)s; blocks[p] = Blk{n, nallocs++}; bytes_live += n; }
    return p;
}
void __wrap_free(void* p) {
    if (!p || (!tracking && !is_far(p))) { __real_free(p); return; }
    std::lock_guard<std::mutex> l(hm);
    auto it = blocks.find(p); size_t n = it == blocks.end() ? 0 : it->second.n;
    if (!untrack(p)) { if (!tracking) return; fail("free of a pointer that is not a live block (double free or foreign pointer)"); }
    if (is_far(p)) far_free(p, n); else __real_free(p);
}
void* __wrap_mmap(void* a, size_t n, int pr, int fl, int fd, off_t off) {
    if (tracking) {
        std::lock_guard<std::mutex> l(hm);
        if (fault_point()) { errno = ENOMEM; return MAP_FAILED; }
    }
    void* p = __real_mmap(a, n, pr, fl, fd, off);
    if (p != MAP_FAILED) {
#ifdef VP_ASAN
        __asan_unpoison_memory_region(p, n);
#endif
        if (tracking) { std::lock_guard<std::mutex> l(hm); maps[p] = Blk{n, 0}; }
    }
    return p;
}
int __wrap_munmap(void* p, size_t n) {
    if (tracking) {
        std::lock_guard<std::mutex> l(hm);
        auto it = maps.find(p);
        if (it == maps.end()) fail("munmap of an address that is not a live mapping");
        size_t pg = 4096, have = (it->second.n + pg - 1) / pg, got = (n + pg - 1) / pg;
        if (have != got) fail("munmap of %zu bytes of a mapping of %zu bytes", n, it->second.n);
        maps.erase(it);
    }
    int r = __real_munmap(p, n);
#ifdef VP_ASAN
    if (!r) __asan_unpoison_memory_region(p, n);
#endif
    return r;
}
ssize_t __wrap_read(int a, void* b, size_t c) { return sys.read ? sys.read(a, b, c) : __real_read(a, b, c); }
ssize_t __wrap_write(int a, const void* b, size_t c) { return sys.write ? sys.write(a, b, c) : __real_write(a, b, c); }
ssize_t __wrap_sendmsg(int a, const struct msghdr* b, int c) { return sys.sendmsg ? sys.sendmsg(a, b, c) : __real_sendmsg(a, b, c); }
ssize_t __wrap_recvmsg(int a, struct msghdr* b, int c) { return sys.recvmsg ? sys.recvmsg(a, b, c) : __real_recvmsg(a, b, c); }
// the socket flavours of read and write, in case the code under test uses them.
ssize_t __real_recv(int, void*, size_t, int); ssize_t __real_send(int, const void*, size_t, int);
ssize_t __wrap_recv(int a, void* b, size_t c, int f) { return sys.read && !(f & MSG_PEEK) ? sys.read(a, b, c) : __real_recv(a, b, c, f); }
ssize_t __wrap_send(int a, const void* b, size_t c, int f) { return sys.write ? sys.write(a, b, c) : __real_send(a, b, c, f); }
int __wrap_accept(int a, struct sockaddr* b, socklen_t* c) { return sys.accept ? sys.accept(a, b, c) : __real_accept(a, b, c); }
int __wrap_epoll_create1(int f) {
    if (tracking) { std::lock_guard<std::mutex> l(hm); if (fault_point()) { errno = EMFILE; return -1; } }
    return __real_epoll_create1(f);
}
int __wrap_epoll_create(int f) {
    if (tracking) { std::lock_guard<std::mutex> l(hm); if (fault_point()) { errno = EMFILE; return -1; } }
    return __real_epoll_create(f);
}
} // extern "C"
// ThreadSanitizer does not see the kernel's writes; repeat them.
template <class T> static void touch(T* p, long n) { for (long i = 0; i < n; i++) { volatile unsigned char* q = (volatile unsigned char*)(p + i); for (size_t k = 0; k < sizeof(T); k++) { unsigned char c = q[k]; q[k] = c; } } }
extern "C" {
int __wrap_epoll_wait(int ep, struct epoll_event* ev, int n, int timeout) {
    if (!sys.idle || timeout == 0) { int r = __real_epoll_wait(ep, ev, n, timeout); if (VP_TSAN) touch(ev, r); return r; }
    for (int round = 0;; round++) {
        if (sys.wait_eintr && sys.wait_eintr()) { errno = EINTR; return -1; }
        bool alive = sys.idle(round);
        int r = __real_epoll_wait(ep, ev, n, 0);
        if (r != 0) return r;
        if (!alive) fail("deadlock: every fiber sleeps, and nothing it waits for can happen any more");
    }
}
int __wrap_poll(struct pollfd* p, nfds_t n, int timeout) {
    if (!sys.idle || timeout == 0) { int r = __real_poll(p, n, timeout); if (VP_TSAN && r > 0) touch(p, (long)n); return r; }
    for (int round = 0;; round++) {
        if (sys.wait_eintr && sys.wait_eintr()) { errno = EINTR; return -1; }
        bool alive = sys.idle(round);
        int r = __real_poll(p, n, 0);
        if (r != 0) return r;
        if (!alive) fail("deadlock: every fiber sleeps, and nothing it waits for can happen any more");
    }
}
// epoll_pwait / ppoll in case the code under test moves to them.
int __real_epoll_pwait(int, struct epoll_event*, int, int, const sigset_t*);
int __wrap_epoll_pwait(int ep, struct epoll_event* ev, int n, int timeout, const sigset_t* s) {
    if (!sys.idle) { int r = __real_epoll_pwait(ep, ev, n, timeout, s); if (VP_TSAN) touch(ev, r); return r; }
    return __wrap_epoll_wait(ep, ev, n, timeout);
}
}

// ------------------------------------------------------------------ coverage
static std::vector<std::pair<uint8_t*, uint8_t*>>& ctrs() { static auto* v = new std::vector<std::pair<uint8_t*, uint8_t*>>; return *v; }
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t* a, uint8_t* b) {
    if (a == b) return;
    for (auto& c : ctrs()) if (c.first == a) return;
    ctrs().push_back({a, b});
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}
static std::vector<uint8_t> seen;
static size_t edges_seen;
static uint8_t bucket(uint8_t c) {
    if (c == 0) return 0; if (c == 1) return 1; if (c == 2) return 2; if (c == 3) return 4;
    if (c < 8) return 8; if (c < 16) return 16; if (c < 32) return 32; if (c < 128) return 64; return 128;
}
static bool cov_collect() {
    bool fresh = false; size_t off = 0;
    for (auto& r : ctrs()) {
        size_t n = r.second - r.first;
        if (seen.size() < off + n) seen.resize(off + n);
        for (size_t i = 0; i < n; i++) {
            uint8_t c = r.first[i];
            if (!c) continue;
            uint8_t b = bucket(c);
            if (!(seen[off + i] & b)) { if (!seen[off + i]) edges_seen++; seen[off + i] |= b; fresh = true; }
            r.first[i] = 0;
        }
        off += n;
    }
    return fresh;
}
static void cov_clear() { for (auto& r : ctrs()) memset(r.first, 0, r.second - r.first); }

// ------------------------------------------------------------------ running
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t opt_seed = 1, opt_cases = 1000, opt_workers = 8;
static double opt_limit = 300, opt_hang = 30;
static unsigned opt_repro = 3, opt_attempts = 3;
static std::string opt_out, opt_tmp;

static uint64_t hash_choices(const uint64_t* c, size_t n) {
    uint64_t h = 1469598103934665603ULL ^ n;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; h ^= h >> 29; }
    return h;
}
static void one_case() {
    pos = 0; sh->nchoices = 0; sh->loglen = 0; sh->log[0] = 0; sh->msg[0] = 0;
    g.nt = false; case_labels.clear();
    sh->case_no = sh->case_no + 1;
    sh->in_case = 1;
    heap.far = g.chance(1, 12);
    if (heap.far) g.log("memory: scattered");
    run_case();
    heap.far = false;
    sh->in_case = 0;
}

struct Result { int kind = 0; /*0 pass 1 fail 2 hang*/ std::string msg, err, log; std::vector<uint64_t> choices; bool nt = false; };

static std::string slurp(const std::string& p, size_t max = 6000) {
    std::string s; FILE* f = fopen(p.c_str(), "r");
    if (!f) return s;
    char b[4096]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < max) s.append(b, n);
    fclose(f);
    if (s.size() > max) s.resize(max);
    return s;
}
static void redirect(const std::string& err) {
    int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    int n = open("/dev/null", O_RDWR);
    if (n >= 0) { dup2(n, 0); dup2(n, 1); if (n > 2) close(n); }
}
static std::string describe(int st, bool hang, const char* msg, const std::string& err) {
    char b[256];
    if (hang) return "the case did not finish (hang)";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return msg;
    if (WIFEXITED(st) && WEXITSTATUS(st) >= 78 && WEXITSTATUS(st) <= 80) {
        size_t p = err.find("ERROR: "); if (p == std::string::npos) p = err.find("runtime error"); if (p == std::string::npos) p = err.find("WARNING: ");
        std::string line = p == std::string::npos ? "sanitizer report" : err.substr(p, err.find('\n', p) - p);
        return "sanitizer: " + line;
    }
    if (WIFSIGNALED(st)) snprintf(b, sizeof b, "process ended by signal %d", WTERMSIG(st));
    else snprintf(b, sizeof b, "process ended with status %d", WEXITSTATUS(st));
    return b;
}
static Shared* new_shared() {
    void* p = __real_mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return p == MAP_FAILED ? nullptr : (Shared*)p;
}
static Shared* rsh;
static void (*one_body)() = nullptr;
static Result run_one(const std::vector<uint64_t>& choices, bool trace, double timeout) {
    if (!rsh) rsh = new_shared();
    rsh->nchoices = 0; rsh->loglen = 0; rsh->log[0] = 0; rsh->msg[0] = 0; rsh->done = 0; rsh->in_case = 0;
    std::string err = opt_tmp + "/one.err";
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        sh = rsh; redirect(err);
        replaying = true; prefix = choices; g.tracing = trace;
        setup();
        if (one_body) { pos = 0; one_body(); } else one_case();
        sh->nontrivial = g.nt;
        sh->done = 1;
        _exit(0);
    }
    double t0 = now(); int st = 0; bool hang = false;
    for (int k = 0;; k++) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() - t0 > timeout) { hang = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
        usleep(k < 50 ? 300 : 3000);
    }
    kill(-pid, SIGKILL);
    Result res;
    res.choices.assign(rsh->choices, rsh->choices + rsh->nchoices);
    res.log = rsh->log;
    if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && rsh->done) { res.kind = 0; res.nt = rsh->nontrivial; return res; }
    res.kind = hang ? 2 : 1;
    res.err = slurp(err);
    res.msg = describe(st, hang, rsh->msg, res.err);
    return res;
}

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}
static std::string jchoices(const std::vector<uint64_t>& c) {
    std::string o = "[";
    for (size_t i = 0; i < c.size(); i++) { if (i) o += ","; o += std::to_string(c[i]); }
    return o + "]";
}

static void worker(uint64_t w, uint64_t start, Shared* slot) {
    sh = slot;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    redirect(opt_tmp + "/w" + std::to_string(w) + ".err");
    setup();
    cov_clear();
    std::vector<std::vector<uint64_t>> corpus;
    std::vector<uint64_t> hashes;
    FILE* hf = fopen((opt_tmp + "/w" + std::to_string(w) + ".hash").c_str(), "ab");
    std::vector<std::pair<bool, std::vector<uint64_t>>> samples;
    uint64_t evals = 0;
    double t0 = now();
    for (uint64_t idx = start; idx < opt_cases; idx += opt_workers) {
        if ((evals & 15) == 15 && now() - t0 > opt_limit) break;
        uint64_t s = opt_seed * 0x2545F4914F6CDD1DULL + idx * 0x9E3779B97F4A7C15ULL + 12345;
        rng.s = s; rng.next(); rng.next();
        prefix.clear();
        if (!corpus.empty() && idx >= opt_workers * 20 && rng.below(100) < 45) {
            prefix = corpus[rng.below(corpus.size())];
            int muts = 1 + (int)rng.below(4);
            for (int m = 0; m < muts && !prefix.empty(); m++) {
                size_t n = prefix.size();
                switch (rng.below(7)) {
                case 0: prefix[rng.below(n)] = rng.below(1u << rng.below(24)); break;
                case 1: { size_t a = rng.below(n), l = 1 + rng.below(std::min<size_t>(n - a, 16)); prefix.erase(prefix.begin() + a, prefix.begin() + a + l); break; }
                case 2: { size_t a = rng.below(n), l = 1 + rng.below(std::min<size_t>(n - a, 32)); std::vector<uint64_t> c(prefix.begin() + a, prefix.begin() + a + l); prefix.insert(prefix.begin() + rng.below(n), c.begin(), c.end()); break; }
                case 3: prefix.resize(rng.below(n) + 1); break;
                case 4: { auto& o = corpus[rng.below(corpus.size())]; size_t a = rng.below(n); prefix.resize(a); size_t b = rng.below(o.size() + 1); prefix.insert(prefix.end(), o.begin() + b, o.end()); break; }
                case 5: { size_t i = rng.below(n); prefix[i] = prefix[i] + 1; break; }
                default: { size_t i = rng.below(n); if (prefix[i]) prefix[i]--; break; }
                }
            }
            if (prefix.size() > MAXC / 2) prefix.resize(MAXC / 2);
        }
        sh->cur_idx = idx;
        one_case();
        evals++;
        sh->evaluations = sh->evaluations + 1;
        bool fresh = cov_collect();
        if (fresh && sh->nchoices > 0 && sh->nchoices < 20000) {
            std::vector<uint64_t> c(sh->choices, sh->choices + sh->nchoices);
            if (corpus.size() < 400) corpus.push_back(c); else corpus[rng.below(400)] = c;
        }
        for (const char* l : case_labels) labels[l]++;
        if (g.nt) {
            sh->nontrivial = sh->nontrivial + 1;
            uint64_t h = hash_choices(sh->choices, sh->nchoices);
            fwrite(&h, 8, 1, hf);
            if (w == 0 && samples.size() < 4 && sh->nchoices < 400 && (evals % 7 == 0 || evals > 200))
                samples.push_back({true, std::vector<uint64_t>(sh->choices, sh->choices + sh->nchoices)});
        }
    }
    fclose(hf);
    FILE* f = fopen((opt_tmp + "/w" + std::to_string(w) + ".stat").c_str(), "w");
    fprintf(f, "edges %zu\n", edges_seen);
    fprintf(f, "corpus %zu\n", corpus.size());
    for (auto& l : labels) fprintf(f, "label %llu %s\n", (unsigned long long)l.second, l.first.c_str());
    for (auto& s : samples) { fprintf(f, "sample"); for (auto c : s.second) fprintf(f, " %llu", (unsigned long long)c); fprintf(f, "\n"); }
    fclose(f);
    sh->done = 1;
    _exit(0);
}

static std::vector<uint64_t> shrink(std::vector<uint64_t> cur, bool hang, double budget, uint64_t& tried) {
    double end = now() + budget, to = hang ? 4 : opt_hang;
    tried = 0;
    auto attempt = [&](const std::vector<uint64_t>& c) {
        if (now() > end) return false;
        tried++;
        Result r = run_one(c, false, to);
        if (r.kind == 0) return false;
        if (hang != (r.kind == 2)) { if (hang) return false; }
        std::vector<uint64_t> nc = r.choices;
        while (!nc.empty() && nc.back() == 0) nc.pop_back();
        if (r.kind == 2) nc = c;
        if (nc.size() > c.size() || (nc.size() == c.size() && nc > c)) nc = c;
        cur = nc;
        return true;
    };
    while (!cur.empty() && cur.back() == 0) cur.pop_back();
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t len = std::max<size_t>(cur.size() / 2, 1); len >= 1 && now() < end; len = len > 1 ? std::max<size_t>(len / 2, 1) : 0) {
            for (size_t i = cur.size(); i-- > 0 && now() < end;) {
                if (i + len > cur.size()) continue;
                std::vector<uint64_t> c = cur;
                c.erase(c.begin() + i, c.begin() + i + len);
                if (c != cur && attempt(c)) { progress = true; if (i > cur.size()) i = cur.size(); }
                else if (len > 1) i = i >= len - 1 ? i - (len - 1) : 0;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < cur.size() && now() < end; i++) {
            if (!cur[i]) continue;
            std::vector<uint64_t> c = cur; c[i] = 0;
            if (attempt(c)) { progress = true; continue; }
            uint64_t lo = 0, hi = i < cur.size() ? cur[i] : 0;
            while (hi - lo > 1 && i < cur.size() && now() < end) {
                uint64_t mid = lo + (hi - lo) / 2;
                c = cur; c[i] = mid;
                if (attempt(c)) { progress = true; if (i >= cur.size()) break; hi = std::min(cur[i], mid); }
                else lo = mid;
            }
        }
    }
    return cur;
}

static void rmtree(const std::string& d) {
    DIR* dir = opendir(d.c_str());
    if (!dir) return;
    while (struct dirent* e = readdir(dir)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        unlink((d + "/" + e->d_name).c_str());
    }
    closedir(dir);
    rmdir(d.c_str());
}

static int real_main(int argc, char** argv) {
    std::string replay, probe;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") opt_seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--cases") opt_cases = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--workers") opt_workers = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--limit") opt_limit = atof(val().c_str());
        else if (a == "--hang") opt_hang = atof(val().c_str());
        else if (a == "--repro") opt_repro = atoi(val().c_str());
        else if (a == "--attempts") opt_attempts = atoi(val().c_str());
        else if (a == "--out") opt_out = val();
        else if (a == "--replay") replay = val();
        else if (a == "--probe") probe = val();
        else if (a == "--param") { std::string p = val(); size_t e = p.find('='); params[p.substr(0, e)] = p.substr(e + 1); }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    signal(SIGPIPE, SIG_IGN);
    char tmpl[] = "/tmp/vp-XXXXXX";
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    opt_tmp = tmpl;
    if (!probe.empty()) {
        for (auto& p : PROBES) if (probe == p.id) {
            one_body = p.fn;
            Result r = run_one({}, true, opt_hang);
            printf("%s %s\n", r.kind ? "SHOWS" : "ABSENT", r.msg.c_str());
            rmtree(opt_tmp);
            return 0;
        }
        printf("UNKNOWN\n"); rmtree(opt_tmp); return 2;
    }
    if (!replay.empty()) {
        std::vector<uint64_t> c; FILE* f = fopen(replay.c_str(), "r");
        if (!f) { perror(replay.c_str()); return 2; }
        unsigned long long v; while (fscanf(f, "%llu", &v) == 1) c.push_back(v);
        fclose(f);
        Result r = run_one(c, true, opt_hang);
        printf("%s\n", r.log.c_str());
        if (r.kind) printf("FAIL: %s\n%s\n", r.msg.c_str(), r.err.c_str()); else printf("PASS\n");
        rmtree(opt_tmp);
        return r.kind ? 1 : 0;
    }
    double t0 = now();
    std::vector<Shared*> slots(opt_workers);
    std::vector<pid_t> pids(opt_workers, 0);
    std::vector<int> restarts(opt_workers, 0);
    std::vector<uint64_t> last_case(opt_workers, 0);
    std::vector<double> last_t(opt_workers, now());
    auto launch = [&](uint64_t w, uint64_t start) {
        fflush(nullptr);
        slots[w]->in_case = 0; slots[w]->done = 0;
        pid_t p = fork();
        if (p == 0) { worker(w, start, slots[w]); _exit(0); }
        pids[w] = p; last_case[w] = slots[w]->case_no; last_t[w] = now();
    };
    for (uint64_t w = 0; w < opt_workers; w++) { slots[w] = new_shared(); if (!slots[w]) return 2; launch(w, w); }
    Result failure; bool failed = false; std::vector<std::string> unreproduced; uint64_t fail_idx = 0; uint64_t tried = 0;
    auto killall_ = [&]() { for (auto& p : pids) if (p > 0) { kill(-p, SIGKILL); kill(p, SIGKILL); int st; waitpid(p, &st, 0); p = 0; } };
    bool alive = true;
    while (alive && !failed) {
        alive = false;
        for (uint64_t w = 0; w < opt_workers && !failed; w++) {
            if (pids[w] <= 0) continue;
            alive = true;
            int st; bool ended = false, hang = false;
            pid_t r = waitpid(pids[w], &st, WNOHANG);
            if (r == pids[w]) { ended = true; kill(-pids[w], SIGKILL); pids[w] = 0; if (slots[w]->done && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue; }
            else { // still running
                if (slots[w]->case_no != last_case[w] || !slots[w]->in_case) { last_case[w] = slots[w]->case_no; last_t[w] = now(); continue; }
                else if (now() - last_t[w] > opt_hang) { hang = true; kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); pids[w] = 0; }
                else continue;
            }
            (void)ended;
            // a worker failed: confirm in fresh processes.
            std::vector<uint64_t> ch(slots[w]->choices, slots[w]->choices + slots[w]->nchoices);
            std::string err = slurp(opt_tmp + "/w" + std::to_string(w) + ".err");
            std::string msg = describe(st, hang, slots[w]->msg, err);
            uint64_t idx = slots[w]->cur_idx;
            unsigned ok = 0; Result last;
            for (unsigned k = 0; k < opt_attempts && ok < opt_repro; k++) { Result x = run_one(ch, false, opt_hang); if (x.kind) { ok++; last = x; } else if (opt_attempts - k - 1 + ok < opt_repro) break; }
            if (ok >= opt_repro) { failed = true; failure = last; failure.choices = ch; fail_idx = idx; }
            else {
                unreproduced.push_back("case " + std::to_string(idx) + ": " + msg + " | " + err.substr(0, 1500));
                if (++restarts[w] <= 3) launch(w, idx + opt_workers);
            }
        }
        usleep(2000);
    }
    killall_();
    std::string trace;
    std::vector<uint64_t> orig;
    if (failed) {
        orig = failure.choices;
        bool hang = failure.kind == 2;
        double budget = param("shrink", 45);
        std::vector<uint64_t> small = opt_attempts > opt_repro ? orig : shrink(orig, hang, budget, tried);
        unsigned ok = 0; Result last;
        for (unsigned k = 0; k < opt_attempts && ok < opt_repro; k++) { Result x = run_one(small, true, opt_hang); if (x.kind) { ok++; last = x; } }
        if (ok >= opt_repro) { failure = last; failure.choices = small; }
        else { Result x = run_one(orig, true, opt_hang); failure.choices = orig; failure.log = x.log; }
        trace = failure.log;
    }
    // merge statistics
    uint64_t evals = 0, nts = 0; std::unordered_set<uint64_t> hs; std::map<std::string, uint64_t> lab; size_t edges = 0, corp = 0;
    std::vector<std::vector<uint64_t>> samp;
    for (uint64_t w = 0; w < opt_workers; w++) {
        evals += slots[w]->evaluations; nts += slots[w]->nontrivial;
        if (FILE* f = fopen((opt_tmp + "/w" + std::to_string(w) + ".hash").c_str(), "rb")) { uint64_t h; while (fread(&h, 8, 1, f) == 1) hs.insert(h); fclose(f); }
        if (FILE* f = fopen((opt_tmp + "/w" + std::to_string(w) + ".stat").c_str(), "r")) {
            char* line = nullptr; size_t cap = 0;
            while (getline(&line, &cap, f) > 0) {
                unsigned long long n; char nm[256];
                if (sscanf(line, "edges %llu", &n) == 1) edges = std::max(edges, (size_t)n);
                else if (sscanf(line, "corpus %llu", &n) == 1) corp += n;
                else if (sscanf(line, "label %llu %255[^\n]", &n, nm) == 2) lab[nm] += n;
                else if (!strncmp(line, "sample", 6)) { std::vector<uint64_t> c; char* p = line + 6; char* e; for (;;) { unsigned long long v = strtoull(p, &e, 10); if (e == p) break; c.push_back(v); p = e; } samp.push_back(c); }
            }
            __real_free(line); fclose(f);
        }
    }
    FILE* o = opt_out.empty() ? stdout : fopen(opt_out.c_str(), "w");
    if (!o) { perror(opt_out.c_str()); return 2; }
    fprintf(o, "{\"property\":%s,\"rule\":%s,\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,\"edges\":%zu,\"corpus\":%zu,\"wall\":%.2f,",
        jstr(PROPERTY).c_str(), jstr(RULE).c_str(), (unsigned long long)evals, (unsigned long long)nts, hs.size(), edges, corp, now() - t0);
    fprintf(o, "\"labels\":{");
    bool first = true; for (auto& l : lab) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(l.first).c_str(), (unsigned long long)l.second); first = false; }
    fprintf(o, "},\"samples\":[");
    first = true;
    for (auto& c : samp) { Result r = run_one(c, true, opt_hang); std::string t = r.log; if (t.size() > 1200) t = t.substr(0, 1200) + "..."; fprintf(o, "%s%s", first ? "" : ",", jstr(t).c_str()); first = false; if (r.kind) break; }
    fprintf(o, "],\"unreproduced\":[");
    first = true; for (auto& u : unreproduced) { fprintf(o, "%s%s", first ? "" : ",", jstr(u).c_str()); first = false; }
    fprintf(o, "],\"failed\":%s", failed ? "true" : "false");
    if (failed) fprintf(o, ",\"fail_idx\":%llu,\"message\":%s,\"stderr\":%s,\"trace\":%s,\"choices\":%s,\"original_choices\":%zu,\"shrink_attempts\":%llu",
        (unsigned long long)fail_idx, jstr(failure.msg).c_str(), jstr(failure.err).c_str(), jstr(trace).c_str(), jchoices(failure.choices).c_str(), orig.size(), (unsigned long long)tried);
    fprintf(o, "}\n");
    if (o != stdout) fclose(o);
    rmtree(opt_tmp);
    return failed ? 1 : 0;
}
} // namespace vp

int main(int argc, char** argv) { return vp::real_main(argc, argv); }
