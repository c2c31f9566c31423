// Property-based testing runtime: choice-sequence generators with integrated
// shrinking, forked workers, coverage feedback, allocation tracking and fault
// injection.  Everything random in a case comes from vp::g, so a case is a pure
// function of its choice sequence, and a replay file is that sequence.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <initializer_list>

namespace vp {

struct Gen {
    bool tracing = false;
    // uniform integer in [0, n); 0 is always the "simplest" choice.
    uint64_t below(uint64_t n);
    // inclusive range.
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    // true with probability num/den; the simplest choice is false.
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
    bool coin() { return below(2) == 1; }
    // loop control: continue with probability avg/(avg+1).
    bool more(unsigned avg) { return below(avg + 1) != 0; }
    // index drawn with the given weights; index 0 is the simplest.
    size_t pick(std::initializer_list<unsigned> weights);
    size_t pickv(const std::vector<unsigned>& weights);
    // size biased to small values and to values around powers of two, in [0, max].
    size_t size(size_t max);
    // full-range 64 bit value with special values favoured.
    uint64_t u64();
    uint64_t raw64();
    std::vector<uint8_t> bytes(size_t n);
    // expand one choice into n pseudo random bytes (cheap bulk data).
    std::vector<uint8_t> bulk(size_t n);
    void nontrivial() { nt = true; }
    void label(const char* name);
    __attribute__((format(printf, 2, 3))) void log(const char* fmt, ...);
    bool nt = false;
};
extern Gen g;

// Reports a violation: records the message and ends the process.
[[noreturn]] __attribute__((format(printf, 1, 2))) void fail(const char* fmt, ...);
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
[[noreturn]] __attribute__((format(printf, 2, 3))) void fail_at(const char* where, const char* fmt, ...);
#define CHECK(cond, ...) do { if (!(cond)) ::vp::fail_at("[" #cond " @" VP_STR(__LINE__) "] ", __VA_ARGS__); } while (0)

// ---- heap tracking / fault injection (wrapped malloc family, mmap, ...) ----
struct Heap {
    // start tracking allocations made through the wrapped functions.
    void begin();
    // number of live tracked blocks.
    size_t live();
    size_t live_maps();
    size_t live_bytes();
    // fail if anything tracked is still live.
    void expect_clean(const char* where);
    // stop tracking.
    void end();
    bool owns(const void* p);
    size_t block_size(const void* p);
    // fault plan.
    void arm_nth(uint64_t k);         // fail exactly the k-th fault point from now (0 based)
    void arm_from(uint64_t k);        // fail every fault point from the k-th on
    void arm_pair(uint64_t k, uint64_t gap); // fail k-th and (k+gap)-th
    void disarm();
    uint64_t points();                // fault points passed since begin()/arm
    uint64_t hits();                  // fault points failed since arm
    uint64_t total_allocs();
    // larger allocations fail as if memory had run out.
    size_t limit = (size_t)1 << 30;
    // blocks are spread over several GiB and given out again at once (chosen per case).
    bool far = false;
};
extern Heap heap;
// malloc family bypassing tracking and faults.
void* raw_malloc(size_t n);
void raw_free(void* p);

// ---- system call hooks (null: call straight through) ----
struct SysHooks {
    ssize_t (*read)(int, void*, size_t) = nullptr;
    ssize_t (*write)(int, const void*, size_t) = nullptr;
    ssize_t (*sendmsg)(int, const void*, int) = nullptr;
    ssize_t (*recvmsg)(int, void*, int) = nullptr;
    int (*accept)(int, void*, void*) = nullptr;
    // called before a blocking readiness wait; the wait itself is then done
    // with timeout 0 and repeated until something is ready.
    // returns false if nothing more can ever happen (deadlock).
    bool (*idle)(int round) = nullptr;
    bool (*wait_eintr)() = nullptr;
};
extern SysHooks sys;
ssize_t real_read(int, void*, size_t);
ssize_t real_write(int, const void*, size_t);
ssize_t real_sendmsg(int, const void*, int);
ssize_t real_recvmsg(int, void*, int);
int real_accept(int, void*, void*);

// ---- provided by each harness ----
extern const char* const PROPERTY;
extern const char* const RULE;
void run_case();
// called once per process before cases run
void setup();
// fixed replays for known findings: return true if the finding still shows.
struct Probe { const char* id; void (*fn)(); };
extern const std::vector<Probe> PROBES;

double param(const char* name, double dflt);
bool param_is(const char* name, const char* value);

} // namespace vp
