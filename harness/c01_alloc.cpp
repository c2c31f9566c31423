// C01: allocators hand out usable, disjoint, stable blocks.
#include "rc.hpp"
#include <algorithm>
namespace vp {
const char* const PROPERTY = "C01";
const char* const RULE = "a case is a history of allocate / write / reallocate / reclaim / control calls on a malloc and a bump allocator (region size, placement and request sizes generated, up to the largest size_t, with injected out-of-memory on the malloc side), every live block holding a byte pattern re-checked throughout; non-trivial = at least two blocks live at once and at least one refusal, reset, resize or reclaim";
const std::vector<Probe> PROBES;
void setup() {}
struct B { uint8_t* p; size_t n; uint8_t tag; };
static uint8_t pat(uint8_t tag, size_t i) { return (uint8_t)(tag * 31 + i * 7 + (i >> 8)); }
static void fill(B& b, size_t from = 0) { for (size_t i = from; i < b.n; i++) b.p[i] = pat(b.tag, i); }
static void verify(const std::vector<B>& v, const char* after) {
    for (auto& b : v) for (size_t i = 0; i < b.n; i++)
        CHECK(b.p[i] == pat(b.tag, i), "after %s: byte %zu of a live block of %zu bytes changed", after, i, b.n);
}
static void disjoint(const std::vector<B>& v, const B& nb) {
    for (auto& b : v) {
        if (!b.n || !nb.n) continue;
        CHECK(nb.p + nb.n <= b.p || b.p + b.n <= nb.p, "a new block of %zu bytes overlaps a live one of %zu bytes", nb.n, b.n);
    }
}
static size_t huge() {
    switch (g.below(4)) {
    case 0: return SIZE_MAX - g.below(128);
    case 1: return SIZE_MAX / 2 + 1 + g.below(64);
    case 2: return ((size_t)1 << (40 + g.below(24))) - g.below(64);
    default: return SIZE_MAX - g.below(70000);
    }
}

static void malloc_side() {
    rc_allocator* a = make_alloc();
    std::vector<B> v; uint8_t tag = 0; bool two = false, ev = false; int step = 0;
    while (g.more(25) && step++ < 200) {
        switch (g.pick({8, 5, 4, 2, 1, 2})) {
        case 0: {
            size_t n = 1 + g.size(g.chance(1, 40) ? 300000 : 5000);
            B b{(uint8_t*)1, n, ++tag};
            g.log("allocate %zu", n);
            OK(rc_allocator_allocate(a, (void**)&b.p, n));
            CHECK(b.p && b.p != (uint8_t*)1, "allocate gave no block");
            CHECK((uintptr_t)b.p % (n >= 16 ? 16 : 8) == 0, "a block of %zu bytes at %p is not aligned", n, b.p);
            CHECK(heap.block_size(b.p) >= n, "a block of %zu bytes was asked for, %zu were allocated", n, heap.block_size(b.p));
            disjoint(v, b); fill(b); v.push_back(b); if (v.size() > 1) two = true;
            break; }
        case 1: {
            if (v.empty()) break;
            size_t i = g.below(v.size());
            size_t n = 1 + g.size(5000), old = v[i].n;
            g.log("reallocate #%zu from %zu to %zu", i, old, n);
            B b = v[i];
            OK(rc_allocator_reallocate(a, (void**)&b.p, n));
            b.n = n;
            CHECK(b.p, "reallocate gave no block");
            CHECK(heap.block_size(b.p) >= n, "a block was resized to %zu bytes, but %zu are allocated", n, heap.block_size(b.p));
            for (size_t k = 0; k < std::min(n, old); k++) CHECK(b.p[k] == pat(b.tag, k), "resizing from %zu to %zu changed byte %zu", old, n, k);
            v.erase(v.begin() + i); disjoint(v, b);
            fill(b); v.push_back(b); ev = true;
            break; }
        case 2: {
            if (v.empty()) break;
            size_t i = g.below(v.size());
            g.log("reclaim #%zu", i);
            uint8_t* p = v[i].p; v.erase(v.begin() + i);
            OK(rc_allocator_reclaim(a, p));
            CHECK(!heap.owns(p), "a reclaimed block was not given back");
            ev = true;
            break; }
        case 3: { // out of memory
            bool inject = g.coin();
            size_t n = inject ? 1 + g.size(5000) : huge();
            if (inject) heap.arm_nth(0);
            if (v.empty() || g.coin()) {
                void* p = (void*)&tag;
                g.log("allocate %zu, must fail", n);
                status s = rc_allocator_allocate(a, &p, n);
                heap.disarm();
                CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY, "allocate of %zu with no memory returned %08x", n, s);
                CHECK(p == nullptr, "a failed allocate left a pointer");
            } else {
                size_t i = g.below(v.size());
                void* p = v[i].p;
                g.log("reallocate #%zu to %zu, must fail", i, n);
                status s = rc_allocator_reallocate(a, &p, n);
                heap.disarm();
                CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY, "reallocate to %zu with no memory returned %08x", n, s);
                CHECK(p == v[i].p, "a failed reallocate changed the pointer");
                CHECK(heap.owns(p), "a failed reallocate lost the block");
            }
            ev = true;
            break; }
        case 4: {
            int key = (int)g.below(0x40); char val[8];
            g.log("control %x", key);
            status s = rc_allocator_control(a, key, val, sizeof val);
            CHECK(s == ERROR_GENERAL_CONTROL_KEY_INVALID, "control %x of a malloc allocator returned %08x", key, s);
            break; }
        default:
            if (!v.empty()) { size_t i = g.below(v.size()); v[i].tag = ++tag; fill(v[i]); }
        }
        verify(v, "a step");
    }
    CHECK(heap.live() == v.size() + 1, "%zu blocks are live, %zu were expected", heap.live() - 1, v.size());
    for (auto& b : v) OK(rc_allocator_reclaim(a, b.p));
    free_alloc(a);
    heap.expect_clean("end of malloc allocator");
    if (two && ev) g.nontrivial();
}

static void bump_side() {
    size_t size = g.pick({1, 6}) ? g.size(g.chance(1, 6) ? 70000 : 3000) : g.below(120);
    size_t off = 8 * g.below(3);
    const size_t GUARD = 64;
    // exact-size raw block so that the sanitizer sees any overrun
    uint8_t* raw = (uint8_t*)raw_malloc(off + size + 1);
    uint8_t* region = raw + off;
    memset(raw, 0xC3, off);
    region[size] = 0xC3;
    rc_allocator* a = (rc_allocator*)1;
    g.log("bump allocator on %zu bytes at offset %zu", size, off);
    status s = rc_bump_allocator_create(&a, region, size);
    if (s != STATUS_SUCCESS) {
        CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY, "bump_allocator_create on %zu bytes returned %08x", size, s);
        CHECK(a == nullptr, "a failed bump_allocator_create left a pointer");
        CHECK(size < 256, "a bump allocator could not be created in %zu bytes", size);
        raw_free(raw);
        return;
    }
    CHECK((uint8_t*)a >= region && (uint8_t*)a < region + size, "the bump allocator is not in its region");
    uint8_t* end = region + size;
    std::vector<B> v; uint8_t tag = 0; bool two = false, ev = false; int step = 0;
    std::vector<std::pair<size_t, uint8_t*>> first, now;   // requests and answers since creation / since the last reset
    bool have_first = false; bool following = false; size_t fpos = 0;
    uint8_t* top = nullptr;                                // end of the highest block
    while (g.more(25) && step++ < 150) {
        switch (g.pick({12, 2, 1, 2, 1, 2, 2})) {
        case 0: {
            size_t n;
            if (following && fpos < first.size()) n = first[fpos].first;
            else {
                switch (g.pick({6, 2, 2})) {
                case 0: n = g.size(size / 6 + 1); break;
                case 1: n = g.size(size + 64); break;
                default: { // close to what is left
                    uint8_t* t = top ? top : (uint8_t*)a + 64;
                    t = (uint8_t*)(((uintptr_t)t + 15) & ~(uintptr_t)15);
                    int64_t left = end - t; if (left < 0) left = 0;
                    int64_t x = left + g.range(-18, 3); n = x < 0 ? 0 : (size_t)x; }
                }
            }
            B b{(uint8_t*)1, n, ++tag};
            g.log("allocate %zu", n);
            s = rc_allocator_allocate(a, (void**)&b.p, n);
            if (following && fpos < first.size()) {
                if (first[fpos].second) CHECK(s == STATUS_SUCCESS, "a request of %zu bytes that fitted in a new region does not fit after reset", n);
                fpos++;
            }
            if (s == STATUS_SUCCESS) {
                CHECK(b.p >= region && n <= size && b.p + n <= end, "a block of %zu bytes at %td is not inside the region of %zu", n, b.p - region, size);
                CHECK((uintptr_t)b.p % 16 == 0 || n < 16 && (uintptr_t)b.p % 8 == 0, "a block of %zu bytes at %p is not aligned", n, b.p);
                CHECK(n == 0 || b.p >= (uint8_t*)a + sizeof(void*), "a block overlaps the allocator itself");
                disjoint(v, b); fill(b); v.push_back(b); if (v.size() > 1) two = true;
                if (!top || b.p + n > top) top = b.p + n;
            } else {
                CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY, "a refused request of %zu bytes returned %08x", n, s);
                CHECK(b.p == nullptr, "a refused request left a pointer");
                ev = true;
                {
                    uint8_t* t = (uint8_t*)(((uintptr_t)(top ? top : (uint8_t*)a + 200) + 15) & ~(uintptr_t)15); // nothing given out: the region behind the allocator is free
                    CHECK(!(t + 16 < end && n < (size_t)(end - t) - 16), "a request of %zu bytes was refused with %td bytes left", n, end - t);
                }
            }
            if (!have_first) first.push_back({n, s == STATUS_SUCCESS ? b.p : nullptr});
            break; }
        case 1: {
            size_t n = huge();
            void* p = (void*)&tag;
            g.log("allocate %zu, must fail", n);
            s = rc_allocator_allocate(a, &p, n);
            CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY, "a request of %zu bytes in a region of %zu returned %08x", n, size, s);
            CHECK(p == nullptr, "a refused request left a pointer");
            ev = true;
            break; }
        case 2: {
            g.log("reset");
            char dummy;
            OK(rc_allocator_control(a, RCPR_ALLOCATOR_CONTROL_BUMP_ALLOCATOR_RESET, g.coin() ? &dummy : nullptr, 0));
            v.clear(); top = nullptr; have_first = true; fpos = 0; following = g.chance(3, 4); ev = true;
            break; }
        case 3: {
            if (v.empty()) break;
            size_t i = g.below(v.size());
            g.log("reclaim #%zu", i);
            // the block stays out of use: only a reset may give it back
            OK(rc_allocator_reclaim(a, v[i].p));
            break; }
        case 4: {
            if (v.empty()) break;
            size_t i = g.below(v.size()); void* p = v[i].p; size_t n = 1 + g.size(size + 8);
            g.log("reallocate #%zu to %zu", i, n);
            s = rc_allocator_reallocate(a, &p, n);
            if (s == STATUS_SUCCESS) { // not done today; if it is, it must be right
                CHECK((uint8_t*)p >= region && (uint8_t*)p + n <= end, "a resized block leaves the region");
                B b{(uint8_t*)p, n, v[i].tag};
                for (size_t k = 0; k < std::min(n, v[i].n); k++) CHECK(b.p[k] == pat(b.tag, k), "resizing changed byte %zu", k);
                v.erase(v.begin() + i); disjoint(v, b); fill(b); v.push_back(b);
                if (!top || b.p + n > top) top = b.p + n;
            } else CHECK(p == v[i].p, "a refused resize changed the pointer");
            ev = true;
            break; }
        case 5: {
            int key = (int)g.below(0x60); if (key == RCPR_ALLOCATOR_CONTROL_BUMP_ALLOCATOR_RESET) key++;
            char val[8] = {0};
            g.log("control %x", key);
            s = rc_allocator_control(a, key, val, sizeof val);
            CHECK(s == ERROR_GENERAL_CONTROL_KEY_INVALID, "control %x of a bump allocator returned %08x", key, s);
            break; }
        default:
            if (!v.empty()) { size_t i = g.below(v.size()); v[i].tag = ++tag; fill(v[i]); }
        }
        verify(v, "a step");
        for (size_t i = 0; i < off; i++) CHECK(raw[i] == 0xC3, "memory before the region was written");
        CHECK(region[size] == 0xC3, "memory behind the region was written");
    }
    std::vector<B> keep = v;
    OK(rc_resource_release(rc_allocator_resource_handle(a)));
    verify(keep, "release");
    CHECK(region[size] == 0xC3, "memory behind the region was written");
    raw_free(raw);
    CHECK(heap.total_allocs() == 0, "a bump allocator used other memory than its region");
    if (two && ev) g.nontrivial();
    (void)GUARD;
}
void run_case() {
    items().clear();
    heap.begin();
    if (g.coin()) { g.label("bump"); bump_side(); } else { g.label("malloc"); malloc_side(); }
    heap.expect_clean("end");
    heap.end();
}
} // namespace vp
