// C11: duplication and concatenation.
#include "rc.hpp"
namespace vp {
const char* const PROPERTY = "C11";
const char* const RULE = "a case duplicates and concatenates 0-20 generated strings (empty, long, repeated and shared ones included), with and without injected out-of-memory, through the variadic and va_list forms; non-trivial = at least two non-empty strings, or a failed allocation";
const std::vector<Probe> PROBES;
void setup() {}
static const size_t N = 20;
static status viav(char** out, rc_allocator* a, const char* first, ...) {
    va_list ap; va_start(ap, first);
    status s = rc_vstrcat(out, a, first, ap);
    va_end(ap);
    return s;
}
#define ARGS p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15], p[16], p[17], p[18], p[19], (char*)nullptr
static std::string gen() {
    size_t n = g.chance(1, 30) ? g.size(70000) : g.size(60);
    auto b = g.bulk(n); std::string s;
    for (auto c : b) s += c ? (char)c : 'z';
    return s;
}
void run_case() {
    heap.begin();
    rc_allocator* a = make_alloc();
    size_t n = g.below(g.coin() ? 4 : N + 1);
    std::vector<std::string> v(n); std::vector<char*> mem(n); const char* p[N + 1];
    std::string all; size_t nonempty = 0;
    for (size_t i = 0; i <= N; i++) p[i] = nullptr;
    for (size_t i = 0; i < n; i++) {
        if (i && g.chance(1, 6)) { size_t j = g.below(i); v[i] = v[j]; mem[i] = nullptr; p[i] = p[j]; }
        else {
            v[i] = g.chance(1, 6) ? "" : gen();
            mem[i] = (char*)raw_malloc(v[i].size() + 1); memcpy(mem[i], v[i].c_str(), v[i].size() + 1); p[i] = mem[i];
        }
        all += v[i]; if (!v[i].empty()) nonempty++;
    }
    g.log("%zu strings, %zu bytes", n, all.size());
    bool fail = g.chance(1, 5);
    if (fail) heap.arm_nth(0);
    char* out = nullptr; size_t live = heap.live(); uint64_t allocs = heap.total_allocs();
    bool va = g.coin();
    status s = va ? viav(&out, a, ARGS) : rc_strcatv(&out, a, ARGS);
    bool hit = heap.hits() > 0; heap.disarm();
    if (fail && hit) {
        CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY, "strcat without memory returned %08x", s);
        CHECK(!out && heap.live() == live, "a failed strcat left something behind");
        g.nontrivial();
    } else {
        CHECK(s == STATUS_SUCCESS, "strcat failed with %08x", s);
        CHECK(heap.live() == live + 1 && heap.owns(out), "strcat left %zu new blocks", heap.live() - live);
        CHECK(heap.block_size(out) >= all.size() + 1, "strcat of %zu bytes allocated %zu", all.size(), heap.block_size(out));
        CHECK(strlen(out) == all.size() && all == out, "strcat of %zu strings gives the wrong text", n);
        OK(rc_allocator_reclaim(a, out));
    }
    for (size_t i = 0; i < n; i++) CHECK(v[i] == p[i], "strcat changed argument %zu", i);
    // duplication
    std::string d = n && g.coin() ? v[0] : gen();
    char* in = (char*)raw_malloc(d.size() + 1); memcpy(in, d.c_str(), d.size() + 1);
    fail = g.chance(1, 5); live = heap.live();
    if (fail) heap.arm_nth(0);
    out = (char*)1;
    s = rc_strdup(&out, a, in);
    hit = heap.hits() > 0; heap.disarm();
    if (fail && hit) {
        CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY, "strdup without memory returned %08x", s);
        CHECK(!out && heap.live() == live, "a failed strdup left something behind");
    } else {
        CHECK(s == STATUS_SUCCESS, "strdup failed with %08x", s);
        CHECK(heap.live() == live + 1 && heap.owns(out) && heap.block_size(out) >= d.size() + 1, "strdup of %zu bytes allocated %zu", d.size(), heap.block_size(out));
        CHECK(out != in && strlen(out) == d.size() && d == out, "strdup gives a different text");
        if (!d.empty()) { out[0] ^= 1; CHECK(d == in, "the duplicate shares memory with the input"); }
        OK(rc_allocator_reclaim(a, out));
    }
    CHECK(d == in, "strdup changed its input");
    live = heap.live(); allocs = heap.total_allocs();
    out = (char*)1;
    switch (g.below(4)) {
    case 0: s = rc_strdup(&out, a, nullptr); CHECK(s == ERROR_STRING_INVALID_PARAMETER && !out, "strdup of null returned %08x", s); break;
    case 1: s = rc_strdup(&out, nullptr, in); CHECK(s == ERROR_STRING_INVALID_PARAMETER && !out, "strdup without allocator returned %08x", s); break;
    case 2: s = rc_strdup(nullptr, a, in); CHECK(s == ERROR_STRING_INVALID_PARAMETER, "strdup without output returned %08x", s); break;
    default: break;
    }
    CHECK(heap.total_allocs() == allocs, "a refused strdup allocated");
    raw_free(in);
    for (auto m : mem) if (m) raw_free(m);
    free_alloc(a);
    heap.expect_clean("end");
    heap.end();
    if (nonempty > 1) g.nontrivial();
}
} // namespace vp
