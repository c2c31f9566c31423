// C20: memory-backed streams against byte-string models.
#include "streams.hpp"
#include <sys/un.h>
namespace vp {
const char* const PROPERTY = "C20";
const char* const RULE = "a case makes up to four memory-backed streams (input buffers of 0..20000 bytes, output collectors) and runs 1-40 operations on them: reads and writes of generated sizes (favouring sizes around the 4096-byte block, seldom up to 360 KiB or hundreds of writes), looks at the collected output, typed values, and operations that do not apply to the stream; every result is compared with a byte-string model; non-trivial = output crossed a block boundary or was looked at between writes, or an input was consumed in several reads to its end";
const std::vector<Probe> PROBES;
void setup() {}
struct S { rc_psock* s; bool in; std::vector<uint8_t> b; size_t off = 0; const uint8_t* src = nullptr; std::vector<uint8_t> keep; unsigned reads = 0, looks = 0, writes = 0; bool eof = false; };
static size_t sz(size_t max) { if (g.chance(1, 400)) return 60000 + g.below(300000); switch (g.below(4)) { case 0: return g.below(20); case 1: { size_t n = 4096 * (1 + g.below(3)) + (size_t)g.range(-3, 3); return std::min(n, max); } default: return g.size(max); } }
static void look(rc_allocator* a, S& x) {
    void* p = nullptr; size_t n = 0x5a5a;
    status r = rc_psock_from_buffer_get_output_buffer(x.s, a, &p, &n);
    if (x.in) { CHECK(r == (status)ERROR_PSOCK_UNSUPPORTED_TYPE && !p && n == 0x5a5a, "asking an input stream for its output gives %08x", r); return; }
    CHECK(r == STATUS_SUCCESS && p, "the collected output can't be had: %08x", r);
    CHECK(n == x.b.size(), "%zu bytes were collected, not %zu", n, x.b.size());
    CHECK(heap.owns(p) && heap.block_size(p) >= n, "the collected output is not a buffer of its size");
    size_t i = 0; while (i < n && ((uint8_t*)p)[i] == x.b[i]) i++;
    CHECK(i == n, "the collected output differs from byte %zu of %zu on", i, n);
    memset(p, 0xdd, n); // the caller's own copy
    OK(rc_allocator_reclaim(a, p));
    x.looks++;
}
void run_case() {
    heap.begin();
    rc_allocator* a = make_alloc();
    std::vector<S> ss;
    bool nt = false;
    int n = 1 + (int)g.below(4);
    for (int i = 0; i < n; i++) {
        S x; x.in = g.coin(); x.s = nullptr;
        if (x.in) {
            size_t k = sz(20000); x.b = k > 64 ? g.bulk(k) : g.bytes(k);
            uint8_t* src = (uint8_t*)raw_malloc(k ? k : 1); memcpy(src, x.b.data(), k); x.src = src;
            OK(rc_psock_create_from_buffer(&x.s, a, (const char*)src, k));
            CHECK(!memcmp(src, x.b.data(), k), "creating the stream changed its buffer");
            if (g.coin()) { memset(src, 0x77, k); raw_free(src); x.src = nullptr; } // the stream has its own copy
        } else OK(rc_psock_create_from_buffer(&x.s, a, nullptr, g.coin() ? 0 : g.size(10000)));
        CHECK(x.s, "no stream");
        CHECK(rc_psock_socket_type(x.s) == PSOCK_SOCKET_TYPE_OTHER, "a memory stream reports socket type %d", (int)rc_psock_socket_type(x.s));
        ss.push_back(x);
    }
    while (g.more(20)) {
        S& x = ss[g.below(ss.size())];
        size_t left = x.b.size() - x.off;
        switch (g.pick({6, 3, 2, 2})) {
        case 0:
            if (x.in) { // raw read
                size_t ask = 1 + sz(12000), k = ask; uint8_t* p = (uint8_t*)raw_malloc(ask); memset(p, 0xcc, ask);
                status r = rc_psock_read_raw(x.s, p, &k);
                g.log("raw read of %zu, %zu left: %08x %zu", ask, left, r, k);
                if (!left) { CHECK(r == (status)ERROR_PSOCK_READ_EOF, "a read at the end of the input gives %08x", r); x.eof = true; if (x.reads > 1) nt = true; }
                else {
                    CHECK(r == STATUS_SUCCESS && k == std::min(ask, left), "a read of %zu with %zu left gives %08x, %zu bytes", ask, left, r, k);
                    CHECK(!memcmp(p, x.b.data() + x.off, k), "a read at byte %zu gives other bytes", x.off);
                    for (size_t i = k; i < ask; i++) CHECK(p[i] == 0xcc, "a read wrote past the bytes it delivered");
                    x.off += k; x.reads++;
                }
                raw_free(p);
            } else if (g.chance(1, 250)) { // many writes
                size_t each = (size_t[]){4096, 4095, 4097, 40000, 1}[g.below(5)], times = 20 + g.below(100); g.label("many writes");
                Val v; v.kind = DATA; for (size_t t = 0; t < times; t++) { v.d = g.bulk(each); OK(write_val(x.s, v)); encode(x.b, v); x.writes++; }
                g.log("%zu writes of %zu", times, each); nt = true;
            } else { // raw write
                Val v; v.kind = DATA; size_t k = sz(14000); v.d = k > 64 ? g.bulk(k) : g.bytes(k);
                size_t before = x.b.size();
                status r = write_val(x.s, v);
                g.log("raw write of %zu: %08x", k, r);
                CHECK(r == STATUS_SUCCESS, "writing %zu bytes gives %08x", k, r);
                encode(x.b, v); x.writes++;
                if (x.looks || before / 4096 != x.b.size() / 4096) nt = true;
            }
            break;
        case 1: { // a typed value
            Val v = gen_val(9000);
            if (x.in) {
                if (v.boxed) break;
                Val o; status r = read_val(x.s, a, v, o);
                size_t w = v.kind == DATA ? v.d.size() : (size_t)width(v.kind);
                g.log("%s read, %zu left: %08x", describe(v).c_str(), left, r);
                if (w > left) { CHECK(r != STATUS_SUCCESS, "a read past the end of the input succeeded"); x.off = x.b.size();
                    // the rest may or may not have been consumed: find out
                    std::vector<uint8_t> rest(left + 1); size_t k = rest.size();
                    status q = rc_psock_read_raw(x.s, rest.data(), &k);
                    if (q == STATUS_SUCCESS) CHECK(k <= left && !memcmp(rest.data(), x.b.data() + x.b.size() - k, k), "after a failed read the stream delivers bytes that are not the end of its input");
                    else CHECK(q == (status)ERROR_PSOCK_READ_EOF, "after a failed read the stream gives %08x", q);
                } else {
                    CHECK(r == STATUS_SUCCESS, "reading %s with %zu bytes left gives %08x", describe(v).c_str(), left, r);
                    if (v.kind == DATA) CHECK(!memcmp(o.d.data(), x.b.data() + x.off, w), "a read gave other bytes");
                    else { uint64_t u = 0; for (size_t i = 0; i < w; i++) u = u << 8 | x.b[x.off + i]; if (v.kind == BOOLEAN) u = u != 0; CHECK(o.n == u, "a read gave another value"); }
                    x.off += w; if (w) x.reads++;
                }
            } else {
                status r = write_val(x.s, v);
                g.log("%s written: %08x", describe(v).c_str(), r);
                CHECK(r == STATUS_SUCCESS, "writing %s gives %08x", describe(v).c_str(), r);
                encode(x.b, v); x.writes++;
            }
            break;
        }
        case 2: look(a, x); g.log("look at the output"); break;
        default: { // what does not apply
            int d = -2; struct sockaddr_un sa; socklen_t sl = sizeof sa; struct msghdr mh; memset(&mh, 0, sizeof mh); size_t len = 7; int one = 1; status r;
            (void)mh; (void)len;
            switch (g.below(5)) {
            case 0: r = rc_psock_accept(x.s, &d, (struct sockaddr*)&sa, &sl); CHECK(r == (status)ERROR_PSOCK_UNSUPPORTED_TYPE && d == -2 && sl == sizeof sa, "accept gives %08x", r); break;
            case 1: r = rc_psock_setsockopt(x.s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); CHECK(r == (status)ERROR_PSOCK_METHOD_UNDEFINED, "setsockopt gives %08x", r); break;
            case 2: r = rc_psock_write_raw_descriptor(x.s, 0); CHECK(r != STATUS_SUCCESS, "sending a descriptor gives %08x", r); break;
            case 3: r = rc_psock_read_raw_descriptor(x.s, &d); CHECK(r != STATUS_SUCCESS && d == -2, "receiving a descriptor gives %08x", r); break;
            default:
                if (x.in) { Val v; v.kind = DATA; v.d = g.bytes(1 + g.below(30)); r = write_val(x.s, v); CHECK(r == (status)ERROR_PSOCK_UNSUPPORTED_TYPE, "writing to an input stream gives %08x", r); }
                else { uint8_t c[8] = {1, 2, 3, 4, 5, 6, 7, 8}; size_t k = 1 + g.below(8); r = rc_psock_read_raw(x.s, c, &k); CHECK(r == (status)ERROR_PSOCK_READ_EOF, "reading from an output stream gives %08x", r); CHECK(c[0] == 1 && c[7] == 8, "a refused read changed the caller's buffer"); }
            }
            g.log("an operation that does not apply: %08x", r);
        }
        }
    }
    for (auto& x : ss) {
        if (!x.in) look(a, x);
        if (x.src) { CHECK(!memcmp(x.src, x.b.data(), x.b.size()), "the caller's buffer was changed"); }
        release_psock(x.s);
        if (x.src) raw_free((void*)x.src);
    }
    if (nt) g.nontrivial();
    free_alloc(a);
    heap.expect_clean("after the case");
    heap.end();
}
} // namespace vp
