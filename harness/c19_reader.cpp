// C19: the buffered reader over fragmenting sources, against the stream itself.
#include "streams.hpp"
namespace vp {
const char* const PROPERTY = "C19";
const char* const RULE = "a case makes a byte stream (empty lines, lines of 1-60 bytes, lines around the 16 KiB internal buffer size and up to 260 KiB, NUL bytes, with or without a final newline), offers it in generated pieces through a user stream, a descriptor, an input buffer or an asynchronous socket, and reads it with line reads into exactly sized buffers of generated sizes mixed with raw, sized and typed reads through the reader, comparing every result with the stream; non-trivial = at least two lines and one other read were delivered, or a line was delivered in pieces";
const std::vector<Probe> PROBES;

static std::vector<uint8_t> S; static size_t off; static int style; static unsigned dry; static int end_errno; static int rfd = -1; static status end_status;
static size_t part(size_t n) {
    switch (style) { case 0: return n; case 1: return 1; case 2: return 1 + g.below(n); case 3: return std::min<size_t>(n, 1 + g.below(40)); default: return std::min<size_t>(n, 4090 + g.below(20)); }
}
// user stream: non-blocking reads may find nothing yet
static status ur(rc_psock*, void*, void* data, size_t* size, bool block) {
    if (off >= S.size()) { if (++dry > 100000) fail("the reader never notices the end of the stream"); if (end_status == STATUS_SUCCESS) *size = 0; return end_status; }
    if (!*size) return STATUS_SUCCESS;
    size_t n = std::min(*size, S.size() - off);
    if (!block) { if (g.chance(1, 6)) return ERROR_PSOCK_READ_WOULD_BLOCK; n = part(n); }
    else if (n < *size) return ERROR_PSOCK_READ_EOF;
    memcpy(data, S.data() + off, n); off += n; *size = n;
    return STATUS_SUCCESS;
}
static std::vector<uint8_t> sink; static status sink_status;
static status uw(rc_psock*, void*, const void* d, size_t* n) { if (sink_status) return sink_status; sink.insert(sink.end(), (const uint8_t*)d, (const uint8_t*)d + *n); return STATUS_SUCCESS; }
static status urel(rc_psock*, void*) { return STATUS_SUCCESS; }
RCPR_VTABLE rc_psock_vtable src_vtable = { { nullptr }, &ur, &uw, nullptr, nullptr, nullptr, nullptr, &urel };
static ssize_t hr(int fd, void* p, size_t n) {
    if (fd != rfd) return real_read(fd, p, n);
    if (!n) return 0;
    if (style && g.chance(1, 10)) { errno = EINTR; return -1; }
    if (off >= S.size()) { if (++dry > 100000) fail("the reader never notices the end of the stream"); if (end_errno) { errno = end_errno; return -1; } return 0; }
    n = part(std::min(n, S.size() - off));
    memcpy(p, S.data() + off, n); off += n;
    return (ssize_t)n;
}
// asynchronous source: a peer that writes a piece whenever every fiber sleeps
static int peer = -1;
static bool feed(int) {
    if (peer < 0) return false;
    if (off >= S.size()) { close(peer); peer = -1; return true; }
    size_t n = part(std::min<size_t>(S.size() - off, 8192));
    ssize_t k = real_write(peer, S.data() + off, n);
    if (k <= 0) fail("harness: peer write failed");
    off += (size_t)k;
    return true;
}
static int pp[2];
void setup() { if (pipe(pp)) _exit(3); sys.idle = feed; }

void run_case() {
    heap.begin();
    rc_allocator* a = make_alloc();
    S.clear(); off = 0; dry = 0; style = (int)g.below(5); sink.clear(); sink_status = 0;
    int segs = 1 + (int)g.below(12);
    size_t longlines = 0;
    for (int i = 0; i < segs; i++) {
        size_t n;
        switch (g.pick({4, 2, 1})) { case 0: n = g.below(61); break; case 1: n = 0; break; default: n = longlines++ < 2 ? g.chance(1, 60) ? 60000 + g.below(200000) : (g.coin() ? 16384 + (size_t)g.range(-3, 3) : g.below(40000)) : g.below(30); }
        std::vector<uint8_t> l = n > 64 ? g.bulk(n) : g.bytes(n);
        for (auto& c : l) if (c == '\n') c = g.tracing ? 'n' : 'n';
        if (n > 1 && g.chance(1, 10)) l[g.below(n)] = 0;
        S.insert(S.end(), l.begin(), l.end());
        if (i < segs - 1 || g.coin()) S.push_back('\n');
    }
    bool slow = style == 1 || style == 3;
    if (slow && S.size() > 3000) style = 4;
    rc_psock* s = nullptr; rc_fiber_scheduler* sched = nullptr; rc_psock_br* br = nullptr;
    int kind = (int)g.pick({4, 3, 1, 2});
    end_status = (status[]){ERROR_PSOCK_READ_EOF, ERROR_PSOCK_READ_GENERAL, STATUS_SUCCESS}[g.below(3)];
    end_errno = (int[]){0, 0, EIO, ECONNRESET}[g.below(4)];
    switch (kind) {
    case 0: g.label("user"); OK(rc_psock_create_from_user_methods(&s, a, nullptr, &src_vtable)); break;
    case 1: g.label("descriptor"); rfd = dup(pp[0]); sys.read = hr; s = fd_psock(a, rfd); break;
    case 2: g.label("input buffer"); OK(rc_psock_create_from_buffer(&s, a, (const char*)S.data(), S.size())); break;
    default: {
        g.label("async");
        rc_fiber* f = nullptr; int wf, rf;
        OK(rc_fiber_scheduler_create_with_disciplines(&sched, a));
        OK(rc_disciplined_fiber_scheduler_main_fiber_get(&f, sched));
        make_pair(&wf, &rf, false); fcntl(wf, F_SETFL, O_NONBLOCK); peer = wf;
        OK(rc_psock_create_wrap_async(&s, a, f, fd_psock(a, rf)));
    }
    }
    OK(rc_psock_br_create_from_psock(&br, a, s));
    rc_psock* ad = rc_psock_br_psock_adapter(br);
    size_t p = 0; unsigned lines = 0, others = 0, pieces = 0, ended = 0; bool dead = false;
    std::vector<uint8_t> sent;
    for (int step = 0; step < 200 && !dead && ended < 3; step++) {
        size_t left = S.size() - p;
        switch (g.pick({8, 2, 2, 1, 1})) {
        case 0: {
            size_t size;
            switch (g.pick({3, 3, 3, 1})) { case 0: size = 80; break; case 1: size = 2 + g.below(20); break; case 2: {
                size_t d = 0; while (p + d < S.size() && S[p + d] != '\n') d++;
                size = d + g.below(4); break; } default: size = g.chance(1, 8) ? 65530 + g.below(200000) : g.size(40000); }
            size_t d = 0; while (p + d < S.size() && S[p + d] != '\n') d++;
            bool nl = p + d < S.size();
            uint8_t* b = (uint8_t*)raw_malloc(size ? size : 1);
            memset(b, 0xee, size ? size : 1);
            size_t k = size;
            status r = rc_psock_br_read_line(b, &k, br);
            g.log("line into %zu at %zu (next is %zu long%s): %08x size %zu", size, p, d, nl ? "" : ", no newline", r, k);
            if (size <= 1) {
                CHECK(r == (status)ERROR_PSOCK_BR_READ_LINE_BUFFER_SIZE_TOO_SMALL, "a line read into %zu bytes gives %08x", size, r);
                CHECK(k == size, "a refused line read changed the size");
                raw_free(b); break;
            }
            size_t cap = size - 1;
            if (!nl && d == 0) {
                CHECK(r != STATUS_SUCCESS && r != (status)ERROR_PSOCK_BR_READ_LINE_TRUNCATED, "a line read at the end of the stream gives %08x", r);
                CHECK(k == size, "a failed line read changed the size");
                raw_free(b); ended++; break;
            }
            bool full = d > cap, edge = d == cap;
            if (full || (edge && r != STATUS_SUCCESS)) {
                CHECK(r == (status)ERROR_PSOCK_BR_READ_LINE_TRUNCATED, "a line of %zu bytes into %zu gives %08x", d, size, r);
                CHECK(k == cap, "a piece of %zu bytes is said to have %zu", cap, k);
                CHECK(!memcmp(b, S.data() + p, cap), "the piece of a line at byte %zu has other bytes", p);
                CHECK(b[cap] == 0, "the piece of a line is not terminated");
                p += cap; pieces++;
            } else {
                CHECK(r == STATUS_SUCCESS, "a line of %zu bytes into %zu gives %08x", d, size, r);
                CHECK(k == d + 1, "a line of %zu bytes has size %zu", d, k);
                CHECK(!memcmp(b, S.data() + p, d), "the line at byte %zu has other bytes", p);
                CHECK(b[d] == 0, "a line is not terminated");
                p += d + nl; lines++;
            }
            raw_free(b);
            break;
        }
        case 1: { // whatever is there
            size_t ask = g.chance(1, 60) ? 60000 + g.below(200000) : 1 + g.size(20000), k = ask;
            uint8_t* b = (uint8_t*)raw_malloc(ask);
            status r = rc_psock_read_raw(ad, b, &k);
            g.log("raw read of %zu at %zu: %08x %zu", ask, p, r, k);
            if (r == (status)ERROR_PSOCK_READ_WOULD_BLOCK && (kind == 0 || kind == 3) && off < S.size() + (kind == 3)) { raw_free(b); break; }
            if (kind == 3 && r == (status)ERROR_PSOCK_READ_WOULD_BLOCK && peer >= 0) { raw_free(b); break; }
            if (!left) { CHECK(r != STATUS_SUCCESS || k == 0, "a raw read at the end of the stream gives %zu bytes", k); ended++; }
            else {
                CHECK(r == STATUS_SUCCESS && k >= 1 && k <= ask && k <= left, "a raw read of %zu with %zu bytes left gives %08x, %zu bytes", ask, left, r, k);
                CHECK(!memcmp(b, S.data() + p, k), "a raw read at byte %zu has other bytes", p);
                p += k; others++;
            }
            raw_free(b);
            break;
        }
        case 2: {
            Val q, o; q.kind = DATA; q.d.resize(g.coin() ? std::min(left, g.chance(1, 20) ? 200000 : g.size(20000)) : g.below(50));
            status r = read_val(ad, a, q, o);
            g.log("data read of %zu at %zu: %08x", q.d.size(), p, r);
            if (q.d.size() <= left) {
                CHECK(r == STATUS_SUCCESS, "reading %zu bytes of %zu left failed with %08x", q.d.size(), left, r);
                CHECK(!memcmp(o.d.data(), S.data() + p, q.d.size()), "a data read at byte %zu has other bytes", p);
                p += q.d.size(); others++;
            } else { CHECK(r != STATUS_SUCCESS, "reading %zu bytes of %zu left succeeded", q.d.size(), left); dead = true; }
            break;
        }
        case 3: {
            Val q, o; q.kind = (int)g.below(BOOLEAN);
            status r = read_val(ad, a, q, o);
            size_t w = (size_t)width(q.kind);
            if (w <= left) {
                uint64_t v = 0; for (size_t i = 0; i < w; i++) v = v << 8 | S[p + i];
                CHECK(r == STATUS_SUCCESS && o.n == v, "reading %s at byte %zu gives %08x, %llx", q.name(), p, r, (unsigned long long)o.n);
                p += w; others++;
            } else { CHECK(r != STATUS_SUCCESS, "reading a %s past the end succeeded", q.name()); dead = true; }
            break;
        }
        default: // writes pass the reader by
            if (kind != 0) break;
            { Val v = gen_val(40); sink_status = g.chance(1, 6) ? (status)ERROR_PSOCK_WRITE_GENERAL : 0;
              status r = write_val(ad, v);
              if (sink_status) {
                  bool empty = !v.boxed && v.kind == DATA && v.d.empty();
                  CHECK(r != STATUS_SUCCESS || empty, "a failing write reports success");
              } else { encode(sent, v); CHECK(r == STATUS_SUCCESS && sink == sent, "a write through the reader gave %08x", r); }
            }
        }
    }
    if ((lines >= 2 && others) || pieces) g.nontrivial();
    OK(rc_resource_release(rc_psock_br_resource_handle(br)));
    release_psock(s);
    if (sched) OK(rc_resource_release(rc_fiber_scheduler_resource_handle(sched)));
    if (peer >= 0) { close(peer); peer = -1; }
    sys.read = nullptr; rfd = -1;
    free_alloc(a);
    heap.expect_clean("after the case");
    heap.end();
}
} // namespace vp
