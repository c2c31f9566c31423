// C17: typed reads of mutated, truncated and failing input.
#include "streams.hpp"
namespace vp {
const char* const PROPERTY = "C17";
const char* const RULE = "a case encodes 1-8 typed values, damages the bytes (cuts, bit flips, changed tags and lengths, inserted, removed or entirely random bytes), may change some of the types asked for, offers the bytes through an input buffer, a closed pipe, a closed asynchronous socket or a user stream, each ending, ending short or failing at a generated byte, directly or through a buffered reader, and compares every read with an independent decoder; non-trivial = at least one read failed for a reason other than an empty source";
const std::vector<Probe> PROBES;
static size_t fail_at_byte, served; static int fail_errno; static int hooked_fd = -1;
static ssize_t hook_read(int fd, void* p, size_t n) {
    if (fd != hooked_fd) return real_read(fd, p, n);
    if (n && served >= fail_at_byte) { errno = fail_errno; return -1; }
    if (n > fail_at_byte - served) n = fail_at_byte - served;
    ssize_t r = real_read(fd, p, n);
    if (r > 0) served += (size_t)r;
    return r;
}
void setup() { sys.idle = [](int) { return false; }; }

struct Src { std::vector<uint8_t> b; size_t off = 0, fail_at = (size_t)-1; status err = 0; bool shorts = false; size_t piece = (size_t)-1; };
static status src_read(rc_psock*, void* ctx, void* data, size_t* size, bool block) {
    Src* s = (Src*)ctx;
    if (!*size) return STATUS_SUCCESS;
    size_t lim = std::min(s->b.size(), s->fail_at), n = std::min(*size, lim - s->off);
    bool failing = lim == s->fail_at;
    if (!block) n = std::min(n, s->piece);
    if (n < *size && (block ? !s->shorts : !n)) return failing ? s->err : (status)ERROR_PSOCK_READ_EOF;
    if (!n && failing) return s->err;
    if (n) memcpy(data, s->b.data() + s->off, n);
    s->off += n; *size = n;
    return STATUS_SUCCESS;
}
static status src_write(rc_psock*, void*, const void*, size_t*) { return ERROR_PSOCK_UNSUPPORTED_TYPE; }
static status src_release(rc_psock*, void*) { return STATUS_SUCCESS; }
RCPR_VTABLE rc_psock_vtable src_vtable = { { nullptr }, &src_read, &src_write, nullptr, nullptr, nullptr, nullptr, &src_release };

enum Out { GOOD, BADTYPE, BADSIZE, ANYERR, TRUE_OR_ERR };
static bool get(const std::vector<uint8_t>& b, size_t& off, int w, uint64_t& v) {
    if (b.size() - off < (size_t)w) return false;
    v = 0; while (w--) v = v << 8 | b[off++];
    return true;
}
// decodes one request; independent of the library.
static Out decode(const std::vector<uint8_t>& b, size_t& off, const Val& req, Val& out) {
    out = Val{}; out.kind = req.kind; out.boxed = req.boxed;
    uint64_t t;
    size_t n = req.d.size();
    if (req.boxed) {
        if (!get(b, off, 4, t)) return ANYERR;
        if (t != tag_of(req.kind)) return BADTYPE;
    }
    if (req.kind == DATA || req.kind == BSTRING) {
        if (req.boxed) {
            if (!get(b, off, 4, t)) return ANYERR;
            n = t;
            if (t == 0xffffffffu && req.kind == BSTRING) return BADSIZE;
        }
        if (b.size() - off < n) return ANYERR;
        out.d.assign(b.begin() + off, b.begin() + off + n); off += n;
        return GOOD;
    }
    if (!get(b, off, width(req.kind), out.n)) return ANYERR;
    if (req.kind == BOOLEAN && out.n > 1) { out.n = 1; return TRUE_OR_ERR; }
    return GOOD;
}

void run_case() {
    heap.begin();
    heap.limit = 16 << 20;
    rc_allocator* a = make_alloc();
    std::vector<Val> reqs; std::vector<uint8_t> b; std::vector<size_t> starts;
    int nv = 1 + (int)g.below(8);
    for (int i = 0; i < nv; i++) { Val v = gen_val(g.chance(1, 6) ? 6000 : 40); starts.push_back(b.size()); encode(b, v); reqs.push_back(v); }
    for (int m = (int)g.below(4); m > 0; m--) {
        size_t p = b.empty() ? 0 : g.below(b.size());
        size_t s = starts[g.below(starts.size())];
        switch (g.below(8)) {
        case 0: b.resize(p); break;
        case 1: if (b.size()) b[p] ^= (uint8_t)(1u << g.below(8)); break;
        case 2: if (s + 4 <= b.size()) { uint32_t t = g.coin() ? tag_of((int)g.below(NKINDS)) : (uint32_t)g.u64(); for (int i = 0; i < 4; i++) b[s + i] = (uint8_t)(t >> (24 - 8 * i)); } break;
        case 3: if (s + 8 <= b.size()) { uint32_t t = g.coin() ? 0xffffffffu - (uint32_t)g.below(3) : (uint32_t)g.u64(); for (int i = 0; i < 4; i++) b[s + 4 + i] = (uint8_t)(t >> (24 - 8 * i)); } break;
        case 4: { auto x = g.bytes(g.below(9)); b.insert(b.begin() + p, x.begin(), x.end()); break; }
        case 5: { size_t n = std::min<size_t>(b.size() - p, g.below(9)); b.erase(b.begin() + p, b.begin() + p + n); break; }
        case 6: { Val v = gen_val(40); reqs[g.below(reqs.size())] = v; break; }
        default: if (s + 8 <= b.size()) { // length a little off
            uint32_t t = 0; for (int i = 0; i < 4; i++) t = t << 8 | b[s + 4 + i];
            t += (uint32_t)g.range(-3, 3); for (int i = 0; i < 4; i++) b[s + 4 + i] = (uint8_t)(t >> (24 - 8 * i)); } break;
        }
    }
    // where and how the source ends
    size_t end = b.size(); bool failing = g.chance(1, 4);
    if (failing) end = g.below(b.size() + 1);
    std::vector<uint8_t> vis(b.begin(), b.begin() + end);
    rc_psock* s = nullptr; Src src; rc_fiber_scheduler* sched = nullptr; int wf = -1, rf = -1;
    uint8_t* exact = nullptr;
    switch (g.pick({4, 3, 3, 1})) {
    case 0: {
        g.label("buffer"); failing = false; end = b.size(); vis = b;
        exact = (uint8_t*)raw_malloc(b.size() ? b.size() : 1); memcpy(exact, b.data(), b.size());
        OK(rc_psock_create_from_buffer(&s, a, (const char*)exact, b.size()));
        break;
    }
    case 1: {
        g.label("user"); src.b = b; src.shorts = g.coin(); if (g.coin()) src.piece = 1 + g.below(16);
        if (failing) { src.fail_at = end; src.err = (status[]){ERROR_PSOCK_READ_GENERAL, ERROR_PSOCK_READ_EOF, STATUS_CODE(1, 0x7f, 9), 1, -1}[g.below(5)]; }
        OK(rc_psock_create_from_user_methods(&s, a, &src, &src_vtable));
        break;
    }
    case 2: {
        bool pipes = g.coin(); g.label(pipes ? "pipe" : "socketpair");
        make_pair(&wf, &rf, pipes);
        s = fd_psock(a, rf);
        break;
    }
    default: {
        g.label("async");
        rc_fiber* f = nullptr;
        OK(rc_fiber_scheduler_create_with_disciplines(&sched, a));
        OK(rc_disciplined_fiber_scheduler_main_fiber_get(&f, sched));
        make_pair(&wf, &rf, false);
        OK(rc_psock_create_wrap_async(&s, a, f, fd_psock(a, rf)));
    }
    }
    if (wf >= 0) {
        if (b.size() && real_write(wf, b.data(), b.size()) != (ssize_t)b.size()) fail("harness: short write");
        close(wf);
        if (failing) {
            hooked_fd = rf; served = 0; fail_at_byte = end; fail_errno = (int[]){EIO, ECONNRESET, EBADF, ETIMEDOUT, ENOMEM}[g.below(5)];
            sys.read = hook_read;
        }
    }
    rc_psock_br* br = nullptr; rc_psock* in = s;
    if (g.chance(1, 3)) { g.label("buffered reader"); OK(rc_psock_br_create_from_psock(&br, a, s)); in = rc_psock_br_psock_adapter(br); }
    size_t off = 0; bool failed = false;
    g.log("%zu bytes on offer, then the source %s", end, failing ? "fails" : "ends");
    for (auto& q : reqs) {
        Val want, got;
        size_t at = off;
        Out o = decode(vis, off, q, want);
        status r = read_val(in, a, q, got);
        g.log("read %s at byte %zu: %08x", describe(q).c_str(), at, r);
        std::string d = describe(q);
        if (o == GOOD) {
            CHECK(r == STATUS_SUCCESS, "reading %s, well formed at byte %zu of %zu, failed with %08x", d.c_str(), at, end, r);
            check_equal(want, got);
            continue;
        }
        if (o == TRUE_OR_ERR) { if (r == STATUS_SUCCESS) { check_equal(want, got); continue; } break; }
        CHECK(r != STATUS_SUCCESS, "reading %s at byte %zu of %zu succeeded on malformed input", d.c_str(), at, end);
        if (o == BADTYPE) CHECK(r == (status)ERROR_PSOCK_READ_BOXED_INVALID_TYPE, "a wrong type tag for %s is reported as %08x", d.c_str(), r);
        if (o == BADSIZE) CHECK(r == (status)ERROR_PSOCK_READ_BOXED_INVALID_SIZE, "an impossible length for %s is reported as %08x", d.c_str(), r);
        if (o == BADTYPE) g.label("wrong tag"); else if (o == BADSIZE) g.label("impossible length"); else g.label(failing ? "failing source" : "truncated");
        if (off < end || at < end || o != ANYERR) failed = true;
        break;
    }
    if (failed) g.nontrivial();
    sys.read = nullptr;
    if (br) OK(rc_resource_release(rc_psock_br_resource_handle(br)));
    release_psock(s);
    if (sched) OK(rc_resource_release(rc_fiber_scheduler_resource_handle(sched)));
    if (exact) raw_free(exact);
    free_alloc(a);
    heap.expect_clean("after the case");
    heap.end();
}
} // namespace vp
