// C18: blocking descriptor I/O under every fragmentation, interruption and early end.
#include "streams.hpp"
namespace vp {
const char* const PROPERTY = "C18";
const char* const RULE = "a case writes 1-16 typed values through a descriptor stream whose write calls transfer generated part sizes, are interrupted by signals or fail at a generated byte, then reads the values (typed reads mixed with raw reads) from a descriptor whose read calls return generated part sizes, are interrupted, end or fail at a generated byte, and compares delivered bytes and values with the fault-free run; non-trivial = at least one multi-byte transfer was split or interrupted";
const std::vector<Probe> PROBES;
static int rfd = -1, wfd = -1;
static std::vector<uint8_t> in, out; static size_t in_off, in_end, out_end; static int in_errno, out_errno; // errno 0: end of file / zero write
static unsigned split, spins; static int style_r, style_w;
static size_t part(size_t n, int style) {
    if (n <= 1) return n;
    size_t k;
    switch (style) { case 0: return n; case 1: k = 1; break; case 2: k = 1 + g.below(n); break; default: k = 1 + g.below(std::min<size_t>(n, 6)); }
    if (k < n) split++;
    return k;
}
static ssize_t hr(int fd, void* p, size_t n) {
    if (fd != rfd) return real_read(fd, p, n);
    if (!n) return 0;
    if (style_r && g.chance(1, 8)) { split++; errno = EINTR; return -1; }
    if (in_off >= in_end) { if (++spins > 10000) fail("the read never ends at the end of the stream"); if (in_errno) { errno = in_errno; return -1; } return 0; }
    n = part(std::min(n, in_end - in_off), style_r);
    memcpy(p, in.data() + in_off, n); in_off += n;
    return (ssize_t)n;
}
static ssize_t hw(int fd, const void* p, size_t n) {
    if (fd != wfd) return real_write(fd, p, n);
    if (!n) return 0;
    if (style_w && g.chance(1, 8)) { split++; errno = EINTR; return -1; }
    if (out.size() >= out_end) { if (++spins > 10000) fail("the write never ends on a closed stream"); if (out_errno) { errno = out_errno; return -1; } return 0; }
    n = part(std::min(n, out_end - out.size()), style_w);
    out.insert(out.end(), (const uint8_t*)p, (const uint8_t*)p + n);
    return (ssize_t)n;
}
static int pr[2], pw[2];
void setup() { if (pipe(pr) || pipe(pw)) _exit(3); }

void run_case() {
    heap.begin(); heap.limit = 64 << 20;
    rc_allocator* a = make_alloc();
    std::vector<Val> vs; std::vector<uint8_t> want;
    int n = 1 + (int)g.below(16);
    for (int i = 0; i < n; i++) { vs.push_back(gen_val(g.chance(1, 8) ? 5000 : 30)); }
    style_w = (int)g.below(4); style_r = (int)g.below(4); split = spins = 0;
    std::vector<uint8_t> all; for (auto& v : vs) encode(all, v);
    // --- writing
    bool cut = g.chance(1, 4);
    out.clear(); out_end = cut ? g.below(all.size() + 1) : (size_t)-1;
    out_errno = (int[]){EPIPE, EIO, ENOSPC, EAGAIN, 0}[cut ? g.below(5) : 0];
    wfd = dup(pw[1]); rfd = -1; sys.write = hw; sys.read = hr;
    rc_psock* w = fd_psock(a, wfd); rc_psock* ad = w; rc_psock_br* wb = nullptr;
    if (g.chance(1, 5)) { OK(rc_psock_br_create_from_psock(&wb, a, w)); ad = rc_psock_br_psock_adapter(wb); }
    for (auto& v : vs) {
        encode(want, v);
        status r = write_val(ad, v);
        g.log("write %s: %08x, %zu bytes delivered", describe(v).c_str(), r, out.size());
        CHECK(out.size() <= want.size() && !memcmp(out.data(), want.data(), out.size()), "the delivered bytes are not a prefix of what was written");
        if (want.size() <= out_end) {
            CHECK(r == STATUS_SUCCESS, "writing %s failed with %08x although the stream took every byte", describe(v).c_str(), r);
            CHECK(out == want, "writing %s delivered %zu bytes instead of %zu", describe(v).c_str(), out.size(), want.size());
        } else {
            CHECK(r != STATUS_SUCCESS, "writing %s succeeded although only %zu of %zu bytes were taken", describe(v).c_str(), out.size(), want.size());
            g.label("failed write");
            break;
        }
    }
    if (wb) OK(rc_resource_release(rc_psock_br_resource_handle(wb)));
    release_psock(w); wfd = -1;
    // --- reading
    in = all; in_off = 0; cut = g.chance(1, 3);
    in_end = cut ? g.below(all.size() + 1) : all.size();
    in_errno = (int[]){0, EIO, ECONNRESET, EBADF, EAGAIN}[cut ? g.below(5) : 0];
    rfd = dup(pr[0]);
    rc_psock* r = fd_psock(a, rfd); rc_psock* rd = r; rc_psock_br* rb = nullptr;
    if (g.chance(1, 4)) { g.label("buffered reader"); OK(rc_psock_br_create_from_psock(&rb, a, r)); rd = rc_psock_br_psock_adapter(rb); }
    size_t pos = 0; bool dead = false;
    for (size_t i = 0; i < vs.size() && !dead; i++) {
        std::vector<uint8_t> e; encode(e, vs[i]);
        if (g.chance(1, 6)) { // take this value's bytes with raw reads
            std::vector<uint8_t> got;
            g.label("raw reads");
            while (got.size() < e.size()) {
                size_t ask = 1 + g.below(e.size() - got.size()), k = ask;
                uint8_t* p = (uint8_t*)raw_malloc(ask);
                status s = rc_psock_read_raw(rd, p, &k);
                if (s == STATUS_SUCCESS) { CHECK(k <= ask, "a raw read of %zu bytes gave %zu", ask, k); got.insert(got.end(), p, p + k); }
                raw_free(p);
                if (s != STATUS_SUCCESS || k == 0) {
                    CHECK(pos + got.size() == in_end, "a raw read ended at byte %zu of %zu with %08x", pos + got.size(), in_end, s);
                    if (in_errno) CHECK(s != STATUS_SUCCESS, "a raw read of a failing descriptor reports success");
                    dead = true; break;
                }
            }
            CHECK(!memcmp(got.data(), all.data() + pos, got.size()), "raw reads gave other bytes");
            pos += got.size();
            continue;
        }
        Val o; status s = read_val(rd, a, vs[i], o);
        g.log("read %s at %zu of %zu: %08x", describe(vs[i]).c_str(), pos, in_end, s);
        if (pos + e.size() <= in_end) {
            CHECK(s == STATUS_SUCCESS, "reading %s failed with %08x although every byte came", describe(vs[i]).c_str(), s);
            check_equal(vs[i], o);
            pos += e.size();
        } else {
            CHECK(s != STATUS_SUCCESS, "reading %s succeeded although the stream ended at byte %zu of it", describe(vs[i]).c_str(), in_end - pos);
            g.label(in_errno ? "failed read" : "early end");
            dead = true;
        }
    }
    if (rb) OK(rc_resource_release(rc_psock_br_resource_handle(rb)));
    release_psock(r); rfd = -1;
    sys.write = nullptr; sys.read = nullptr;
    if (split) g.nontrivial();
    free_alloc(a);
    heap.expect_clean("after the case");
    heap.end();
}
} // namespace vp
