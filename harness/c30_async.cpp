// C30: asynchronous streams under many fibers.
#include "async.hpp"
#include <signal.h>
#include <sys/resource.h>
namespace vp {
const char* const PROPERTY = "C30";
const char* const RULE = "a case makes 1-5 streams (socket pairs, pipes, datagram sockets passing descriptors, a listener with up to 5 clients; small or normal kernel buffers; either end asynchronous or an external peer that acts only while every fiber sleeps), one fiber per direction (or one alternating, or several on one stream, or one that sleeps for ever), early closes, and partial transfers, EINTR and spurious EAGAIN at the system calls; at times a crowd of 700-2200 sleeping fibers made ready together; bytes, ends, refusals and resumptions are compared with what the kernel was given, and no fiber may sleep on a ready descriptor once a readiness wait found nothing; non-trivial = at least two fibers slept and were resumed";
const std::vector<Probe> PROBES;
void setup() { signal(SIGPIPE, SIG_IGN); struct rlimit r; if (!getrlimit(RLIMIT_NOFILE, &r) && r.rlim_cur < 8192) { r.rlim_cur = r.rlim_max < 8192 ? r.rlim_max : 8192; setrlimit(RLIMIT_NOFILE, &r); } }
namespace {
// more sleeping fibers than one readiness wait can report
struct One { rc_psock* ps; int other; uint8_t want; bool done, fed, writes; };
struct Crowd { std::deque<One> m; rc_fiber_scheduler* s; size_t left, order; int done_w; } *cr;
status member(void* ctx) {
    One& o = *(One*)ctx; uint8_t x = o.want;
    if (o.writes) { status r = rc_psock_write_raw_uint8(o.ps, x); CHECK(r == STATUS_SUCCESS, "a fiber of a crowd could not write: %08x", r); }
    else {
    status r = rc_psock_read_raw_uint8(o.ps, &x);
    CHECK(r == STATUS_SUCCESS && x == o.want, "a fiber of a crowd read %02x (%08x), its stream held %02x", x, r, o.want);
    }
    CHECK(o.fed, "a fiber of a crowd was resumed before its stream was ready");
    o.done = true; if (--cr->left == 0) { uint8_t b = 1; if (real_write(cr->done_w, &b, 1) != 1) fail("harness: no pipe"); }
    return STATUS_SUCCESS;
}
bool crowd_idle(int round) {
    if (round) for (auto& o : cr->m) if (o.fed && !o.done) return false; // its stream is ready, but it was not seen
    bool moved = false; size_t all = g.below(3); size_t from = g.below(cr->m.size()), n = all == 0 || round ? cr->m.size() : 1 + g.below(cr->m.size());
    for (size_t i = 0; i < n; i++) { One& o = cr->m[(from + i) % cr->m.size()]; if (o.fed) continue; o.fed = true; moved = true; uint8_t b[4096]; if (o.writes ? real_read(o.other, b, 4096) != 4096 : real_write(o.other, &o.want, 1) != 1) fail("harness: no pipe"); }
    return moved || !round;
}
void crowd() {
    static Crowd C; C = Crowd{}; cr = &C; as::no_hooks(); sys.idle = crowd_idle; g.label("crowd");
    rc_allocator* a = make_alloc(); rc_fiber* mf = nullptr;
    OK(rc_fiber_scheduler_create_with_disciplines(&C.s, a)); OK(rc_disciplined_fiber_scheduler_main_fiber_get(&mf, C.s));
    size_t n = g.chance(1, 4) ? 2100 + g.below(100) : 700 + g.below(800); struct rlimit rl; if (!getrlimit(RLIMIT_NOFILE, &rl)) n = std::min<size_t>(n, rl.rlim_cur / 2 - 50); C.left = n;
    int writers = (int)g.below(3);
    int d[2]; if (pipe(d)) fail("harness: no pipe"); C.done_w = d[1]; rc_psock* done = nullptr;
    OK(rc_psock_create_wrap_async(&done, a, mf, fd_psock(a, d[0])));
    for (size_t i = 0; i < n; i++) {
        int p[2]; if (pipe(p)) fail("harness: no pipe");
        bool wr = writers == 2 || (writers == 1 && g.chance(1, 8));
        C.m.push_back(One{nullptr, p[!wr], (uint8_t)(i * 7), false, false, wr}); One& o = C.m.back();
        if (wr) {
            static uint8_t page[4096]; CHECK(fcntl(p[1], F_SETPIPE_SZ, 4096) == 4096, "harness: no small pipe");
            if (real_write(p[1], page, 4096) != 4096) fail("harness: no pipe");
        }
        OK(rc_psock_create_wrap_async(&o.ps, a, mf, fd_psock(a, p[wr])));
        rc_fiber* f = nullptr; OK(rc_fiber_create(&f, a, C.s, 32768, &o, &member)); OK(rc_fiber_scheduler_add(C.s, f));
    }
    uint8_t x; status r = rc_psock_read_raw_uint8(done, &x); CHECK(r == STATUS_SUCCESS, "the main fiber's read failed with %08x", r);
    for (auto& o : C.m) { CHECK(o.done, "a fiber of a crowd is not done"); uint8_t b; if (o.writes && (real_read(o.other, &b, 1) != 1 || b != o.want)) fail("a fiber of a crowd wrote something else"); release_psock(o.ps); close(o.other); }
    release_psock(done); close(d[1]);
    OK(rc_resource_release(rc_fiber_scheduler_resource_handle(C.s))); free_alloc(a);
    g.nontrivial();
}
}
void run_case() {
    heap.begin();
    if (g.chance(1, 400)) crowd();
    else {
        auto* W = new as::World; as::setup_hooks();
        as::build_and_run(*W, false);
        if (W->slept_fibers >= 2) g.nontrivial();
        if (W->refused) g.label("refused"); if (W->cuts) g.label("early close"); if (W->slept_fibers >= 10) g.label("slept 10 times"); if (W->accepted) g.label("accepted");
        delete W;
    }
    as::no_hooks();
    heap.expect_clean("the end"); heap.end();
}
} // namespace vp
