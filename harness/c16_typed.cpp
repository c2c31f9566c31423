// C16: typed values over every transport, and the wire format.
#include "streams.hpp"
extern "C" void* __real_mmap(void*, size_t, int, int, int, off_t);
namespace vp {
const char* const PROPERTY = "C16";
const char* const RULE = "a case writes 1-24 raw and boxed values of random types (all boundary values, strings and data of 0..20000 bytes, more over buffers and two fibers) over a memory buffer, a user-method stream, a pipe, a socket pair or an asynchronous pair with one or two fibers, optionally reading through a buffered reader, interleaving writes and reads, and at times compares the raw bytes on the wire with an independent encoder; non-trivial = at least three values of at least two types made the trip";
const std::vector<Probe> PROBES;
void setup() { sys.idle = [](int) { return false; }; }

static size_t count; static unsigned kinds;
static void one_back(rc_psock* r, rc_allocator* a, const Val& v) {
    Val o;
    status s = read_val(r, a, v, o);
    CHECK(s == STATUS_SUCCESS, "reading back %s failed with %08x", describe(v).c_str(), s);
    check_equal(v, o);
    count++; kinds |= 1u << (v.kind + 16 * v.boxed);
    g.log("read back %s", describe(v).c_str());
}
static void put(rc_psock* w, const Val& v) {
    std::vector<uint8_t> keep = v.d;
    status s = write_val(w, v);
    CHECK(s == STATUS_SUCCESS, "writing %s failed with %08x", describe(v).c_str(), s);
    CHECK(keep == v.d, "writing changed the caller's data");
    g.log("wrote %s", describe(v).c_str());
}
static void hex(const std::vector<uint8_t>& got, const std::vector<uint8_t>& want) {
    if (got == want) return;
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    fail("the wire holds %zu bytes, %zu expected; first difference at byte %zu (%d, %d)", got.size(), want.size(), i, i < got.size() ? got[i] : -1, i < want.size() ? want[i] : -1);
}
static rc_psock* via(rc_psock* r, rc_allocator* a, bool use, rc_psock_br** br) {
    *br = nullptr;
    if (!use) return r;
    OK(rc_psock_br_create_from_psock(br, a, r));
    return rc_psock_br_psock_adapter(*br);
}
static void drop(rc_psock_br* br) { if (br) OK(rc_resource_release(rc_psock_br_resource_handle(br))); }

static void over_buffer(rc_allocator* a, bool br_in) {
    rc_psock* w = nullptr; rc_psock* r = nullptr;
    OK(rc_psock_create_from_buffer(&w, a, nullptr, 0));
    std::vector<Val> vs; std::vector<uint8_t> want;
    while (vs.size() < 24 && (vs.empty() || g.more(5))) {
        vs.push_back(gen_val(30000)); put(w, vs.back()); encode(want, vs.back());
        if (g.chance(1, 8)) { // looking at the output does not disturb it
            void* p = nullptr; size_t n = 0;
            OK(rc_psock_from_buffer_get_output_buffer(w, a, &p, &n));
            hex(std::vector<uint8_t>((uint8_t*)p, (uint8_t*)p + n), want);
            OK(rc_allocator_reclaim(a, p));
        }
    }
    void* p = nullptr; size_t n = 0;
    OK(rc_psock_from_buffer_get_output_buffer(w, a, &p, &n));
    hex(std::vector<uint8_t>((uint8_t*)p, (uint8_t*)p + n), want);
    OK(rc_psock_create_from_buffer(&r, a, (const char*)p, n));
    OK(rc_allocator_reclaim(a, p));
    release_psock(w);
    rc_psock_br* br; rc_psock* in = via(r, a, br_in, &br);
    for (auto& v : vs) one_back(in, a, v);
    drop(br); release_psock(r);
}

static void stepwise(rc_psock* w, rc_psock* r, rc_allocator* a, bool br_in, size_t cap, int wire_fd, Mem* mem) {
    rc_psock_br* br; rc_psock* in = via(r, a, br_in, &br);
    std::deque<Val> pending; size_t bytes = 0; int made = 0;
    while (made < 24 && (made < 1 || g.more(14))) {
        switch (g.pick({4, 3, 1})) {
        case 0: {
            Val v = gen_val(20000); std::vector<uint8_t> e; encode(e, v);
            if (bytes + e.size() > cap) break;
            put(w, v); pending.push_back(v); bytes += e.size(); made++;
            break;
        }
        case 1:
            if (pending.empty()) break;
            { Val v = pending.front(); pending.pop_front(); std::vector<uint8_t> e; encode(e, v); bytes -= e.size(); one_back(in, a, v); }
            break;
        default: { // look at the wire
            if (br_in || (wire_fd < 0 && !mem)) break;
            std::vector<uint8_t> want, got;
            for (auto& v : pending) encode(want, v);
            if (mem) { got.assign(mem->q.begin(), mem->q.end()); mem->q.clear(); }
            else {
                got.resize(want.size() + 64);
                size_t off = 0;
                for (;;) {
                    struct pollfd pf = {wire_fd, POLLIN, 0};
                    if (off == got.size() || poll(&pf, 1, 0) != 1) break;
                    ssize_t k = real_read(wire_fd, got.data() + off, got.size() - off);
                    if (k <= 0) break;
                    off += (size_t)k;
                }
                got.resize(off);
            }
            hex(got, want);
            if (pending.size()) { count += pending.size(); for (auto& v : pending) kinds |= 1u << (v.kind + 16 * v.boxed); g.label("wire"); }
            pending.clear(); bytes = 0;
        }
        }
    }
    while (pending.size()) { one_back(in, a, pending.front()); pending.pop_front(); }
    drop(br);
}

// data whose length does not fit the length field must not be written with another length
struct Sink { uint8_t head[8]; uint64_t n; };
static status sink_write(rc_psock*, void* ctx, const void* data, size_t* size) {
    Sink* k = (Sink*)ctx; const uint8_t* p = (const uint8_t*)data;
    for (size_t i = 0; i < *size && k->n + i < 8; i++) k->head[k->n + i] = p[i];
    k->n += *size;
    return STATUS_SUCCESS;
}
static status sink_release(rc_psock*, void*) { return STATUS_SUCCESS; }
RCPR_VTABLE rc_psock_vtable sink_vtable = { { nullptr }, nullptr, &sink_write, nullptr, nullptr, nullptr, nullptr, &sink_release };
static void enormous(rc_allocator* a) {
    const uint64_t most = 0xffffffffu, room = most + (1ull << 33);
    static const uint8_t* map = nullptr;
    if (!map) { void* p = __real_mmap(nullptr, room, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return; map = (const uint8_t*)p; }
    g.label("enormous");
    for (int i = 0; i < 3; i++) {
        uint64_t n = g.coin() ? most - 1 + g.below(3) : most + g.below(1ull << 33);
        Sink k{{}, 0}; rc_psock* s = nullptr; OK(rc_psock_create_from_user_methods(&s, a, &k, &sink_vtable));
        status r = rc_psock_write_boxed_data(s, map, (size_t)n);
        g.log("write of boxed data of %llu bytes: %08x, %llu", (unsigned long long)n, r, (unsigned long long)k.n);
        if (n <= most) {
            CHECK(r == STATUS_SUCCESS && k.n == n + 8, "writing boxed data of %llu bytes gave %08x and wrote %llu", (unsigned long long)n, r, (unsigned long long)k.n);
            std::vector<uint8_t> want; put_be(want, tag_of(DATA), 4); put_be(want, n, 4);
            CHECK(!memcmp(k.head, want.data(), 8), "boxed data of %llu bytes has the wrong header", (unsigned long long)n);
        } else CHECK(r != STATUS_SUCCESS, "boxed data of %llu bytes was written, with a length of 4 bytes", (unsigned long long)n);
        release_psock(s); count++;
    }
}

struct Ctx { rc_psock* w; std::vector<Val>* vs; bool done; };
static status writer(void* c) { Ctx* x = (Ctx*)c; for (auto& v : *x->vs) put(x->w, v); x->done = true; return STATUS_SUCCESS; }

void run_case() {
    heap.begin();
    rc_allocator* a = make_alloc();
    bool br = g.chance(1, 3);
    count = 0; kinds = 0;
    if (g.chance(1, 300)) enormous(a);
    else switch (g.pick({4, 3, 2, 2, 1, 1})) {
    case 0: g.label("buffer"); over_buffer(a, br); break;
    case 1: {
        g.label("user");
        Mem m; rc_psock* s = nullptr;
        OK(rc_psock_create_from_user_methods(&s, a, &m, &mem_vtable));
        if (g.coin()) m.piece = 1 + g.below(100);
        stepwise(s, s, a, br, 1 << 20, -1, &m);
        release_psock(s);
        CHECK(m.released == 1, "user release called %d times", m.released);
        break;
    }
    case 2: case 3: {
        bool pipes = g.coin(); g.label(pipes ? "pipe" : "socketpair");
        int wf, rf; make_pair(&wf, &rf, pipes);
        rc_psock* w = fd_psock(a, wf); rc_psock* r = fd_psock(a, rf);
        stepwise(w, r, a, br, 30000, rf, nullptr);
        if (!pipes && g.coin()) stepwise(r, w, a, g.coin(), 30000, wf, nullptr);
        release_psock(w); release_psock(r);
        break;
    }
    case 4: {
        g.label("async one fiber");
        rc_fiber_scheduler* sched = nullptr; rc_fiber* main_fib = nullptr;
        OK(rc_fiber_scheduler_create_with_disciplines(&sched, a));
        OK(rc_disciplined_fiber_scheduler_main_fiber_get(&main_fib, sched));
        int wf, rf; make_pair(&wf, &rf, false);
        rc_psock* w = nullptr; rc_psock* r = nullptr;
        OK(rc_psock_create_wrap_async(&w, a, main_fib, fd_psock(a, wf)));
        OK(rc_psock_create_wrap_async(&r, a, main_fib, fd_psock(a, rf)));
        stepwise(w, r, a, br, 30000, rf, nullptr);
        release_psock(w); release_psock(r);
        OK(rc_resource_release(rc_fiber_scheduler_resource_handle(sched)));
        break;
    }
    default: {
        g.label("async two fibers");
        rc_fiber_scheduler* sched = nullptr; rc_fiber* main_fib = nullptr; rc_fiber* wfib = nullptr;
        OK(rc_fiber_scheduler_create_with_disciplines(&sched, a));
        OK(rc_disciplined_fiber_scheduler_main_fiber_get(&main_fib, sched));
        int wf, rf; make_pair(&wf, &rf, false);
        std::vector<Val> vs;
        while (vs.size() < 24 && (vs.empty() || g.more(8))) vs.push_back(gen_val(g.chance(1, 4) ? 300000 : 2000));
        Ctx c{nullptr, &vs, false};
        OK(rc_fiber_create(&wfib, a, sched, 262144, &c, &writer));
        rc_psock* r = nullptr;
        OK(rc_psock_create_wrap_async(&c.w, a, wfib, fd_psock(a, wf)));
        OK(rc_psock_create_wrap_async(&r, a, main_fib, fd_psock(a, rf)));
        OK(rc_fiber_scheduler_add(sched, wfib));
        rc_psock_br* b; rc_psock* in = via(r, a, br, &b);
        for (auto& v : vs) one_back(in, a, v);
        drop(b); release_psock(c.w); release_psock(r);
        OK(rc_resource_release(rc_fiber_scheduler_resource_handle(sched)));
    }
    }
    if (br) g.label("buffered reader");
    if (count >= 3 && __builtin_popcount(kinds) >= 2) g.nontrivial();
    free_alloc(a);
    heap.expect_clean("after the case");
    heap.end();
}
} // namespace vp
