// Asynchronous streams: fibers, external peers driven while every fiber sleeps,
// kernel behaviour injected at the system calls, and a controller fiber that
// probes and interrupts sleeping fibers.  Used by C30 and C27.
#pragma once
#include "streams.hpp"
#include <map>
#include <sys/stat.h>
#include <sys/un.h>
namespace vp { namespace as {

struct Dir {
    std::vector<Val> vals; std::vector<uint8_t> plan, sent; // bytes (or file indexes) to send, and sent
    size_t taken = 0; int from = -1, to = -1; bool planned = true;
};
struct End {
    int fd = -1; bool ext = false, closed = false, closes = false, cut = false; // closes: released once its tasks are done
    rc_psock* ps = nullptr; int in = -1, out = -1, users = 0, owner = 0;
    size_t feed = (size_t)-1, drain = (size_t)-1; // an external end that is cut closes after this much
    int in_op[2] = {0, 0}, order = 0; // external: 1 takes nothing before all it sent is read, 2 sends nothing before it took everything
};
enum { WRITE, READ, DIALOG, ACCEPT, SEND, RECV, LURK, CONTROL };
struct Task {
    int kind = 0, end = 0, mode = 0, gate = -1, gated = 0, cap = 0; size_t quit = (size_t)-1;
    int fib = 0; bool done = false, racing = false, strict = false; // strict: may not be aborted
    bool in_op = false; int want = 0, op_end = -1;
    std::vector<uint8_t> got, buf;
    // the event on its way to this fiber
    bool poked = false, aborting = false; status abort_with = 0; rc_rcpr_uuid id; int event = 0; void* prm = nullptr;
    uint64_t slept = 0; size_t slept_at = 0; unsigned interrupted = 0, retried = 0, aborted = 0;
};
enum { NONE, RETRY, MIXED };
struct Fib { rc_fiber* f = nullptr; int policy = NONE, task = -1; };
struct Client { int end; std::string name; bool connected = false; };
struct Probe_ { int task, kind; };
struct World {
    rc_allocator* a; rc_fiber_scheduler* s = nullptr; rc_fiber_scheduler_discipline* poke = nullptr;
    std::deque<Dir> dirs; std::deque<End> ends; std::deque<Task> tasks; std::deque<Fib> fibs; // fibs[0] is the main fiber
    std::map<int, int> byfd; std::map<rc_fiber*, int> byfiber;
    std::vector<int> files; std::vector<Client> clients; std::deque<int> queue; size_t clients_next = 0; int listener = -1;
    int done_w, ctl_w, control = -1, left = 0; int main_task = -1;
    uint64_t idles = 0; unsigned stale = 0; bool eintr = false, spurious = false, partial = false, wakeintr = false, pokes = false, probes = false;
    std::vector<Probe_> plan; unsigned long planned_at = 0; bool stopping = false; bool keep = false; std::vector<int> dups;
    unsigned sleeps = 0, refused = 0, pokes_done = 0, retried = 0, aborted = 0, unhandled = 0, streams = 0, cuts = 0, accepted = 0, slept_fibers = 0;
};
inline World* w;
struct PokeReq { rc_fiber* target; int event; void* prm; bool first; };
const rc_rcpr_uuid POKE = {{0x72, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}};
inline status poke_handler(void* ctx, rc_fiber* y, int, void* param) {
    PokeReq* p = (PokeReq*)param; rc_fiber_scheduler* s = *(rc_fiber_scheduler**)ctx; status r;
    if (p->first) {
        if ((r = rc_disciplined_fiber_scheduler_set_next_fiber_to_run(s, y, &POKE, 99, nullptr))) return r;
        return rc_disciplined_fiber_scheduler_set_next_fiber_to_run(s, p->target, &POKE, p->event, p->prm);
    }
    if ((r = rc_disciplined_fiber_scheduler_add_fiber_to_run_queue(s, p->target, &POKE, p->event, p->prm))) return r;
    return rc_disciplined_fiber_scheduler_set_next_fiber_to_run(s, y, &POKE, 99, nullptr);
}
inline Task* current() {
    rc_fiber* f = nullptr; OK(rc_disciplined_fiber_scheduler_current_fiber_get(&f, w->s));
    auto i = w->byfiber.find(f); int t = i == w->byfiber.end() ? -1 : i->second;
    return t < 0 ? nullptr : &w->tasks[t];
}
inline int tid(Task& t) { for (size_t i = 0; i < w->tasks.size(); i++) if (&w->tasks[i] == &t) return (int)i; return -1; }
inline bool ready(int fd, bool wr) { struct pollfd p = {fd, (short)(wr ? POLLOUT : POLLIN), 0}; return poll(&p, 1, 0) > 0; }

// ---- the kernel
inline bool sure_nonblock(int fd, bool wr) {
    if (!ready(fd, wr) && !(fcntl(fd, F_GETFL) & O_NONBLOCK)) fail("a fiber's %s would put the whole thread to sleep", wr ? "write" : "read");
    return true;
}
// the fiber found nothing to do on its descriptor
inline void found_nothing(Task* t, size_t at) {
    w->sleeps++;
    if (!t || !t->in_op) return;
    if (t->slept && t->slept != w->idles + 1 && t->slept_at == at && !t->racing)
        fail("task %d was resumed though its descriptor was not ready", tid(*t));
    t->slept = w->idles + 1; t->slept_at = at;
}
inline bool inject(int* err) {
    if (w->eintr && g.chance(1, 10)) { *err = EINTR; return true; }
    if (w->spurious && g.chance(1, 10)) { *err = EAGAIN; return true; }
    return false;
}
inline size_t part(size_t n) { if (!w->partial || n < 2 || !g.chance(1, 3)) return n; return n > 20000 ? n / 2 + g.below(n / 2) : 1 + g.below(n - 1); }
inline ssize_t h_read(int fd, void* p, size_t n) {
    auto i = w->byfd.find(fd); if (i == w->byfd.end()) return real_read(fd, p, n);
    End& e = w->ends[i->second]; Dir& d = w->dirs[e.in]; Task* t = current();
    int err = 0; if (n && inject(&err)) { errno = err; return -1; }
    sure_nonblock(fd, false);
    ssize_t r = real_read(fd, p, n ? part(n) : 0);
    if (r > 0) { d.taken += r; w->stale = 0; if (t) { t->got.insert(t->got.end(), (uint8_t*)p, (uint8_t*)p + r); t->slept = 0; } }
    else if (r < 0 && errno == EAGAIN) { found_nothing(t, d.taken); errno = EAGAIN; }
    return r;
}
inline void record(Dir& d, const uint8_t* p, size_t n) {
    for (size_t i = 0; i < n; i++) {
        if (d.planned && (d.sent.size() >= d.plan.size() || d.plan[d.sent.size()] != p[i])) fail("byte %zu handed to the kernel is not the byte written there", d.sent.size());
        d.sent.push_back(p[i]);
    }
    w->stale = 0;
}
inline ssize_t h_write(int fd, const void* p, size_t n) {
    auto i = w->byfd.find(fd); if (i == w->byfd.end()) return real_write(fd, p, n);
    End& e = w->ends[i->second]; Dir& d = w->dirs[e.out]; Task* t = current();
    int err = 0; if (n && inject(&err)) { errno = err; return -1; }
    sure_nonblock(fd, true);
    ssize_t r = real_write(fd, p, n ? part(n) : 0);
    if (r > 0) { record(d, (const uint8_t*)p, r); if (t) { t->got.insert(t->got.end(), (uint8_t*)p, (uint8_t*)p + r); t->slept = 0; } }
    else if (r < 0 && errno == EAGAIN) { found_nothing(t, d.sent.size()); errno = EAGAIN; }
    return r;
}
inline ssize_t h_sendmsg(int fd, const void* m, int f) {
    auto i = w->byfd.find(fd); if (i == w->byfd.end()) return real_sendmsg(fd, m, f);
    if (w->spurious && g.chance(1, 10)) { errno = EAGAIN; return -1; }
    sure_nonblock(fd, true);
    ssize_t r = real_sendmsg(fd, m, f);
    if (r >= 0) { Dir& d = w->dirs[w->ends[i->second].out]; d.sent.push_back(0); w->stale = 0; }
    else if (errno == EAGAIN) w->sleeps++, errno = EAGAIN;
    return r;
}
inline ssize_t h_recvmsg(int fd, void* m, int f) {
    auto i = w->byfd.find(fd); if (i == w->byfd.end()) return real_recvmsg(fd, m, f);
    if (w->spurious && g.chance(1, 10)) { errno = EAGAIN; return -1; }
    sure_nonblock(fd, false);
    ssize_t r = real_recvmsg(fd, m, f);
    if (r >= 0) { w->dirs[w->ends[i->second].in].taken++; w->stale = 0; }
    else if (errno == EAGAIN) w->sleeps++, errno = EAGAIN;
    return r;
}
inline int h_accept(int fd, void* ad, void* len) {
    auto i = w->byfd.find(fd); if (i == w->byfd.end()) return real_accept(fd, ad, len);
    if (w->spurious && g.chance(1, 8)) { errno = EAGAIN; return -1; }
    sure_nonblock(fd, false);
    int r = real_accept(fd, ad, len); Task* t = current();
    if (r >= 0) { w->stale = 0; if (t) t->slept = 0; }
    else if (errno == EAGAIN) { found_nothing(t, w->accepted); errno = EAGAIN; }
    return r;
}

// ---- external peers
inline bool ext_step(End& e) {
    if (e.closed || e.fd < 0) return false;
    bool moved = false; uint8_t b[8192];
    if (e.out >= 0) {
        Dir& d = w->dirs[e.out]; size_t lim = std::min(d.plan.size(), e.feed), rem = lim - std::min(lim, d.sent.size());
        if (e.order == 2 && e.in >= 0 && w->dirs[e.in].taken < std::min(w->dirs[e.in].plan.size(), e.drain)) rem = 0;
        if (rem) {
            size_t n = 1 + g.below(std::min(rem, std::max<size_t>(16, d.plan.size() / 6)));
            ssize_t r = real_write(e.fd, d.plan.data() + d.sent.size(), n);
            if (r > 0) { record(d, d.plan.data() + d.sent.size(), r); moved = true; }
        }
    }
    if (e.in >= 0) {
        Dir& d = w->dirs[e.in];
        size_t n = 1 + g.below(std::min<size_t>(sizeof b, std::max<size_t>(16, d.plan.size() / 4)));
        bool wait = e.order == 1 && e.out >= 0 && w->dirs[e.out].taken < std::min(w->dirs[e.out].plan.size(), e.feed);
        ssize_t r = d.taken < e.drain && !wait ? real_read(e.fd, b, n) : -1;
        if (r > 0) {
            if (memcmp(b, d.sent.data() + d.taken, r)) fail("harness: the kernel delivered something else");
            d.taken += r; moved = true; w->stale = 0;
        } else if (r == 0 && e.out < 0) { close(e.fd); e.closed = true; moved = true; }
    }
    bool sent = e.out < 0 || w->dirs[e.out].sent.size() >= std::min(w->dirs[e.out].plan.size(), e.feed);
    bool took = e.in < 0 || w->dirs[e.in].taken >= std::min(e.cut ? e.drain : w->dirs[e.in].planned ? w->dirs[e.in].plan.size() : (size_t)-1, e.drain);
    if ((e.cut || e.closes) && sent && took && !e.closed) { close(e.fd); e.closed = true; moved = true; w->stale = 0; }
    return moved;
}
inline bool connect_one() {
    if (w->clients_next >= w->clients.size()) return false;
    Client& c = w->clients[w->clients_next]; End& l = w->ends[w->listener];
    struct sockaddr_un me = {}, to = {}; socklen_t n = sizeof to;
    if (getsockname(l.fd, (struct sockaddr*)&to, &n)) fail("harness: no listener");
    int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
    me.sun_family = AF_UNIX; memcpy(me.sun_path + 1, c.name.data(), c.name.size());
    if (fd < 0 || bind(fd, (struct sockaddr*)&me, offsetof(struct sockaddr_un, sun_path) + 1 + c.name.size()) || connect(fd, (struct sockaddr*)&to, n)) fail("harness: no connection");
    w->ends[c.end].fd = fd; c.connected = true; w->queue.push_back((int)w->clients_next); w->clients_next++; w->stale = 0;
    return true;
}
// something for the controller to do with fibers that sleep on descriptors that are not ready
inline bool control() {
    if (w->control < 0 || w->stopping || !w->plan.empty()) return false;
    std::vector<int> c;
    for (size_t i = 0; i < w->tasks.size(); i++) {
        Task& t = w->tasks[i];
        if (t.kind == CONTROL || t.done || !t.in_op || t.poked || t.aborting) continue;
        if (t.racing) continue; // two fibers of one stream
        End& e = w->ends[t.op_end];
        if (e.closed || ready(e.fd, t.want)) continue;
        if (t.fib == 0 && t.kind != LURK) { if (w->probes && g.coin()) c.push_back((int)i); continue; }
        c.push_back((int)i);
    }
    if (c.empty()) return false;
    size_t n = 1 + g.below(std::min<size_t>(3, c.size()));
    for (size_t i = 0; i < n; i++) {
        size_t k = g.below(c.size()); Task& t = w->tasks[c[k]];
        int kind;
        if (t.fib == 0 || !w->pokes || t.kind == LURK) kind = (int)g.below(2); // 0, 1: block on the same stream
        else kind = w->probes ? (int)g.below(6) : 2 + (int)g.below(4);         // 2.. events
        w->plan.push_back(Probe_{c[k], kind}); c.erase(c.begin() + k);
        if (c.empty()) break;
    }
    uint8_t one = 1; if (real_write(w->ctl_w, &one, 1) != 1) fail("harness: no control");
    w->planned_at = w->idles;
    return true;
}
// the readiness wait has just found nothing: no fiber may wait for something that is ready
inline void check_unseen() {
    for (auto& t : w->tasks) {
        if (!t.in_op || t.done || t.poked || t.aborting || t.racing || !t.slept) continue;
        End& e = w->ends[t.op_end];
        if (!e.closed && ready(e.fd, t.want)) fail("task %d sleeps although its descriptor is ready for %s", tid(t), t.want ? "writing" : "reading");
    }
}
inline bool idle(int round) {
    if (round > 0) check_unseen();
    w->idles++;
    if (++w->stale > 4000) fail("the readiness wait returns again and again, and no fiber gets anywhere");
    if (round == 0 && w->control >= 0 && g.chance(1, 3) && control()) return true;
    bool moved = false; uint64_t skip = round == 0 ? g.below(16) : 0;
    if (!(skip & 8)) moved |= connect_one();
    for (size_t i = 0; i < w->ends.size(); i++) if (w->ends[i].ext && !(skip >> (i % 3) & 1)) moved |= ext_step(w->ends[i]);
    return moved || round == 0;
}
inline bool wake_eintr() { return w->wakeintr && g.chance(1, 8); }
inline void setup_hooks() {
    sys.read = h_read; sys.write = h_write; sys.sendmsg = h_sendmsg; sys.recvmsg = h_recvmsg; sys.accept = h_accept; sys.idle = idle; sys.wait_eintr = wake_eintr;
}
inline void no_hooks() { sys = SysHooks{}; }

// ---- fibers
enum Res { OKAY, ABORTED, REFUSED, FAILED };
template<class F> Res op(Task& t, int end, int want, F f) {
    End& e = w->ends[end];
    t.in_op = true; t.want = want; t.op_end = end; t.got.clear(); t.slept = 0; e.in_op[want]++;
    unsigned i0 = t.interrupted; unsigned s0 = w->sleeps;
    status r = f();
    e.in_op[want]--; t.in_op = false; w->stale = 0;
    if (w->sleeps != s0) w->slept_fibers++;
    CHECK(!t.poked, "an operation that event %d interrupted returned %08x without calling the fiber's handler", t.event, r);
    if (t.interrupted != i0) g.log("task %d: interrupted %u times, %08x", tid(t), t.interrupted - i0, r);
    if (t.aborting) {
        t.aborting = false;
        CHECK(r == t.abort_with, "an operation ended by an event returned %08x, not %08x", r, t.abort_with);
        w->aborted++; return ABORTED;
    }
    if (r == STATUS_SUCCESS) return OKAY;
    if (r == (status)ERROR_PSOCK_DOUBLE_BLOCK_UNSUPPORTED) {
        CHECK(e.in_op[want] > 0, "a fiber was refused as a second %s, and no other fiber %s", want ? "writer" : "reader", want ? "writes" : "reads");
        w->refused++; return REFUSED;
    }
    g.log("task %d: %s returns %08x", tid(t), want ? "write" : "read", r);
    return FAILED;
}
inline bool peer_closed(int dir, bool writer) { Dir& d = w->dirs[dir]; int p = writer ? d.to : d.from; return p >= 0 && w->ends[p].closed; }
// a read of `need` bytes from position `pos` failed
inline void read_failed(Task& t, Dir& d, size_t pos, size_t need) {
    CHECK(w->ends[d.from].closed, "task %d: a read failed though the peer is connected", tid(t));
    CHECK(pos + need > d.sent.size(), "task %d: a read of %zu bytes failed though %zu had been sent", tid(t), need, d.sent.size() - pos);
    CHECK(d.taken == d.sent.size(), "task %d: a read failed before everything sent was delivered", tid(t));
}
inline void write_failed(Task& t, Dir& d) { CHECK(w->ends[d.to].closed, "task %d: a write failed though the peer is connected", tid(t)); }
inline size_t wire(const Val& v) { std::vector<uint8_t> e; encode(e, v); return e.size(); }
inline bool write_one(Task& t, int end, const Val& v) {
    Dir& d = w->dirs[w->ends[end].out]; size_t pos = d.sent.size();
    Res r = op(t, end, 1, [&] { return write_val(w->ends[end].ps, v); });
    if (r == FAILED) { write_failed(t, d); return false; }
    CHECK(r == OKAY, "a write was refused");
    CHECK(d.sent.size() == pos + wire(v), "a write of %s ended with %zu of its bytes written", describe(v).c_str(), d.sent.size() - pos);
    return true;
}
inline bool read_one(Task& t, int end, const Val& v) {
    Dir& d = w->dirs[w->ends[end].in]; size_t pos = d.taken, n = wire(v); Val got;
    Res r = op(t, end, 0, [&] { return read_val(w->ends[end].ps, w->a, v, got); });
    if (r == FAILED) { read_failed(t, d, pos, n); return false; }
    CHECK(r == OKAY, "a read was refused");
    check_equal(v, got);
    CHECK(d.taken == pos + n, "reading %s took %zu bytes", describe(v).c_str(), d.taken - pos);
    return true;
}
inline void do_write(Task& t) {
    End& e = w->ends[t.end]; Dir& d = w->dirs[e.out];
    if (t.mode == 0) { for (auto& v : d.vals) if (!write_one(t, t.end, v)) return; return; }
    if (t.mode == 3) { // one of several writers
        for (int i = 0; i < t.cap; i++) {
            uint8_t b = (uint8_t)(t.quit << 6 | (i & 63));
            Res r = op(t, t.end, 1, [&] { return rc_psock_write_raw_uint8(e.ps, b); });
            if (r == REFUSED) return;
            if (r == ABORTED) { i--; continue; }
            CHECK(r == OKAY, "a write failed though the peer is connected");
            CHECK(t.got.size() == 1 && t.got[0] == b, "a writer's byte was written %zu times", t.got.size());
            if (t.gate >= 0 && t.gated > 0 && g.coin()) {
                t.gated--; uint8_t x = 0;
                r = op(t, t.gate, 0, [&] { return rc_psock_read_raw_uint8(w->ends[t.gate].ps, &x); });
                CHECK(r == OKAY, "a gate failed");
            }
            if (g.chance(1, 3)) OK(rc_fiber_scheduler_run(w->s));
        }
        return;
    }
    while (d.sent.size() < d.plan.size()) {
        size_t pos = d.sent.size(), n = 1 + g.size(d.plan.size() - pos - 1);
        Res r = op(t, t.end, 1, [&] { return rc_psock_write_raw_data(e.ps, d.plan.data() + pos, n); });
        if (r == FAILED) { write_failed(t, d); return; }
        if (r == ABORTED) { CHECK(d.sent.size() < pos + n, "an interrupted write had written everything"); continue; }
        CHECK(r == OKAY, "a write was refused");
        CHECK(d.sent.size() == pos + n, "a write of %zu bytes ended with %zu written", n, d.sent.size() - pos);
    }
}
inline void do_read(Task& t) {
    End& e = w->ends[t.end]; Dir& d = w->dirs[e.in];
    auto same = [&](size_t pos, const uint8_t* p, size_t n) { return pos + n <= d.sent.size() && !memcmp(d.sent.data() + pos, p, n); };
    if (t.mode == 0) { for (auto& v : d.vals) if (!read_one(t, t.end, v)) return; }
    else if (t.mode == 3) { // one of several readers, until the stream ends
        for (;;) {
            if (t.gate >= 0 && t.gated > 0 && g.coin()) {
                t.gated--; uint8_t x = 0;
                Res r = op(t, t.gate, 0, [&] { return rc_psock_read_raw_uint8(w->ends[t.gate].ps, &x); });
                CHECK(r == OKAY || r == ABORTED, "a gate failed");
            }
            uint8_t x = 0;
            Res r = op(t, t.end, 0, [&] { return rc_psock_read_raw_uint8(e.ps, &x); });
            if (r == REFUSED) return;
            if (r == ABORTED) continue;
            if (r == FAILED) { read_failed(t, d, d.taken, 1); return; }
            CHECK(t.got.size() == 1 && t.got[0] == x, "a reader got %02x, the kernel gave it %zu bytes", x, t.got.size());
            if (g.chance(1, 4)) OK(rc_fiber_scheduler_run(w->s));
        }
    }
    else if (t.mode == 4) { // bytes, until the stream ends
        for (;;) {
            size_t pos = d.taken; uint8_t x = 0;
            Res r = op(t, t.end, 0, [&] { return rc_psock_read_raw_uint8(e.ps, &x); });
            if (r == ABORTED) continue;
            if (r == FAILED) { read_failed(t, d, pos, 1); return; }
            CHECK(r == OKAY, "a read was refused");
            CHECK(same(pos, &x, 1), "read byte %zu is not the one sent", pos);
        }
    }
    else {
        size_t end = std::min(d.plan.size(), t.quit);
        while (d.taken < end) {
            size_t pos = d.taken, n = 1 + g.size(end - pos - 1);
            if (t.mode == 1) {
                void* p = nullptr; size_t live = heap.live();
                Res r = op(t, t.end, 0, [&] { return rc_psock_read_raw_data(e.ps, w->a, &p, n); });
                if (r == FAILED) { CHECK(!p, "a failed read gave a buffer"); read_failed(t, d, pos, n); return; }
                if (r == ABORTED) { CHECK(!p, "an interrupted read gave a buffer"); CHECK(d.taken < pos + n, "an interrupted read had read everything"); continue; }
                (void)live;
                CHECK(r == OKAY && p, "a read was refused");
                CHECK(d.taken == pos + n, "a read of %zu bytes took %zu", n, d.taken - pos);
                CHECK(same(pos, (uint8_t*)p, n), "the %zu bytes read at %zu are not the ones sent", n, pos);
                OK(rc_allocator_reclaim(w->a, p));
            } else {
                t.buf.assign(n, 0xee); size_t got = n;
                status r = rc_psock_read_raw(e.ps, t.buf.data(), &got);
                if (r == STATUS_SUCCESS) {
                    CHECK(got > 0 && got <= n, "a read of at most %zu bytes gave %zu", n, got);
                    CHECK(d.taken == pos + got, "a read gave %zu bytes and took %zu", got, d.taken - pos);
                    CHECK(same(pos, t.buf.data(), got), "the %zu bytes read at %zu are not the ones sent", got, pos);
                } else if (r == (status)ERROR_PSOCK_READ_WOULD_BLOCK) {
                    CHECK(d.taken == pos, "a read that would block took bytes");
                    Res b = op(t, t.end, 0, [&] { return rc_psock_read_block(e.ps); });
                    CHECK(b == OKAY || b == ABORTED, "waiting for data was refused");
                } else { read_failed(t, d, pos, 1); return; }
            }
        }
        if (t.quit < d.plan.size()) return;
    }
    if (d.from >= 0 && (w->ends[d.from].closes || w->ends[d.from].cut)) { // the end of the stream
        for (;;) {
            uint8_t x; size_t pos = d.taken;
            Res r = op(t, t.end, 0, [&] { return rc_psock_read_raw_uint8(e.ps, &x); });
            if (r == ABORTED) continue;
            CHECK(r == FAILED, "a read past the end of the stream succeeded");
            read_failed(t, d, pos, 1); break;
        }
    }
}
inline void do_dialog(Task& t) {
    End& e = w->ends[t.end]; Dir &o = w->dirs[e.out], &i = w->dirs[e.in];
    size_t n = std::max(o.vals.size(), i.vals.size()); bool first = t.mode;
    for (size_t k = 0; k < n; k++) for (int h = 0; h < 2; h++) {
        if ((h == 0) == first) { if (k < o.vals.size() && !write_one(t, t.end, o.vals[k])) return; }
        else if (k < i.vals.size() && !read_one(t, t.end, i.vals[k])) return;
    }
}
inline void reg(int end) { w->byfd[w->ends[end].fd] = end; }
// releases a stream, sometimes while another descriptor still keeps its socket open
inline void drop(End& e) {
    struct stat st; int d = -1;
    if (w->keep && g.chance(1, 2) && !fstat(e.fd, &st) && S_ISSOCK(st.st_mode)) { d = dup(e.fd); CHECK(d >= 0, "harness: dup"); shutdown(d, SHUT_RDWR); w->dups.push_back(d); g.log("  its socket stays open elsewhere"); }
    w->byfd.erase(e.fd); e.closed = true; release_psock(e.ps);
}
inline void do_accept(Task& t) {
    for (int k = 0; k < t.cap; k++) {
        int fd = -1; struct sockaddr_un from; memset(&from, 0, sizeof from); socklen_t len = sizeof from;
        Res r = op(t, t.end, 0, [&] { return rc_psock_accept(w->ends[t.end].ps, &fd, (struct sockaddr*)&from, &len); });
        if (r == ABORTED) { CHECK(fd == -1, "an interrupted accept gave a descriptor"); k--; continue; }
        CHECK(r == OKAY, "an accept failed"); CHECK(fd >= 0, "accept gave no descriptor");
        CHECK(!w->queue.empty(), "accept gave a connection nobody made");
        Client& c = w->clients[w->queue.front()]; w->queue.pop_front(); w->accepted++;
        size_t want = offsetof(struct sockaddr_un, sun_path) + 1 + c.name.size();
        CHECK(from.sun_family == AF_UNIX && len == want && !memcmp(from.sun_path + 1, c.name.data(), c.name.size()), "accept gave another peer's address");
        Dir& in = w->dirs[w->ends[c.end].out]; Dir& out = w->dirs[w->ends[c.end].in];
        int ei = (int)w->ends.size(); w->ends.emplace_back(); End& e = w->ends.back();
        e.fd = fd; e.in = w->ends[c.end].out; e.out = w->ends[c.end].in; in.to = out.from = ei; e.owner = 0;
        rc_psock* p = fd_psock(w->a, fd); OK(rc_psock_create_wrap_async(&e.ps, w->a, w->fibs[e.owner].f, p));
        reg(ei);
        for (auto& v : in.vals) if (!read_one(t, ei, v)) fail("a connection ended early");
        for (auto& v : out.vals) if (!write_one(t, ei, v)) fail("a connection ended early");
        drop(w->ends[ei]);
    }
}
inline void do_send(Task& t) {
    End& e = w->ends[t.end]; Dir& d = w->dirs[e.out];
    for (size_t k = 0; k < d.plan.size(); k++) {
        Res r = op(t, t.end, 1, [&] { return rc_psock_write_raw_descriptor(e.ps, w->files[d.plan[k]]); });
        if (r == ABORTED) { CHECK(d.sent.size() == k, "an interrupted send had sent"); k--; continue; }
        CHECK(r == OKAY, "passing a descriptor failed"); CHECK(d.sent.size() == k + 1, "passing a descriptor sent %zu messages", d.sent.size() - k);
    }
}
inline void do_recv(Task& t) {
    End& e = w->ends[t.end]; Dir& d = w->dirs[e.in];
    for (size_t k = 0; k < d.plan.size(); k++) {
        int fd = -1;
        Res r = op(t, t.end, 0, [&] { return rc_psock_read_raw_descriptor(e.ps, &fd); });
        if (r == ABORTED) { CHECK(d.taken == k, "an interrupted receive had received"); k--; continue; }
        CHECK(r == OKAY, "receiving a descriptor failed"); CHECK(d.taken == k + 1, "receiving a descriptor took %zu messages", d.taken - k);
        struct stat x, y; CHECK(!fstat(fd, &x) && !fstat(w->files[d.plan[k]], &y), "no descriptor was received");
        CHECK(x.st_ino == y.st_ino && x.st_dev == y.st_dev, "descriptor %zu received is another file's", k);
        close(fd);
    }
}
inline void do_control(Task& t) {
    for (;;) {
        uint8_t x = 0; End& c = w->ends[t.end];
        Res r = op(t, t.end, 0, [&] { return rc_psock_read_raw_uint8(c.ps, &x); });
        CHECK(r == OKAY, "the control stream failed");
        if (!x) return;
        while (!w->plan.empty()) {
            // the readiness wait may hand out what is ready in several steps: then the others have run meanwhile, and the plan is stale.
            if (w->idles != w->planned_at) { w->plan.clear(); break; }
            Probe_ p = w->plan.back(); w->plan.pop_back(); Task& v = w->tasks[p.task]; End& e = w->ends[v.op_end];
            CHECK(v.in_op && !v.done, "task %d was resumed though its descriptor was not ready", p.task);
            if (p.kind < 2) {
                bool plain = v.want == 0 && v.kind != ACCEPT && v.kind != RECV && !ready(e.fd, v.want); // (a write may fit although the socket does not count as writable)
                int end = v.op_end, want = v.want; uint8_t b = 0;
                w->byfd.erase(e.fd);
                status s = p.kind == 1 && plain ? rc_psock_read_raw_uint8(e.ps, &b) : want ? rc_psock_write_block(e.ps) : rc_psock_read_block(e.ps);
                reg(end); w->refused++;
                g.log("a second %s on the stream of task %d: %08x", want ? "writer" : "reader", p.task, s);
                CHECK(s == (status)ERROR_PSOCK_DOUBLE_BLOCK_UNSUPPORTED, "a second fiber blocked for %s: %08x", want ? "writing" : "reading", s);
                continue;
            }
            v.poked = true; v.prm = nullptr;
            Fib& o = w->fibs[e.owner]; rc_fiber* target = w->fibs[v.fib].f;
            if (o.policy == NONE) { v.poked = false; v.aborting = true; v.abort_with = ERROR_FIBER_NO_UNEXPECTED_HANDLER; w->unhandled++; v.slept = 0; }
            w->pokes_done++; v.interrupted++;
            if (p.kind < 4) {
                v.id = POKE; v.event = (int)g.below(g.coin() ? 0x10000 : 4); v.prm = (void*)(uintptr_t)g.below(1000);
                if (g.chance(1, 4)) v.event = v.want ? FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_WRITE : FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_READ;
                PokeReq q = {target, v.event, v.prm, p.kind == 2};
                const rc_rcpr_uuid* id; int ev; void* prm;
                g.log("event %d of a user discipline to task %d (%s)", v.event, p.task, v.want ? "writing" : "reading");
                OK(rc_fiber_discipline_yield(w->poke, 0, &q, &id, &ev, &prm));
                CHECK(ev == 99, "the controller was resumed by something else");
            } else {
                v.id = FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE; v.event = p.kind == 4 ? FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST : FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_TERMINATION_REQUEST;
                g.log("%s request to task %d (%s)", p.kind == 4 ? "quiesce" : "terminate", p.task, v.want ? "writing" : "reading");
                OK(p.kind == 4 ? rc_disciplined_fiber_scheduler_send_quiesce_request_to_fiber(w->s, target) : rc_disciplined_fiber_scheduler_send_terminate_request_to_fiber(w->s, target));
            }
        }
    }
}
inline status on_event(void* ctx, rc_fiber* f, const rc_rcpr_uuid* id, int ev, void* prm, const rc_rcpr_uuid* eid, int eev) {
    Fib* o = (Fib*)ctx; Task* t = current();
    CHECK(t, "an event handler was called on an unknown fiber");
    CHECK(t->poked, "task %d's handler was called without an event", tid(*t));
    End& e = w->ends[t->op_end];
    CHECK(o == &w->fibs[e.owner], "the handler called is not the one registered for the stream's fiber");
    CHECK(f == o->f, "the handler was given another fiber");
    CHECK(!memcmp(id, &t->id, sizeof *id) && ev == t->event && prm == t->prm, "the handler was given event %d and parameter %p, not %d and %p", ev, prm, t->event, t->prm);
    CHECK(!memcmp(eid, &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE, sizeof *eid) && eev == (t->want ? FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_WRITE : FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_READ), "the handler was told that event %d was awaited", eev);
    t->poked = false; t->slept = 0;
    if (o->policy == MIXED && g.coin()) {
        static const status S[] = {STATUS_CODE(1, 0x7f, 1), ERROR_PSOCK_READ_WOULD_BLOCK, ERROR_PSOCK_WRITE_WOULD_BLOCK, ERROR_PSOCK_READ_EOF, STATUS_CODE(1, 0x7f, 0xfff)};
        t->aborting = true; return t->abort_with = S[g.pick({4, 1, 1, 1, 1})];
    }
    w->retried++;
    return STATUS_SUCCESS;
}
inline status wrong_handler(void*, rc_fiber*, const rc_rcpr_uuid*, int, void*, const rc_rcpr_uuid*, int) { fail("a replaced handler was called"); }
inline void body(Task& t) {
    switch (t.kind) {
    case WRITE: do_write(t); break;
    case READ: do_read(t); break;
    case DIALOG: do_dialog(t); break;
    case ACCEPT: do_accept(t); break;
    case SEND: do_send(t); break;
    case RECV: do_recv(t); break;
    case CONTROL: do_control(t); t.done = true; return;
    case LURK: { uint8_t x; status r = rc_psock_read_raw_uint8(w->ends[t.end].ps, &x); fail("a read on a silent stream returned %08x", r); }
    }
    t.done = true;
    g.log("task %d done", tid(t));
    End& e = w->ends[t.end];
    if (--e.users == 0 && e.closes) { g.log("  its stream is closed"); drop(e); }
    if (--w->left == 0) {
        w->stopping = true; uint8_t b = 0;
        if (w->control >= 0) if (real_write(w->ctl_w, &b, 1) != 1) fail("harness: no control");
        if (real_write(w->done_w, &b, 1) != 1) fail("harness: no pipe");
    }
}
inline status entry(void* ctx) {
    Task& t = w->tasks[(intptr_t)ctx];
    if (t.kind == LURK) { t.in_op = true; t.want = 0; t.op_end = t.end; t.racing = false; }
    body(t);
    return STATUS_SUCCESS;
}

// ---- building a case
inline int new_end(int fd, bool ext) {
    w->ends.emplace_back(); End& e = w->ends.back(); e.fd = fd; e.ext = ext;
    if (ext) fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK);
    return (int)w->ends.size() - 1;
}
inline int new_dir(int from, int to) {
    w->dirs.emplace_back(); int d = (int)w->dirs.size() - 1; w->dirs[d].from = from; w->dirs[d].to = to;
    w->ends[from].out = d; w->ends[to].in = d; return d;
}
inline Task& new_task(int kind, int end, int mode = 0) {
    w->tasks.emplace_back(); Task& t = w->tasks.back(); t.kind = kind; t.end = end; t.mode = mode; w->ends[end].users++;
    t.strict = kind == DIALOG || ((kind == READ || kind == WRITE) && mode == 0);
    return t;
}
inline void fill(Dir& d, size_t most, size_t biggest) {
    size_t n = g.below(most + 1);
    for (size_t i = 0; i < n; i++) { d.vals.push_back(gen_val(biggest)); encode(d.plan, d.vals.back()); }
}
inline void fill_big(Dir& d) {
    Val v; v.kind = DATA; v.boxed = g.coin(); v.d = g.bulk(20000 + g.below(250000));
    d.vals.push_back(v); encode(d.plan, v); g.label("big");
}
inline void small_buffers(int fd, bool pipe) {
    if (pipe) { if (g.coin()) fcntl(fd, F_SETPIPE_SZ, 4096); return; }
    int n = 4608; if (g.coin()) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &n, sizeof n);
}
inline void two(int* fds, bool pipes) { if (pipes ? pipe(fds) : socketpair(AF_UNIX, SOCK_STREAM, 0, fds)) fail("harness: no descriptors"); if (pipes) std::swap(fds[0], fds[1]); small_buffers(fds[0], pipes); if (!pipes) small_buffers(fds[1], false); }
inline void add_pair() {
    int fd[2]; two(fd, false);
    int A = new_end(fd[0], false), B = new_end(fd[1], g.coin());
    w->streams++;
    int ab = new_dir(A, B), ba = new_dir(B, A); size_t biggest = g.chance(1, 4) ? 6000 : 300;
    for (int d : {ab, ba}) { fill(w->dirs[d], 6, biggest); if (g.chance(1, 40)) fill_big(w->dirs[d]); }
    bool dialog = g.chance(1, 3);
    int end = (int)g.pick({3, 2, 2, 2}); // nothing, one side closes, the external side is cut, a reader quits
    if (dialog) {
        bool first = g.coin();
        new_task(DIALOG, A, first); if (!w->ends[B].ext) new_task(DIALOG, B, !first);
        if (end) w->ends[g.coin() ? A : B].closes = true;
        return;
    }
    auto tasks = [&](int e) {
        new_task(WRITE, e, (int)g.below(2));
        return &new_task(READ, e, (int)g.below(3));
    };
    if (w->ends[B].ext && end != 3) {
        int o = w->ends[B].order = (int)g.below(3);
        if (o && g.coin()) { Val v; v.kind = DATA; v.d = g.bulk(6000 + g.below(20000)); Dir& d = w->dirs[o == 1 ? ab : ba]; d.vals.push_back(v); encode(d.plan, v); }
    }
    Task* ra = tasks(A); Task* rb = w->ends[B].ext ? nullptr : tasks(B);
    if (end == 1) w->ends[g.coin() ? A : B].closes = true;
    else if (end >= 2 && w->ends[B].ext && end == 2) {
        End& e = w->ends[B]; e.cut = true; w->cuts++;
        e.feed = g.below(w->dirs[ba].plan.size() + 1); e.drain = g.below(w->dirs[ab].plan.size() + 1);
    } else if (end == 3) {
        Task* r = rb && g.coin() ? rb : ra; Dir& d = w->dirs[w->ends[r->end].in];
        if (!d.plan.empty()) { r->mode = 1 + (int)g.below(2); r->strict = false; r->quit = g.below(d.plan.size()); w->cuts++; }
        w->ends[r->end].closes = true;
    }
}
inline void add_pipe() {
    int fd[2]; two(fd, true); int k = (int)g.below(3);
    int A = new_end(fd[0], k == 1), B = new_end(fd[1], k == 2);
    int d = new_dir(A, B); w->streams++;
    fill(w->dirs[d], 8, g.chance(1, 4) ? 9000 : 300); if (g.chance(1, 40)) fill_big(w->dirs[d]);
    Task* wr = k == 1 ? nullptr : &new_task(WRITE, A, (int)g.below(2)); Task* rd = k == 2 ? nullptr : &new_task(READ, B, (int)g.below(3)); (void)wr;
    size_t n = w->dirs[d].plan.size();
    switch (g.pick({3, 3, 2, 2})) {
    case 1: w->ends[A].closes = true; break;
    case 2: if (k == 1) { w->ends[A].cut = true; w->ends[A].feed = g.below(n + 1); w->cuts++; } else if (k == 2) { w->ends[B].cut = true; w->ends[B].drain = g.below(n + 1); w->cuts++; } break;
    case 3: if (rd && n) { rd->mode = 1 + (int)g.below(2); rd->strict = false; rd->quit = g.below(n); w->cuts++; w->ends[B].closes = true; } break;
    }
}
inline void add_files() {
    int fd[2]; if (socketpair(AF_UNIX, SOCK_DGRAM, 0, fd)) fail("harness: no sockets");
    int A = new_end(fd[0], false), B = new_end(fd[1], false); int d = new_dir(A, B); w->streams++; g.label("descriptors");
    while (w->files.size() < 3) { int f = memfd_create("f", 0); if (f < 0) fail("harness: memfd"); w->files.push_back(f); }
    size_t n = 1 + g.below(24); for (size_t i = 0; i < n; i++) w->dirs[d].plan.push_back((uint8_t)g.below(3));
    w->dirs[d].planned = false;
    new_task(SEND, A); new_task(RECV, B);
}
inline void add_listener() {
    int l = socket(AF_UNIX, SOCK_STREAM, 0); struct sockaddr_un any = {}; any.sun_family = AF_UNIX;
    if (l < 0 || bind(l, (struct sockaddr*)&any, sizeof any.sun_family) || listen(l, 64)) fail("harness: no listener");
    w->listener = new_end(l, false); w->streams++; g.label("accept");
    size_t n = 1 + g.below(5); static unsigned serial;
    for (size_t i = 0; i < n; i++) {
        w->ends.emplace_back(); int c = (int)w->ends.size() - 1; w->ends[c].ext = true;
        for (int k = 0; k < 2; k++) { w->dirs.emplace_back(); int d = (int)w->dirs.size() - 1; (k ? w->ends[c].in : w->ends[c].out) = d; (k ? w->dirs[d].to : w->dirs[d].from) = c; fill(w->dirs[d], 3, 200); }
        char nm[64]; snprintf(nm, sizeof nm, "vp-%d-%u-%s", (int)getpid(), serial++, std::string(g.below(20), 'x').c_str());
        w->clients.push_back(Client{c, nm, false});
    }
    Task& t = new_task(ACCEPT, w->listener); t.cap = (int)n;
}
inline void add_racers(bool writers) {
    int fd[2]; two(fd, !writers && g.coin());
    if (writers) { int n = 4608; setsockopt(fd[0], SOL_SOCKET, SO_SNDBUF, &n, sizeof n); }
    bool ext = g.coin();
    int A = new_end(fd[0], !writers && ext), B = new_end(fd[1], writers && ext); int d = new_dir(A, B); w->streams++;
    g.label(writers ? "several writers" : "several readers");
    int n = 2 + (int)g.below(2); w->ends[A].closes = true;
    auto gate = [&](Task& t) {
        if (!g.coin()) return;
        int gd[2]; two(gd, true); int ga = new_end(gd[0], true), gb = new_end(gd[1], false); int x = new_dir(ga, gb);
        t.gate = gb; t.gated = 1 + (int)g.below(20); w->dirs[x].plan = g.bulk(t.gated);
    };
    if (writers) {
        w->dirs[d].planned = false;
        for (int i = 0; i < n; i++) { Task& t = new_task(WRITE, A, 3); t.quit = (size_t)i; t.cap = 1 + (int)g.below(60); t.racing = true; gate(t); }
        if (!ext) new_task(READ, B, 4);
    } else {
        Dir& D = w->dirs[d]; D.plan = g.bytes(1 + g.below(40));
        if (!ext) new_task(WRITE, A, 1);
        for (int i = 0; i < n; i++) {
            Task& t = new_task(READ, B, 3); t.racing = true;
            gate(t);
        }
    }
}
inline void add_lurker() {
    int fd[2]; two(fd, true); int A = new_end(fd[0], true), B = new_end(fd[1], false); new_dir(A, B); w->streams++; new_task(LURK, B); g.label("silent");
}
inline int open_fds() { int n = 0; for (int i = 0; i < 800; i++) if (fcntl(i, F_GETFD) >= 0) n++; return n; }
inline void build_and_run(World& W, bool pokes) {
    w = &W; shared_heap = true; Crowded high(g.chance(1, 24));
    rc_allocator* a = w->a = make_alloc(); int fds0 = open_fds();
    w->pokes = pokes; w->probes = g.coin();
    if (!pokes && g.chance(1, 4)) w->probes = true;
    w->eintr = g.chance(1, 3); w->spurious = g.chance(1, 4); w->partial = g.coin(); w->wakeintr = g.chance(1, 3); w->keep = g.chance(1, 3);
    int n = 1 + (int)g.below(5);
    for (int i = 0; i < n; i++) switch (g.pick({6, 5, 1, 2, (unsigned)!pokes, (unsigned)!pokes, 1})) {
        case 0: add_pair(); break;
        case 1: add_pipe(); break;
        case 2: add_files(); break;
        case 3: if (w->listener < 0) add_listener(); else add_pair(); break;
        case 4: add_racers(false); break;
        case 5: add_racers(true); break;
        default: add_lurker(); break;
    }
    // the done and control streams
    int done[2], ctl[2]; if (pipe(done) || pipe(ctl)) fail("harness: no pipe");
    w->done_w = done[1]; w->ctl_w = ctl[1];
    int main_end = new_end(done[0], false);
    if (w->probes || pokes) { int e = new_end(ctl[0], false); w->control = (int)w->tasks.size(); new_task(CONTROL, e); } else { close(ctl[0]); }
    OK(rc_fiber_scheduler_create_with_disciplines(&w->s, a));
    w->fibs.emplace_back(); w->fibs[0].policy = RETRY; OK(rc_disciplined_fiber_scheduler_main_fiber_get(&w->fibs[0].f, w->s));
    if (pokes) {
        rc_fiber_scheduler_discipline_callback_fn cb[1] = {&poke_handler};
        OK(rc_fiber_scheduler_discipline_create(&w->poke, &POKE, a, &w->s, 1, cb));
        OK(rc_fiber_scheduler_discipline_add(w->s, w->poke));
    }
    if (g.chance(1, 3)) { int k = (int)g.below(w->tasks.size()); if (w->tasks[k].kind != LURK && w->tasks[k].kind != CONTROL) w->main_task = k; }
    for (size_t i = 0; i < w->tasks.size(); i++) {
        Task& t = w->tasks[i]; if (t.kind != LURK && t.kind != CONTROL) w->left++;
        if ((int)i == w->main_task) { t.fib = 0; w->fibs[0].task = (int)i; w->byfiber[w->fibs[0].f] = (int)i; continue; }
        w->fibs.emplace_back(); Fib& f = w->fibs.back(); t.fib = (int)w->fibs.size() - 1; f.task = (int)i;
        f.policy = (int)g.pick({2, 3, 4}); // no handler, retry, either
        OK(rc_fiber_create(&f.f, a, w->s, 65536, (void*)(intptr_t)i, &entry));
        w->byfiber[f.f] = (int)i;
    }
    for (auto& f : w->fibs) if (f.policy != NONE) {
        static Fib nobody;
        if (g.chance(1, 6)) OK(rc_fiber_unexpected_event_callback_add(f.f, &wrong_handler, &nobody));
        // the same handler, first with another fiber's context
        if (g.chance(1, 4)) OK(rc_fiber_unexpected_event_callback_add(f.f, &on_event, &w->fibs[g.below(w->fibs.size())]));
        OK(rc_fiber_unexpected_event_callback_add(f.f, &on_event, &f));
    }
    std::vector<bool> strict(w->ends.size());
    for (auto& t : w->tasks) if (t.strict || t.kind == CONTROL) strict[t.end] = true;
    for (size_t i = 0; i < w->ends.size(); i++) {
        End& e = w->ends[i]; if (e.ext || e.fd < 0) continue;
        e.owner = (int)g.below(w->fibs.size());
        if (strict[i] && w->fibs[e.owner].policy != RETRY) e.owner = 0;
        rc_psock* p = fd_psock(a, e.fd); OK(rc_psock_create_wrap_async(&e.ps, a, w->fibs[e.owner].f, p));
        CHECK(e.ps && e.ps != p, "no stream was made");
        if ((int)i != main_end && (w->control < 0 || (int)i != w->tasks[w->control].end)) reg((int)i);
    }
    for (size_t i = 0; i < w->tasks.size(); i++) {
        Task& t = w->tasks[i];
        g.log("task %zu: %s on end %d (%s) mode %d, %zu bytes in, %zu out%s%s", i, (const char*[]){"write", "read", "dialog", "accept", "send", "receive", "silent", "control"}[t.kind], t.end, w->ends[t.end].closes ? "closes" : "stays", t.mode, w->ends[t.end].in >= 0 ? w->dirs[w->ends[t.end].in].plan.size() : 0, w->ends[t.end].out >= 0 ? w->dirs[w->ends[t.end].out].plan.size() : 0, t.quit != (size_t)-1 ? " quits" : "", (int)i == w->main_task ? " (main fiber)" : "");
        if ((int)i != w->main_task) OK(rc_fiber_scheduler_add(w->s, w->fibs[t.fib].f));
    }
    if (w->main_task >= 0) { body(w->tasks[w->main_task]); w->byfiber.erase(w->fibs[0].f); }
    uint8_t b = 0; bool any = w->left > 0 || w->main_task >= 0; for (auto& t : w->tasks) if (t.kind != LURK && t.kind != CONTROL) any = true;
    if (any) { status r = rc_psock_read_raw_uint8(w->ends[main_end].ps, &b); CHECK(r == STATUS_SUCCESS, "the main fiber's read failed with %08x", r); }
    CHECK(w->left == 0, "the main fiber was resumed though its descriptor was not ready");
    for (auto& t : w->tasks) if (t.kind != LURK && t.kind != CONTROL) CHECK(t.done, "a fiber is not done");
    for (auto& d : w->dirs) if (!d.planned && d.from >= 0) {
        int next[4] = {0, 0, 0, 0};
        for (auto& t : w->tasks) if (t.kind == WRITE && t.mode == 3 && w->ends[t.end].out >= 0 && &w->dirs[w->ends[t.end].out] == &d) { for (uint8_t x : d.sent) if (x >> 6 == (int)t.quit) CHECK((x & 63) == next[t.quit]++ % 64, "writer %zu's bytes are out of order", t.quit); }
    }
    for (size_t i = 0; i < w->ends.size(); i++) {
        End& e = w->ends[i]; if (e.closed || e.fd < 0) continue;
        if (e.ext) close(e.fd); else drop(e);
    }
    OK(rc_resource_release(rc_fiber_scheduler_resource_handle(w->s)));
    free_alloc(a);
    for (int f : w->files) close(f);
    for (int f : w->dups) close(f);
    close(done[1]); close(ctl[1]);
    CHECK(open_fds() == fds0, "descriptors were leaked or closed: %d open before, %d after", fds0, open_fds());
}
} } // namespace vp::as
