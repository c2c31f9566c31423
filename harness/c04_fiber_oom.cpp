// C04: running out of memory in the fiber runtime.
//
// Three kinds of cases.  Programs: fibers of one scheduler carry out
// messaging, condition, management and scheduling calls, each under a plan of
// failing allocations, and a model says who must run, what each call must
// return and what a failing call must have left alone.  Construction: every
// constructor of the runtime is swept over its failing positions.  Streams:
// fibers sleep in asynchronous reads and writes while memory runs out at their
// wake-ups.
#include "rc.hpp"
#include "streams.hpp"
#include <functional>
#include <signal.h>
#include <sys/resource.h>
namespace vp {
const char* const PROPERTY = "C04";
const char* const RULE = "a case is a program of up to 120 calls by up to 8 fibers (mailboxes, messages, conditions, adding and stopping fibers, management events and requests, disciplines, yielding, release), or a sweep of failing positions over the runtime's constructors, or up to 12 (at times 1100) fibers asleep in asynchronous reads and writes; allocations, stack mappings and polling descriptors fail by plan; a model checks results, wake-ups, contents and ownership; non-trivial = at least two calls or wake-ups failed for want of memory while other fibers were at work";
const std::vector<Probe> PROBES;
void setup() { signal(SIGPIPE, SIG_IGN); struct rlimit r; if (!getrlimit(RLIMIT_NOFILE, &r) && r.rlim_cur < 8192) { r.rlim_cur = r.rlim_max < 8192 ? r.rlim_max : 8192; setrlimit(RLIMIT_NOFILE, &r); } }
namespace {
int fails;
// ---------------------------------------------------------------- programs
constexpr int MAXF = 9, NONE = -1;
enum Op { RUN, ADD, STOP, BOX_NEW, BOX_CLOSE, SEND, RECEIVE, COND_NEW, COND_CLOSE, WAIT, ONE, ALL, ASK, ASK_ALL, EVENTS, OWN };
struct Msg { rc_message* m; Item* payload; uint64_t ret; bool held; };
struct Box { uint64_t addr; bool open; std::deque<int> q; int sleeper; };
struct Cond { uint64_t h; bool open; std::deque<int> q; };
struct Disc { rc_fiber_scheduler_discipline* d; bool in; rc_rcpr_uuid id; int n; };
struct Fib {
    rc_fiber* f; bool in, started, done, gone, queued;
    Op asleep;             // RUN: not asleep; else RECEIVE, WAIT or EVENTS
    int at;                // the box or condition
    int msg; bool woken, asked, maybe; // what is on its way to it
    int ev_kind, ev_fib;   // management event on its way: 0 none, 1 add, 2 stop
    uint64_t hits;
};
struct World {
    rc_allocator* a; rc_fiber_scheduler* s; rc_fiber_scheduler_discipline *md, *cd;
    std::deque<Msg> msgs; std::deque<Box> boxes; std::deque<Cond> conds; std::deque<Disc> discs;
    Fib fib[MAXF]; int nf, budget, quiet, down, manager; bool terminate; int others;
    bool pending; Op op; int who, arg, arg2;
};
World* w;
status entry(void*); status manager_entry(void*);

void arm() {
    if (w->down > 0) { w->down--; heap.arm_from(0); return; }
    switch (g.pick({8, 6, 3, 2, 1})) {
    case 0: heap.arm_from(1000000); return;
    case 1: heap.arm_nth(g.below(5)); return;
    case 2: heap.arm_from(g.below(4)); return;
    case 3: heap.arm_pair(g.below(3), 1 + g.below(2)); return;
    default: w->down = (int)g.below(6); heap.arm_from(0);
    }
}
void no_arm() { heap.arm_from(1000000); }
void enqueue(int c) { CHECK(!w->fib[c].queued, "harness: fiber %d queued twice", c); w->fib[c].queued = true; }
void wake(int c) { Fib& f = w->fib[c]; f.queued = true; }
void tell_manager(int kind, int f) {
    if (w->manager == NONE || w->fib[w->manager].asleep != EVENTS) return;
    Fib& m = w->fib[w->manager]; if (m.queued) return;
    m.ev_kind = kind; m.ev_fib = f; m.asleep = RUN; enqueue(w->manager);
}
// what the call under way does, now that it is known whether memory ran out.
void take_effect(bool ok) {
    int c = w->who; Fib& me = w->fib[c];
    if (!ok) {
        fails++; if (w->nf > 2) w->others++;
        switch (w->op) {
        case ONE: case ALL:
            if (w->arg < 0) break;
            for (int i : w->conds[w->arg].q) { w->fib[i].maybe = true; if (w->op == ONE) break; }
            w->quiet = c + 1; break;
        case ASK_ALL:
            for (int i = 1; i < w->nf; i++) if (i != c && i != w->manager && w->fib[i].started && !w->fib[i].done) w->fib[i].maybe = true;
            w->quiet = c + 1; break;
        default: break;
        }
        return;
    }
    switch (w->op) {
    case RUN: case BOX_NEW: case COND_NEW: case OWN: enqueue(c); break;
    case ADD: enqueue(c); w->fib[w->arg].in = true; enqueue(w->arg); tell_manager(1, w->arg); break;
    case STOP: me.done = true; tell_manager(2, c); break;
    case BOX_CLOSE: { enqueue(c); if (w->arg < 0) break; w->boxes[w->arg].open = false; w->boxes[w->arg].sleeper = NONE; break; }
    case COND_CLOSE: { enqueue(c); if (w->arg < 0) break; w->conds[w->arg].open = false; w->conds[w->arg].q.clear(); break; }
    case SEND: {
        enqueue(c); if (w->arg < 0) break;
        Box& b = w->boxes[w->arg]; w->msgs[w->arg2].held = false;
        if (b.sleeper == NONE) b.q.push_back(w->arg2);
        else { w->fib[b.sleeper].msg = w->arg2; enqueue(b.sleeper); b.sleeper = NONE; }
        break;
    }
    case RECEIVE: {
        if (w->arg < 0 || !w->boxes[w->arg].q.empty() || w->boxes[w->arg].sleeper != NONE) { enqueue(c); break; }
        w->boxes[w->arg].sleeper = c; me.asleep = RECEIVE; me.at = w->arg; break;
    }
    case WAIT: { if (w->arg < 0) { enqueue(c); break; } w->conds[w->arg].q.push_back(c); me.asleep = WAIT; me.at = w->arg; break; }
    case ONE: case ALL:
        enqueue(c); if (w->arg < 0) break;
        for (auto& q = w->conds[w->arg].q; !q.empty();) { int i = q.front(); q.pop_front(); w->fib[i].woken = true; enqueue(i); if (w->op == ONE) break; }
        break;
    case ASK: { enqueue(c); Fib& t = w->fib[w->arg]; if (t.started && !t.done) { t.asked = true; enqueue(w->arg); } break; }
    case ASK_ALL:
        enqueue(c);
        for (int i = 1; i < w->nf; i++) if (i != c && i != w->manager && w->fib[i].started && !w->fib[i].done) { w->fib[i].asked = true; enqueue(i); }
        break;
    case EVENTS: me.asleep = EVENTS; break;
    }
}
// code of fiber c runs again (or for the first time).
void resumed(int c) {
    uint64_t hits = heap.hits(); heap.disarm();
    Fib& me = w->fib[c];
    if (w->pending) {
        w->pending = false; w->fib[w->who].hits = hits;
        take_effect(hits == 0);
        if (hits) {
            if (w->who == c) return; // the call failed; the others are yet to run
            CHECK(w->op != STOP, "memory ran out while fiber %d stopped", w->who);
            wake(w->who); // a failing call may let others run first
        }
    }
    CHECK(me.queued || me.maybe, "fiber %d runs though nothing made it run", c);
    me.queued = false;
}
void begin(int c, Op op, int arg = NONE, int arg2 = NONE, bool armed = true) {
    CHECK(!w->pending, "harness: nested call");
    w->pending = true; w->op = op; w->who = c; w->arg = arg; w->arg2 = arg2; w->fib[c].hits = 0;
    if (armed) arm(); else no_arm();
}
// the call has returned to fiber c; tells whether it failed for want of memory.
bool failed(int c, status r, const char* what) {
    resumed(c);
    Fib& me = w->fib[c];
    if (!me.hits) return false;
    g.log("[%d] %s failed for want of memory (%08x)", c, what, (unsigned)r);
    CHECK(r != STATUS_SUCCESS, "%s by fiber %d says it worked although an allocation failed", what, c);
    return true;
}
void one_turn(int c) { begin(c, RUN, NONE, NONE, false); status r = rc_fiber_scheduler_run(w->s); resumed(c); CHECK(r == STATUS_SUCCESS, "a fiber's turn failed with %08x", r); }
// nobody acts while the effects of such a call are not yet known.
void hold(int c) { while (w->quiet && w->quiet != c + 1) one_turn(c); }
void run_unarmed(int c) { one_turn(c); hold(c); }
// after a call over several fibers failed, those it reached get to run.
void settle(int c) {
    if (w->quiet != c + 1) return;
    for (int i = 0; i < 3; i++) one_turn(c);
    for (int i = 0; i < w->nf; i++) w->fib[i].maybe = false;
    w->quiet = 0;
}
int find_box(uint64_t a) { for (size_t i = 0; i < w->boxes.size(); i++) if (w->boxes[i].addr == a) return (int)i; return NONE; }
int find_cond(uint64_t h) { for (size_t i = 0; i < w->conds.size(); i++) if (w->conds[i].h == h) return (int)i; return NONE; }
int any_held() { int n = 0; for (auto& m : w->msgs) n += m.held; if (!n) return NONE; n = (int)g.below(n); for (size_t i = 0; i < w->msgs.size(); i++) if (w->msgs[i].held && !n--) return (int)i; return NONE; }
int any_box() { if (w->boxes.empty()) return NONE; size_t n = w->boxes.size(), k = g.below(n); if (!w->boxes[k].open && g.chance(3, 4)) for (size_t i = 0; i < n; i++) if (w->boxes[(k + i) % n].open) return (int)((k + i) % n); return (int)k; }
int any_cond() { if (w->conds.empty()) return NONE; size_t n = w->conds.size(), k = g.below(n); if (!w->conds[k].open && g.chance(3, 4)) for (size_t i = 0; i < n; i++) if (w->conds[(k + i) % n].open) return (int)((k + i) % n); return (int)k; }
void check_held(int i) {
    Msg& m = w->msgs[i];
    CHECK(heap.owns(m.m), "message %d is gone although the program owns it", i);
    CHECK(rc_message_payload(m.m, false) == (m.payload ? res(m.payload) : nullptr), "message %d no longer has its payload", i);
    CHECK(rc_message_return_address(m.m) == m.ret, "message %d has another return address", i);
    if (m.payload) CHECK(!m.payload->released, "the payload of message %d was released while the program owns it", i);
}
status handler_next(void*, rc_fiber* y, int, void* p) { return rc_disciplined_fiber_scheduler_set_next_fiber_to_run(w->s, y, (const rc_rcpr_uuid*)p, 7, p); }
const rc_rcpr_uuid OWN_ID = {{0x72, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}};
status own(rc_fiber_scheduler_discipline* d) {
    const rc_rcpr_uuid* id = nullptr; int e = 0; void* p = nullptr;
    status r = rc_fiber_discipline_yield(d, 0, (void*)&OWN_ID, &id, &e, &p);
    if (r == STATUS_SUCCESS) CHECK(id == &OWN_ID && e == 7 && p == (void*)&OWN_ID, "a discipline's yield resumed with another event");
    return r;
}
// an immediate second try, at times.
template <class F> void again(int c, status r, const char* what, F f) {
    if (r == STATUS_SUCCESS || !g.coin()) return;
    g.log("[%d] %s again", c, what);
    int down = w->down; w->down = 0; f(); w->down = down;
}

void do_add(int c, bool manager);
void box_new(int c, bool armed) {
    uint64_t a = 0; begin(c, BOX_NEW, NONE, NONE, armed); status r = rc_mailbox_create(&a, w->md);
    bool f = failed(c, r, "creating a mailbox");
    if (!f) { g.log("[%d] mailbox %llu", c, (unsigned long long)a); CHECK(r == STATUS_SUCCESS, "creating a mailbox failed with %08x", r); CHECK(a && find_box(a) < 0, "address %llu was given out twice", (unsigned long long)a); w->boxes.push_back(Box{a, true, {}, NONE}); }
    else if (armed && g.coin()) box_new(c, false);
}
void cond_new(int c, bool armed) {
    uint64_t h = 0; begin(c, COND_NEW, NONE, NONE, armed); status r = rc_conditional_create(&h, w->cd);
    bool f = failed(c, r, "creating a condition");
    if (!f) { g.log("[%d] condition %llu", c, (unsigned long long)h); CHECK(r == STATUS_SUCCESS, "creating a condition failed with %08x", r); CHECK(h && find_cond(h) < 0, "handle %llu was given out twice", (unsigned long long)h); w->conds.push_back(Cond{h, true, {}}); }
    else if (armed && g.coin()) cond_new(c, false);
}
void box_close(int c, bool armed, int b) {
    int live = b >= 0 && w->boxes[b].open ? b : NONE; uint64_t a = b >= 0 ? w->boxes[b].addr : 99;
    g.log("[%d] close mailbox %llu", c, (unsigned long long)a);
    begin(c, BOX_CLOSE, live, NONE, armed); status r = rc_mailbox_close(a, w->md);
    if (failed(c, r, "closing a mailbox")) {
        if (live >= 0) for (int i : w->boxes[live].q) CHECK(heap.owns(w->msgs[i].m) && (!w->msgs[i].payload || !w->msgs[i].payload->released), "a failing close released message %d", i);
        if (armed && g.coin()) box_close(c, false, b);
        return;
    }
    if (live < 0) { CHECK(r != STATUS_SUCCESS, "closing a mailbox that is not open succeeded"); return; }
    CHECK(r == STATUS_SUCCESS, "closing a mailbox failed with %08x", r);
    for (int i : w->boxes[live].q) { CHECK(!heap.owns(w->msgs[i].m), "closing the mailbox left message %d allocated", i); if (w->msgs[i].payload) CHECK(w->msgs[i].payload->released == 1, "closing the mailbox released a payload %d times", w->msgs[i].payload->released); }
    w->boxes[live].q.clear();
}
void cond_close(int c, bool armed, int k) {
    int live = k >= 0 && w->conds[k].open ? k : NONE; uint64_t h = k >= 0 ? w->conds[k].h : 99;
    g.log("[%d] close condition %llu", c, (unsigned long long)h);
    begin(c, COND_CLOSE, live, NONE, armed); status r = rc_conditional_close(h, w->cd);
    if (failed(c, r, "closing a condition")) { if (armed && g.coin()) cond_close(c, false, k); return; }
    CHECK((r == STATUS_SUCCESS) == (live >= 0), "closing %s returned %08x", live >= 0 ? "a condition" : "a condition that is not open", r);
}
void send(int c, bool armed, int b, int i) {
    int live = b >= 0 && w->boxes[b].open ? b : NONE; uint64_t a = b >= 0 ? w->boxes[b].addr : 99;
    if (live >= 0 && w->boxes[live].sleeper != NONE && w->fib[w->boxes[live].sleeper].queued) return; // (known finding of C28)
    g.log("[%d] send message %d to %llu (%s)", c, i, (unsigned long long)a, live < 0 ? "not open" : w->boxes[live].sleeper != NONE ? "a receiver sleeps" : "open");
    if (live >= 0 && w->boxes[live].sleeper != NONE) g.label("send to sleeper");
    rc_message* m = w->msgs[i].m;
    begin(c, SEND, live, i, armed); status r = rc_message_send(a, m, w->md);
    if (failed(c, r, "sending")) { check_held(i); if (armed && g.coin() && w->msgs[i].held) send(c, false, b, i); return; }
    if (live < 0) { CHECK(r != STATUS_SUCCESS, "sending to a mailbox that is not open succeeded"); check_held(i); return; }
    CHECK(r == STATUS_SUCCESS, "sending failed with %08x although there was memory", r);
}
void got(int c, int i, rc_message* m) { CHECK(m == w->msgs[i].m, "fiber %d received %s instead of message %d", c, m ? "something else" : "nothing", i); CHECK(!w->msgs[i].held, "message %d was received although its sender owns it", i); w->msgs[i].held = true; check_held(i); g.log("[%d] received message %d", c, i); }
void receive(int c, bool armed, int b) {
    int live = b >= 0 && w->boxes[b].open ? b : NONE; uint64_t a = b >= 0 ? w->boxes[b].addr : 99; rc_message* m = nullptr;
    Fib& me = w->fib[c];
    bool have = live >= 0 && !w->boxes[live].q.empty(), taken = live >= 0 && !have && w->boxes[live].sleeper != NONE;
    if (live >= 0 && !have && !taken && c == 0) return; // the main fiber never sleeps
    int i = have ? w->boxes[live].q.front() : NONE;
    g.log("[%d] receive from %llu (%s)", c, (unsigned long long)a, live < 0 ? "not open" : have ? "a message waits" : taken ? "taken" : "sleeps");
    me.msg = NONE;
    begin(c, RECEIVE, live, i, armed); status r = rc_message_receive(a, &m, w->md);
    if (failed(c, r, "receiving")) {
        CHECK(me.asleep == RUN, "harness: asleep after failing");
        if (have) CHECK(heap.owns(w->msgs[i].m), "a failing receive lost message %d", i);
        if (armed && g.coin()) receive(c, false, b);
        return;
    }
    if (live < 0) { CHECK(r != STATUS_SUCCESS, "receiving from a mailbox that is not open succeeded"); return; }
    if (have) { w->boxes[live].q.pop_front(); CHECK(r == STATUS_SUCCESS, "receiving failed with %08x although there was a message", r); got(c, i, m); return; }
    if (taken) { CHECK(r == (status)ERROR_MESSAGE_ALREADY_BLOCKED, "a second receiver got %08x", r); return; }
    me.asleep = RUN;
    if (me.msg != NONE) { CHECK(r == STATUS_SUCCESS, "a sleeping receiver got %08x instead of its message", r); got(c, me.msg, m); }
    else { CHECK(me.asked || me.maybe, "a sleeping receiver woke with %08x for no reason", r); CHECK(r != STATUS_SUCCESS, "an interrupted receive returned success"); if (w->boxes[live].sleeper == c) w->boxes[live].sleeper = NONE; }
    me.asked = me.maybe = false; me.msg = NONE;
}
void wait(int c, bool armed, int k) {
    int live = k >= 0 && w->conds[k].open ? k : NONE; uint64_t h = k >= 0 ? w->conds[k].h : 99;
    if (live >= 0 && c == 0) return;
    Fib& me = w->fib[c]; me.woken = false;
    g.log("[%d] wait on %llu", c, (unsigned long long)h);
    begin(c, WAIT, live, NONE, armed); status r = rc_conditional_wait(h, w->cd);
    if (failed(c, r, "waiting")) { if (armed && g.coin()) wait(c, false, k); return; }
    if (live < 0) { CHECK(r != STATUS_SUCCESS, "waiting on a condition that is not open succeeded"); return; }
    g.log("[%d] woke: %08x", c, (unsigned)r);
    me.asleep = RUN;
    auto& q = w->conds[live].q;
    if (me.woken) CHECK(r == STATUS_SUCCESS, "a notified waiter got %08x", r);
    else if (me.asked) { CHECK(r != STATUS_SUCCESS, "an interrupted wait returned success"); for (auto i = q.begin(); i != q.end(); ++i) if (*i == c) { q.erase(i); break; } }
    else {
        CHECK(me.maybe, "a waiter woke with %08x for no reason", r);
        if (r == STATUS_SUCCESS) { CHECK(!q.empty() && q.front() == c, "a failing notification woke fiber %d out of its turn", c); q.pop_front(); }
        else for (auto i = q.begin(); i != q.end(); ++i) if (*i == c) { q.erase(i); break; }
    }
    me.woken = me.asked = me.maybe = false;
}
void notify(int c, bool armed, bool all, int k) {
    int live = k >= 0 && w->conds[k].open ? k : NONE; uint64_t h = k >= 0 ? w->conds[k].h : 99;
    if (live >= 0) for (int i : w->conds[live].q) { if (w->fib[i].queued) return; if (!all) break; } // (known finding of C29)
    g.log("[%d] notify %s on %llu (%zu wait)", c, all ? "all" : "one", (unsigned long long)h, live >= 0 ? w->conds[live].q.size() : 0);
    begin(c, all ? ALL : ONE, live, NONE, armed); status r = all ? rc_conditional_notify_all(h, w->cd) : rc_conditional_notify_one(h, w->cd);
    if (failed(c, r, "notifying")) { settle(c); if (armed && g.coin()) notify(c, false, all, k); return; }
    CHECK((r == STATUS_SUCCESS) == (live >= 0), "notifying %s returned %08x", live >= 0 ? "a condition" : "a condition that is not open", r);
}
void ask(int c, bool armed, int t) {
    Fib& f = w->fib[t];
    bool runs = f.started && !f.done, stop = g.coin();
    g.log("[%d] ask fiber %d to %s", c, t, stop ? "terminate" : "quiesce");
    begin(c, ASK, t, NONE, armed);
    status r = stop ? rc_disciplined_fiber_scheduler_send_terminate_request_to_fiber(w->s, f.f) : rc_disciplined_fiber_scheduler_send_quiesce_request_to_fiber(w->s, f.f);
    if (failed(c, r, "a request")) { if (armed && g.coin() && !w->fib[t].gone && !w->fib[t].queued) ask(c, false, t); return; }
    CHECK(runs ? r == STATUS_SUCCESS : r == (status)ERROR_FIBER_INVALID_STATE, "a request to a %s fiber returned %08x", runs ? "running" : "stopped or new", r);
}
void ask_all(int c, bool armed) {
    bool stop = g.coin();
    g.log("[%d] ask all to %s", c, stop ? "terminate" : "quiesce"); g.label("request to all");
    begin(c, ASK_ALL, NONE, NONE, armed);
    status r = stop ? rc_disciplined_fiber_scheduler_send_terminate_request_to_all(w->s) : rc_disciplined_fiber_scheduler_send_quiesce_request_to_all(w->s);
    if (failed(c, r, "a request to all")) { settle(c); return; }
    CHECK(r == STATUS_SUCCESS, "a request to all returned %08x", r);
}
void discipline(int c) {
    if (!w->discs.empty() && g.coin()) {
        int i = (int)g.below(w->discs.size());
        if (!w->discs[i].in) {
            size_t live = heap.live();
            arm(); status r = rc_fiber_scheduler_discipline_add(w->s, w->discs[i].d); uint64_t h = heap.hits(); heap.disarm();
            g.log("[%d] add discipline %d: %08x", c, i, (unsigned)r);
            if (h) { fails++; CHECK(r != STATUS_SUCCESS, "adding a discipline says it worked although an allocation failed"); CHECK(heap.live() == live, "a failing add changed the number of blocks by %ld", (long)heap.live() - (long)live); rc_fiber_scheduler_discipline* x = nullptr; CHECK(rc_fiber_scheduler_discipline_find(&x, w->s, &w->discs[i].id) != STATUS_SUCCESS, "a discipline whose adding failed can be found"); }
            else { CHECK(r == STATUS_SUCCESS, "adding a discipline failed with %08x", r); w->discs[i].in = true; }
        } else {
            begin(c, OWN); status r = own(w->discs[i].d);
            if (!failed(c, r, "a discipline's yield")) CHECK(r == STATUS_SUCCESS, "a discipline's yield failed with %08x", r);
        }
        return;
    }
    if (w->discs.size() >= 5) return;
    Disc d{}; d.id = rc_rcpr_uuid{{0x73, (uint8_t)w->discs.size()}}; d.n = 1 + (int)g.below(40);
    rc_fiber_scheduler_discipline_callback_fn v[40]; for (auto& x : v) x = &handler_next;
    size_t live = heap.live();
    arm(); status r = rc_fiber_scheduler_discipline_create(&d.d, &d.id, w->a, nullptr, d.n, v); uint64_t h = heap.hits(); heap.disarm();
    g.log("[%d] discipline: %08x", c, (unsigned)r);
    CHECK((r != STATUS_SUCCESS) == (h != 0), "creating a discipline returned %08x with %d failing allocations", r, (int)h);
    if (h) { fails++; CHECK(heap.live() == live && !d.d, "failing to create a discipline left something"); return; }
    w->discs.push_back(d);
}
void message(int c) {
    if (w->msgs.size() >= 40) return;
    uint64_t ret = g.coin() ? 0 : g.u64(); Item* p = g.chance(1, 6) ? nullptr : new_item(); rc_message* m = nullptr; size_t live = heap.live();
    arm(); status r = rc_message_create(&m, w->a, ret, p ? res(p) : nullptr); uint64_t h = heap.hits(); heap.disarm();
    CHECK((r != STATUS_SUCCESS) == (h != 0), "creating a message returned %08x with %d failing allocations", r, (int)h);
    if (h) { fails++; CHECK(heap.live() == live && !m, "failing to create a message left something"); if (p) { CHECK(!p->released, "a message that was not created released its payload"); OK(rc_resource_release(res(p))); } return; }
    g.log("[%d] message %d", c, (int)w->msgs.size());
    w->msgs.push_back(Msg{m, p, ret, true}); check_held((int)w->msgs.size() - 1);
}
void get_disciplines(bool armed) {
    for (int i = 0; i < 2; i++) for (;;) {
        size_t live = heap.live(); rc_fiber_scheduler_discipline *d = nullptr, *old = i ? w->cd : w->md;
        if (armed) arm(); else no_arm();
        status r = i ? rc_condition_discipline_get_or_create(&d, w->a, w->s) : rc_message_discipline_get_or_create(&d, w->a, w->s);
        uint64_t h = heap.hits(); heap.disarm();
        CHECK((r != STATUS_SUCCESS) == (h != 0), "getting the %s discipline returned %08x with %d failing allocations", i ? "condition" : "message", r, (int)h);
        if (h) { fails++; CHECK(heap.live() == live, "failing to get the %s discipline left %ld blocks", i ? "condition" : "message", (long)heap.live() - (long)live); armed = g.coin(); continue; }
        CHECK(d && (!old || old == d), "the scheduler has two %s disciplines", i ? "condition" : "message");
        (i ? w->cd : w->md) = d; break;
    }
}
void do_add(int c, bool manager) {
    if (w->nf >= MAXF) return;
    rc_fiber* f = nullptr; size_t live = heap.live(), maps = heap.live_maps();
    int i = w->nf;
    arm(); status r = rc_fiber_create(&f, w->a, w->s, 65536, (void*)(intptr_t)i, manager ? &manager_entry : &entry); uint64_t h = heap.hits(); heap.disarm();
    CHECK((r != STATUS_SUCCESS) == (h != 0), "creating a fiber returned %08x with %d failing allocations", r, (int)h);
    if (h) { fails++; CHECK(heap.live() == live && heap.live_maps() == maps && !f, "failing to create a fiber left %ld blocks and %ld mappings", (long)heap.live() - (long)live, (long)heap.live_maps() - (long)maps); return; }
    w->fib[i] = Fib{}; w->fib[i].f = f; w->fib[i].msg = w->fib[i].at = NONE; w->nf++; // reserves the number
    for (bool armed = true;; armed = false) {
        g.log("[%d] add fiber %d%s", c, i, manager ? " (manager)" : "");
        size_t before = heap.live();
        begin(c, ADD, i, NONE, armed); r = rc_fiber_scheduler_add(w->s, f);
        if (!failed(c, r, "adding a fiber")) { CHECK(r == STATUS_SUCCESS, "adding a fiber failed with %08x", r); if (manager) w->manager = i; return; }
        CHECK(rc_fiber_state_get(f) == FIBER_STATE_CREATED, "a fiber whose adding failed has run");
        CHECK(heap.live() == before, "failing to add a fiber left %ld blocks", (long)heap.live() - (long)before);
        if (g.coin()) continue;
        OK(rc_resource_release(rc_fiber_resource_handle(f))); // still ours
        CHECK(!heap.owns(f), "a fiber whose adding failed was not released");
        w->fib[i].f = nullptr; w->fib[i].done = w->fib[i].gone = true; return;
    }
}
bool act(int c);
bool step(int c) { w->budget--; bool go = act(c); hold(c); return go; }
bool act(int c) {
    Fib& me = w->fib[c]; (void)me;
    switch (g.pick({4, 4, 5, 9, 10, 4, 8, 5, 4, 2, 2, 3, 2, 3, 3, 1, 1, 1})) {
    case 0: { begin(c, RUN); g.log("[%d] yield", c); status r = rc_fiber_scheduler_run(w->s); if (!failed(c, r, "yielding")) CHECK(r == STATUS_SUCCESS, "yielding failed with %08x", r); break; }
    case 1: if (w->boxes.size() < 8) box_new(c, true); break;
    case 2: message(c); break;
    case 3: { int i = any_held(), b = any_box(); if (i >= 0) send(c, true, b, i); break; }
    case 4: receive(c, true, any_box()); break;
    case 5: if (w->conds.size() < 6) cond_new(c, true); break;
    case 6: wait(c, true, any_cond()); break;
    case 7: notify(c, true, false, any_cond()); break;
    case 8: notify(c, true, true, any_cond()); break;
    case 9: box_close(c, true, any_box()); break;
    case 10: { int k = any_cond(); if (k >= 0 && !w->conds[k].q.empty() && g.chance(2, 3)) break; cond_close(c, true, k); break; }
    case 11: if (c == 0 || g.chance(1, 3)) do_add(c, false); break;
    case 12: { int i = any_held(); if (i < 0) break; check_held(i); w->msgs[i].held = false; OK(rc_resource_release(rc_message_resource_handle(w->msgs[i].m))); if (w->msgs[i].payload) CHECK(w->msgs[i].payload->released == 1, "a released message released its payload %d times", w->msgs[i].payload->released); break; }
    case 13: {
        int v[MAXF], n = 0;
        for (int i = 1; i < w->nf; i++) { Fib& f = w->fib[i]; if (i != c && i != w->manager && f.in && !f.gone && ((!f.started && f.queued) || f.done || (f.asleep != RUN && !f.queued))) v[n++] = i; }
        if (n) ask(c, true, v[g.below(n)]);
        break;
    }
    case 14: discipline(c); break;
    case 15: {
        for (int i = 1; i < w->nf; i++) { Fib& f = w->fib[i]; if (i == c || !f.in || f.gone || f.done || !f.started) continue; if (i == w->manager ? (f.asleep != EVENTS || f.queued) : (f.asleep == RUN || f.queued)) return true; }
        ask_all(c, true); break;
    }
    case 16: return c == 0;
    case 17: get_disciplines(true); break;
    }
    return true;
}
void stop(int c) { g.log("[%d] stops", c); begin(c, STOP); }
status entry(void* p) {
    int c = (int)(intptr_t)p; resumed(c); w->fib[c].started = true;
    hold(c);
    for (;;) {
        if (w->budget <= 0 || !step(c)) break;
        if (g.chance(1, 4)) run_unarmed(c);
    }
    stop(c); return STATUS_SUCCESS;
}
status manager_entry(void* p) {
    int c = (int)(intptr_t)p; resumed(c); Fib& me = w->fib[c]; me.started = true;
    for (;;) {
        const rc_rcpr_uuid* id = nullptr; int e = -1; void* prm = nullptr;
        me.ev_kind = 0;
        begin(c, EVENTS); status r = rc_disciplined_fiber_scheduler_receive_management_event(w->s, &id, &e, &prm);
        if (failed(c, r, "receiving a management event")) continue;
        CHECK(r == STATUS_SUCCESS, "receiving a management event failed with %08x", r);
        CHECK(me.ev_kind, "the manager got event %d for no reason", e);
        Fib& f = w->fib[me.ev_fib];
        if (me.ev_kind == 1) CHECK(e == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_ADD && prm == f.f, "the manager got event %d instead of fiber %d being added", e, me.ev_fib);
        else {
            CHECK(e == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_STOP && prm == f.f, "the manager got event %d instead of fiber %d stopping", e, me.ev_fib);
            g.log("[%d] told that fiber %d stopped", c, me.ev_fib); g.label("stop event");
            if (!f.queued && !f.gone && g.coin()) { OK(rc_disciplined_fiber_scheduler_remove_fiber(w->s, f.f)); OK(rc_resource_release(rc_fiber_resource_handle(f.f))); f.gone = true; f.f = nullptr; }
        }
    }
}
void program() {
    items().clear();
    static World world; world = World{}; w = &world; w->manager = NONE;
    w->a = make_alloc();
    for (bool armed = true;; armed = g.coin()) {
        size_t live = heap.live(), maps = heap.live_maps();
        if (armed) arm(); else no_arm();
        status r = rc_fiber_scheduler_create_with_disciplines(&w->s, w->a); uint64_t h = heap.hits(); heap.disarm();
        CHECK((r != STATUS_SUCCESS) == (h != 0), "creating a scheduler returned %08x with %d failing allocations", r, (int)h);
        if (!h) break;
        fails++; CHECK(heap.live() == live && heap.live_maps() == maps, "failing to create a scheduler left %ld blocks", (long)heap.live() - (long)live);
    }
    get_disciplines(true);
    w->fib[0].in = w->fib[0].started = true; w->fib[0].msg = NONE; w->nf = 1;
    OK(rc_disciplined_fiber_scheduler_main_fiber_get(&w->fib[0].f, w->s));
    if (g.coin()) do_add(0, true);
    int n = 1 + (int)g.below(5); for (int i = 0; i < n; i++) do_add(0, false);
    w->budget = 10 + (int)g.size(110);
    while (w->budget > 0) { step(0); if (g.chance(1, 2)) run_unarmed(0); }
    for (int i = 0; i < 14; i++) run_unarmed(0);
    for (int i = 1; i < w->nf; i++) { Fib& f = w->fib[i]; CHECK(!f.queued, "fiber %d was to run and never did", i); CHECK(f.done || f.asleep != RUN, "fiber %d neither stopped nor sleeps", i); }
    bool first = g.coin();
    auto drop = [&] { for (size_t i = 0; i < w->msgs.size(); i++) if (w->msgs[i].held) { check_held((int)i); w->msgs[i].held = false; OK(rc_resource_release(rc_message_resource_handle(w->msgs[i].m))); } };
    if (first) drop();
    g.log("the scheduler ends");
    arm(); status r = rc_resource_release(rc_fiber_scheduler_resource_handle(w->s)); bool none = heap.hits() != 0; heap.disarm();
    CHECK(r == STATUS_SUCCESS, "releasing the scheduler%s failed with %08x", none ? " while there was no memory" : "", r);
    if (!first) drop();
    for (auto& d : w->discs) if (!d.in) OK(rc_resource_release(rc_fiber_scheduler_discipline_resource_handle(d.d)));
    for (auto& it : items()) CHECK(it.released == 1, "payload #%d was released %d times in all", it.id, it.released);
    free_alloc(w->a);
    if (fails >= 2 && w->others) g.nontrivial();
}
// ------------------------------------------------------------ construction
status plain_callback(void* ctx, rc_fiber* y, int ev, void*, rc_fiber** rf, const rc_rcpr_uuid**, int* re, void** rp) {
    (void)ctx; *rf = y; *rp = nullptr;
    *re = ev == FIBER_SCHEDULER_YIELD_EVENT_MAIN ? FIBER_SCHEDULER_RESUME_EVENT_MAIN : FIBER_SCHEDULER_RESUME_EVENT_RUN; return STATUS_SUCCESS;
}
status nothing(void*) { return STATUS_SUCCESS; }
// every failing position of one constructor, then one that works.
template <class F> void sweep(const char* what, F make, bool strict = true, const std::function<void()>& intact = nullptr) {
    int mode = (int)g.below(3); uint64_t gap = 1 + g.below(3);
    for (uint64_t k = 0;; k++) {
        CHECK(k < 200, "%s never succeeds", what);
        size_t live = heap.live(), maps = heap.live_maps(); int fd = open("/dev/null", O_RDONLY); close(fd);
        if (mode == 0) heap.arm_nth(k); else if (mode == 1) heap.arm_from(k); else heap.arm_pair(k, gap);
        status r = make(); uint64_t h = heap.hits(); heap.disarm();
        CHECK((r != STATUS_SUCCESS) == (h != 0), "%s returned %08x with %d failing allocations", what, r, (int)h);
        if (!h) { g.log("%s: %d failing positions", what, (int)k); CHECK(k, "%s works without any memory", what); return; }
        fails++;
        if (intact) intact();
        if (!strict) continue; // the facility it needs may already be there to stay
        CHECK(heap.live() == live, "%s, failing at position %d, left %ld blocks", what, (int)k, (long)heap.live() - (long)live);
        CHECK(heap.live_maps() == maps, "%s, failing at position %d, left %ld mappings", what, (int)k, (long)heap.live_maps() - (long)maps);
        int fd2 = open("/dev/null", O_RDONLY); close(fd2); CHECK(fd == fd2, "%s, failing at position %d, left a descriptor", what, (int)k);
        if (!g.chance(3, 4)) k += g.below(3);
    }
}
// a stream that could not be made asynchronous is still what it was.
void plain_stream(rc_psock* s, int fd, int peer) {
    CHECK(!(fcntl(fd, F_GETFL) & O_NONBLOCK), "a stream that could not be made asynchronous no longer waits for its bytes");
    uint8_t b = (uint8_t)g.below(256), o = 0; if (::send(peer, &b, 1, 0) != 1) fail("harness: send");
    OK(rc_psock_read_raw_uint8(s, &o)); CHECK(o == b, "a stream that could not be made asynchronous reads something else");
}
int carry_from, carry_to;
bool carry(int) {
    uint8_t t[8]; ssize_t n = recv(carry_from, t, sizeof t, MSG_DONTWAIT); if (n < 1) return false;
    if (::send(carry_to, t, (size_t)n, 0) != n) fail("harness: send");
    return true;
}
void construction() {
    rc_allocator* a = make_alloc(); rc_fiber_scheduler *s = nullptr, *plain = nullptr; g.label("construction");
    sweep("creating a plain scheduler", [&] { return rc_fiber_scheduler_create(&plain, a, nullptr, &plain_callback); });
    sweep("creating a disciplined scheduler", [&] { return rc_fiber_scheduler_create_with_disciplines(&s, a); });
    rc_fiber* main = nullptr; OK(rc_disciplined_fiber_scheduler_main_fiber_get(&main, s));
    ::stack* st = nullptr; sweep("creating a stack", [&] { return rc_stack_create(&st, a, 4096 + g.below(100000)); });
    OK(rc_resource_release(rc_stack_resource_handle(st)));
    rc_fiber *f = nullptr, *tf = nullptr; sweep("creating a fiber", [&] { return rc_fiber_create(&f, a, s, 16384, nullptr, &nothing); });
    sweep("creating a thread's fiber", [&] { return rc_fiber_create_for_thread(&tf, s, a); });
    OK(rc_resource_release(rc_fiber_resource_handle(tf)));
    rc_fiber_scheduler_discipline *md = nullptr, *cd = nullptr, *md2 = nullptr, *d = nullptr;
    int order = (int)g.below(3);
    auto messages = [&] { sweep("creating the messaging facility", [&] { return rc_message_discipline_get_or_create(&md, a, s); }); };
    auto conditions = [&] { sweep("creating the condition facility", [&] { return rc_condition_discipline_get_or_create(&cd, a, s); }); };
    int p[2], q[2]; for (int i = 0; i < 2; i++) { int v[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, v)) fail("harness: no socket pair"); p[i] = v[0]; q[i] = v[1]; }
    rc_psock *x = nullptr, *y = nullptr; rc_psock *c0 = fd_psock(a, p[0]), *c1 = fd_psock(a, p[1]);
    auto streams = [&] { sweep("making the first asynchronous stream", [&] { return rc_psock_create_wrap_async(&x, a, main, c0); }, false, [&] { plain_stream(c0, p[0], q[0]); }); CHECK(fcntl(p[0], F_GETFD) >= 0, "the descriptor was closed"); };
    if (order == 0) { messages(); conditions(); streams(); } else if (order == 1) { streams(); conditions(); messages(); } else { conditions(); streams(); messages(); }
    sweep("making another asynchronous stream", [&] { return rc_psock_create_wrap_async(&y, a, main, c1); }, true, [&] { plain_stream(c1, p[1], q[1]); });
    rc_fiber_scheduler_discipline_callback_fn v[3] = {&handler_next, &handler_next, &handler_next}; rc_rcpr_uuid id = {{0x74}};
    sweep("creating a discipline", [&] { return rc_fiber_scheduler_discipline_create(&d, &id, a, nullptr, 1 + g.below(3), v); });
    sweep("adding a discipline", [&] { return rc_fiber_scheduler_discipline_add(s, d); });
    OK(rc_message_discipline_get_or_create(&md2, a, s)); CHECK(md2 == md, "the scheduler has two message disciplines");
    // and all of it works.
    uint64_t addr = 0, h = 0; rc_message* m = nullptr; Item* it = new_item();
    sweep("creating a mailbox", [&] { return rc_mailbox_create(&addr, md); });
    sweep("creating a condition", [&] { return rc_conditional_create(&h, cd); });
    sweep("creating a message", [&] { return rc_message_create(&m, a, 0, res(it)); });
    sweep("sending a message", [&] { return rc_message_send(addr, m, md); });
    OK(rc_fiber_scheduler_add(s, f));
    if (g.coin()) OK(rc_fiber_scheduler_run(s));
    rc_message* got = nullptr; OK(rc_message_receive(addr, &got, md)); CHECK(got == m, "another message arrived");
    OK(rc_resource_release(rc_message_resource_handle(m)));
    uint8_t b = 0; OK(rc_psock_write_raw_uint8(x, 77)); carry_from = q[0]; carry_to = q[1];
    bool sleeps = g.coin(); if (!sleeps && !carry(0)) fail("a byte did not leave");
    auto idle = sys.idle; sys.idle = carry; OK(rc_psock_read_raw_uint8(y, &b)); sys.idle = idle; CHECK(b == 77, "another byte arrived");
    OK(rc_conditional_notify_all(h, cd));
    release_psock(x); release_psock(y); close(q[0]); close(q[1]);
    heap.arm_from(g.coin() ? 0 : 1000000);
    OK(rc_resource_release(rc_fiber_scheduler_resource_handle(s)));
    OK(rc_resource_release(rc_fiber_scheduler_resource_handle(plain)));
    heap.disarm(); free_alloc(a);
    CHECK(it->released == 1, "the payload was released %d times", it->released);
    if (fails >= 2) g.nontrivial();
}
// ----------------------------------------------------------------- streams
struct Member { rc_psock* ps; int peer; bool writer, done, buffered; size_t todo, moved, seen; uint64_t hits; int idx; };
struct Pool { std::deque<Member> m; rc_fiber_scheduler* s; rc_allocator* a; size_t left; int wr, call, starved, own; bool crowd; } *pl;
uint8_t pat(const Member& o, size_t i) { return (uint8_t)(o.idx * 31 + i * 7); }
// control is back in the harness: what failed belongs to the call under way.
void io_back() { uint64_t h = heap.hits(); heap.disarm(); if (pl->call != NONE) { pl->m[pl->call].hits = h; if (h) pl->own++; pl->call = NONE; } else if (h) { pl->starved++; fails++; } }
void io_arm() {
    switch (g.pick({4, 4, 3, 1})) {
    case 0: heap.arm_from(1000000); break;
    case 1: heap.arm_nth(g.below(4)); break;
    case 2: heap.arm_from(g.below(3)); break;
    case 3: heap.arm_pair(g.below(3), 1 + g.below(2)); break;
    }
}
bool pool_idle(int round) {
    io_back();
    bool moved = false; size_t n = pl->m.size(), from = g.below(n), cnt = round || pl->crowd ? n : 1 + g.below(n);
    for (size_t k = 0; k < cnt; k++) {
        Member& o = pl->m[(from + k) % n];
        if (o.writer) { uint8_t b[512]; for (;;) { ssize_t x = recv(o.peer, b, sizeof b, MSG_DONTWAIT); if (x <= 0) break; for (ssize_t i = 0; i < x; i++) CHECK(b[i] == pat(o, o.seen + i), "stream %d: byte %zu is another", o.idx, o.seen + i); o.seen += x; moved = true; } }
        else if (o.seen < o.todo && (o.seen == o.moved || g.coin())) { uint8_t b = pat(o, o.seen); if (real_write(o.peer, &b, 1) != 1) fail("harness: can't write"); o.seen++; moved = true; }
    }
    if (moved || !round || pl->starved) { io_arm(); }
    return moved || !round;
}
status member(void* ctx) {
    Member& o = *(Member*)ctx; io_back();
    while (o.moved < o.todo) {
        uint8_t b = pat(o, o.moved); status r;
        pl->call = o.idx; o.hits = 0; io_arm();
        if (o.writer) r = rc_psock_write_raw_uint8(o.ps, b);
        else { b = (uint8_t)~b; r = rc_psock_read_raw_uint8(o.ps, &b); }
        io_back();
        if (o.hits) { fails++; g.log("fiber %d had no memory: %08x", o.idx, (unsigned)r); CHECK(r != STATUS_SUCCESS, "stream %d: a call says it worked although an allocation failed", o.idx); continue; }
        CHECK(r == STATUS_SUCCESS, "stream %d: a %s failed with %08x though its own call had memory", o.idx, o.writer ? "write" : "read", r);
        if (!o.writer) { CHECK(o.moved < o.seen, "stream %d: a byte arrived before it was sent", o.idx); CHECK(b == pat(o, o.moved), "stream %d: byte %zu is another", o.idx, o.moved); }
        o.moved++;
    }
    o.done = true; if (--pl->left == 0) { uint8_t b = 1; if (real_write(pl->wr, &b, 1) != 1) fail("harness: no pipe"); }
    return STATUS_SUCCESS;
}
void streams(bool crowd) {
    static Pool P; P = Pool{}; pl = &P; P.call = NONE; P.crowd = crowd; P.a = make_alloc(); rc_fiber* mf = nullptr;
    g.label(crowd ? "crowd" : "streams");
    OK(rc_fiber_scheduler_create_with_disciplines(&P.s, P.a)); OK(rc_disciplined_fiber_scheduler_main_fiber_get(&mf, P.s));
    size_t n = crowd ? 1026 + g.below(60) : 1 + g.below(12); P.left = n;
    int d[2]; if (pipe(d)) fail("harness: no pipe"); P.wr = d[1]; rc_psock* done = nullptr;
    OK(rc_psock_create_wrap_async(&done, P.a, mf, fd_psock(P.a, d[0])));
    for (size_t i = 0; i < n; i++) {
        int p[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) fail("harness: no socket pair");
        Member o{}; o.peer = p[1]; o.idx = (int)i; o.writer = !crowd && g.coin(); o.todo = crowd ? 1 : o.writer ? 1 + g.size(40) : 1 + g.size(8);
        if (o.writer) { int sz = 1; setsockopt(p[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); }
        P.m.push_back(o);
        OK(rc_psock_create_wrap_async(&P.m.back().ps, P.a, mf, fd_psock(P.a, p[0])));
    }
    for (auto& o : P.m) { rc_fiber* f = nullptr; OK(rc_fiber_create(&f, P.a, P.s, crowd ? 32768 : 65536, &o, &member)); OK(rc_fiber_scheduler_add(P.s, f)); }
    sys.idle = pool_idle;
    uint8_t x; status r = rc_psock_read_raw_uint8(done, &x); io_back();
    CHECK(r == STATUS_SUCCESS, "the main fiber's read failed with %08x", r);
    sys.idle = nullptr;
    for (auto& o : P.m) {
        CHECK(o.done && o.moved == o.todo, "fiber %d is not done", o.idx);
        if (o.writer) { uint8_t b[512]; for (;;) { ssize_t k = recv(o.peer, b, sizeof b, MSG_DONTWAIT); if (k <= 0) break; for (ssize_t i = 0; i < k; i++) CHECK(b[i] == pat(o, o.seen + i), "stream %d: byte %zu is another", o.idx, o.seen + i); o.seen += k; } CHECK(o.seen == o.todo, "stream %d: %zu of %zu bytes arrived", o.idx, o.seen, o.todo); }
        release_psock(o.ps); close(o.peer);
    }
    release_psock(done); close(d[1]);
    if (P.starved) g.label("starved wake-up"); if (P.own) g.label("starved sleep");
    heap.arm_from(g.coin() ? 0 : 1000000);
    OK(rc_resource_release(rc_fiber_scheduler_resource_handle(P.s))); heap.disarm(); free_alloc(P.a);
    if (P.starved + P.own >= 2) g.nontrivial();
}
} // namespace
void run_case() {
    heap.begin(); fails = 0; sys.idle = nullptr;
    switch (g.pickv({40, 2, 8, (unsigned)(param("crowd", 1) ? 1 : 0)})) {
    case 0: program(); break;
    case 1: construction(); break;
    case 2: streams(false); break;
    default: if (g.chance(1, 20)) streams(true); else streams(false);
    }
    heap.expect_clean("the end"); heap.end();
}
} // namespace vp
