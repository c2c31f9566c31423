// C28: mailboxes and messages against a model.
#include "rc.hpp"
#include <set>
namespace vp {
const char* const PROPERTY = "C28";
const char* const RULE = "a case is a program of up to 150 steps made up by its fibers (main and up to 7 more) as they run: creating and closing mailboxes, creating, sending, receiving, unpacking and releasing messages, interrupting a blocked receiver, yielding, stopping; at times up to 2200 messages sent to one mailbox in a row; a model says, at each call, what it must return and which message a receiver gets; non-trivial = at least two messages were received, one of them by a fiber that was asleep";
namespace {
constexpr int MAXF = 8;
struct Msg { rc_message* m; Item* payload; uint64_t ret; bool held; };
struct Box { uint64_t addr; bool open; std::deque<int> q; int blocked; };
struct Fib { rc_fiber* f; bool done, blocked, pending; int box, assigned; };
struct World {
    rc_allocator* a; rc_fiber_scheduler* s; rc_fiber_scheduler_discipline *md, *poke;
    std::deque<Msg> msgs; std::vector<Box> boxes; Fib fib[MAXF]; int nf, budget, got, slept, interrupted, churn;
};
World* w;
struct Poke { rc_fiber* target; int event, mode; };
const rc_rcpr_uuid POKE = {{0x70, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}};
status poke_handler(void* ctx, rc_fiber* y, int, void* param) {
    Poke* p = (Poke*)param; status r;
    rc_fiber_scheduler* s = *(rc_fiber_scheduler**)ctx;
    auto self = [&] { return rc_disciplined_fiber_scheduler_set_next_fiber_to_run(s, y, &POKE, 99, nullptr); };
    if (p->mode == 0) { // the target first, then the poker
        if ((r = self())) return r;
        return rc_disciplined_fiber_scheduler_set_next_fiber_to_run(s, p->target, &POKE, p->event, (void*)0x10);
    }
    if ((r = rc_disciplined_fiber_scheduler_add_fiber_to_run_queue(s, p->target, &POKE, p->event, (void*)0x10))) return r;
    return self();
}
std::vector<int> held() { std::vector<int> v; for (size_t i = 0; i < w->msgs.size(); i++) if (w->msgs[i].held) v.push_back((int)i); return v; }
int find_box(uint64_t a) { for (size_t i = 0; i < w->boxes.size(); i++) if (w->boxes[i].addr == a) return (int)i; return -1; }
uint64_t some_addr() {
    if (!w->boxes.empty() && !g.chance(1, 12)) { // mostly the open ones
        size_t k = g.below(w->boxes.size());
        if (!w->boxes[k].open && g.chance(2, 3)) for (size_t i = 0; i < w->boxes.size(); i++) if (w->boxes[(k + i) % w->boxes.size()].open) return w->boxes[(k + i) % w->boxes.size()].addr;
        return w->boxes[k].addr;
    }
    switch (g.below(3)) {
    case 0: return 1 + g.below(20);
    case 1: return w->boxes.empty() ? 7 : w->boxes.back().addr + 1 + g.below(3);
    default: { uint64_t v = g.u64(); return v ? v : 1; }
    }
}
void check_held(int i) {
    Msg& m = w->msgs[i];
    CHECK(rc_message_payload(m.m, false) == (m.payload ? res(m.payload) : nullptr), "message %d no longer has its payload", i);
    CHECK(rc_message_return_address(m.m) == m.ret, "message %d has return address %llu instead of %llu", i, (unsigned long long)rc_message_return_address(m.m), (unsigned long long)m.ret);
    if (m.payload) CHECK(m.payload->released == 0, "the payload of message %d was released while the program owns it", i);
}
void got_msg(int c, int i, rc_message* m) {
    CHECK(m == w->msgs[i].m, "fiber %d received %s instead of message %d", c, m ? "something else" : "nothing", i);
    w->msgs[i].held = true; check_held(i); w->got++;
}
status entry(void*);
int budget_left() { return w->budget; }
void spawn() {
    int i = w->nf++; w->fib[i] = Fib{}; w->fib[i].assigned = -1; w->fib[i].box = -1;
    OK(rc_fiber_create(&w->fib[i].f, w->a, w->s, 65536, (void*)(intptr_t)i, &entry));
    g.log("  fiber %d added\n", i);
    OK(rc_fiber_scheduler_add(w->s, w->fib[i].f));
}
// one step of fiber c; false: the fiber should stop.
bool step(int c) {
    w->budget--;
    size_t op = g.pick({60, 80, 160, 200, 200, 60, 40, 40, 20, 40, 20, 20, 20, 1});
    switch (op) {
    case 0: { g.log("[%d] yield\n", c); OK(rc_fiber_scheduler_run(w->s)); break; }
    case 1: {
        if (w->boxes.size() >= 12) break;
        uint64_t a = 0; status r = rc_mailbox_create(&a, w->md);
        g.log("[%d] create mailbox -> %llu\n", c, (unsigned long long)a);
        CHECK(r == STATUS_SUCCESS, "creating a mailbox failed with %08x", r);
        CHECK(a != 0, "a mailbox got the address that means none");
        CHECK(find_box(a) < 0, "address %llu was given out twice", (unsigned long long)a);
        w->boxes.push_back(Box{a, true, {}, -1}); break;
    }
    case 2: {
        if (w->msgs.size() >= 60) break;
        uint64_t ret = g.coin() && !w->boxes.empty() ? w->boxes[g.below(w->boxes.size())].addr : g.coin() ? MESSAGE_ADDRESS_NONE : g.u64();
        Item* p = new_item(); rc_message* m = nullptr;
        OK(rc_message_create(&m, w->a, ret, res(p)));
        w->msgs.push_back(Msg{m, p, ret, true});
        g.log("[%d] create message %d\n", c, (int)w->msgs.size() - 1);
        check_held((int)w->msgs.size() - 1); break;
    }
    case 3: { // send
        auto h = held(); if (h.empty()) break;
        int i = h[g.below(h.size())]; uint64_t a = some_addr(); int b = find_box(a);
        bool open = b >= 0 && w->boxes[b].open;
        if (open && w->boxes[b].blocked >= 0 && w->fib[w->boxes[b].blocked].pending) break; // (known finding: an event overwrites another)
        int rcv = -1;
        if (open) {
            w->msgs[i].held = false;
            if ((rcv = w->boxes[b].blocked) >= 0) { w->fib[rcv].assigned = i; w->boxes[b].blocked = -1; }
            else w->boxes[b].q.push_back(i);
        }
        g.log("[%d] send message %d to %llu (%s)\n", c, i, (unsigned long long)a, open ? rcv >= 0 ? "receiver asleep" : "open" : b >= 0 ? "closed" : "unknown");
        rc_message* m = w->msgs[i].m;
        status r = rc_message_send(a, m, w->md);
        if (open) CHECK(r == STATUS_SUCCESS, "sending to an open mailbox failed with %08x", r);
        else { CHECK(r != STATUS_SUCCESS, "sending to a mailbox that is not open succeeded"); check_held(i); }
        break;
    }
    case 4: { // receive
        uint64_t a = some_addr(); int b = find_box(a); rc_message* m = (rc_message*)0x8;
        if (b < 0 || !w->boxes[b].open) {
            g.log("[%d] receive from %llu (%s)\n", c, (unsigned long long)a, b < 0 ? "unknown" : "closed");
            status r = rc_message_receive(a, &m, w->md);
            CHECK(r != STATUS_SUCCESS, "receiving from a mailbox that is not open succeeded"); break;
        }
        if (!w->boxes[b].q.empty()) {
            int i = w->boxes[b].q.front(); w->boxes[b].q.pop_front();
            g.log("[%d] receive from %llu (message %d waits)\n", c, (unsigned long long)a, i);
            status r = rc_message_receive(a, &m, w->md);
            CHECK(r == STATUS_SUCCESS, "receiving from a mailbox with messages failed with %08x", r);
            got_msg(c, i, m); break;
        }
        if (w->boxes[b].blocked >= 0) {
            if (w->fib[w->boxes[b].blocked].pending) break;
            g.log("[%d] receive from %llu (fiber %d already waits)\n", c, (unsigned long long)a, w->boxes[b].blocked);
            status r = rc_message_receive(a, &m, w->md);
            CHECK(r == (status)ERROR_MESSAGE_ALREADY_BLOCKED, "a second receiver on one mailbox got %08x", r); break;
        }
        if (c == 0) break; // the main fiber never sleeps
        Fib& me = w->fib[c];
        w->boxes[b].blocked = c; me.blocked = true; me.box = b; me.assigned = -1;
        g.log("[%d] receive from %llu (sleeps)\n", c, (unsigned long long)a);
        status r = rc_message_receive(a, &m, w->md);
        g.log("[%d] receive returns %08x\n", c, (unsigned)r);
        me.blocked = false;
        if (me.assigned >= 0) {
            CHECK(r == STATUS_SUCCESS, "a sleeping receiver got %08x instead of the message sent to it", r);
            got_msg(c, me.assigned, m); w->slept++;
        } else if (me.pending) {
            CHECK(r != STATUS_SUCCESS, "an interrupted receive returned success without a message having been sent");
            if (w->boxes[b].blocked == c) w->boxes[b].blocked = -1;
            w->interrupted++;
        } else fail("a sleeping receiver woke with %08x though no message was sent to it", r);
        me.pending = false; me.box = -1; break;
    }
    case 5: { // close
        uint64_t a = some_addr(); int b = find_box(a); bool open = b >= 0 && w->boxes[b].open;
        std::deque<int> q; if (open) { q.swap(w->boxes[b].q); w->boxes[b].open = false; w->boxes[b].blocked = -1; }
        g.log("[%d] close %llu (%s, %zu messages)\n", c, (unsigned long long)a, open ? "open" : "not open", q.size());
        if (q.size() > 1) g.label("close with messages");
        status r = rc_mailbox_close(a, w->md);
        if (!open) { CHECK(r != STATUS_SUCCESS, "closing a mailbox that is not open succeeded"); break; }
        CHECK(r == STATUS_SUCCESS, "closing a mailbox failed with %08x", r);
        for (int i : q) { if (w->msgs[i].payload) CHECK(w->msgs[i].payload->released == 1, "closing the mailbox released the payload of message %d %d times", i, w->msgs[i].payload->released);
            CHECK(!heap.owns(w->msgs[i].m), "closing the mailbox left message %d allocated", i); }
        break;
    }
    case 6: { // take the payload
        auto h = held(); if (h.empty()) break;
        int i = h[g.below(h.size())]; Msg& m = w->msgs[i];
        g.log("[%d] take the payload of message %d\n", c, i);
        rc_resource* p = rc_message_payload(m.m, true);
        CHECK(p == (m.payload ? res(m.payload) : nullptr), "message %d handed over another payload", i);
        if (m.payload) { CHECK(m.payload->released == 0, "the payload was released while being handed over"); OK(rc_resource_release(p)); }
        m.payload = nullptr; check_held(i); break;
    }
    case 7: { // release
        auto h = held(); if (h.empty()) break;
        int i = h[g.below(h.size())]; Msg& m = w->msgs[i]; m.held = false;
        g.log("[%d] release message %d\n", c, i);
        OK(rc_resource_release(rc_message_resource_handle(m.m)));
        if (m.payload) CHECK(m.payload->released == 1, "releasing a message released its payload %d times", m.payload->released);
        break;
    }
    case 8: { rc_fiber_scheduler_discipline* d = nullptr; OK(rc_message_discipline_get_or_create(&d, w->a, w->s)); CHECK(d == w->md, "the scheduler has two message disciplines"); break; }
    case 9: { // interrupt a sleeping receiver
        std::vector<int> v; for (int i = 1; i < w->nf; i++) if (w->fib[i].blocked && !w->fib[i].pending && w->fib[i].assigned < 0) v.push_back(i);
        if (v.empty()) break;
        int t = v[g.below(v.size())]; w->fib[t].pending = true; g.label("interrupted receive");
        if (g.chance(1, 4)) {
            g.log("[%d] ask fiber %d to quiesce\n", c, t);
            OK(rc_disciplined_fiber_scheduler_send_quiesce_request_to_fiber(w->s, w->fib[t].f)); break;
        }
        Poke p{w->fib[t].f, (int)g.below(9), (int)g.below(2)};
        g.log("[%d] interrupt fiber %d with event %d (%s)\n", c, t, p.event, p.mode ? "queued" : "at once");
        const rc_rcpr_uuid* id; int e; void* prm;
        OK(rc_fiber_discipline_yield(w->poke, 0, &p, &id, &e, &prm));
        CHECK(!memcmp(id, &POKE, 16) && e == 99, "the interrupting fiber was resumed with another event"); break;
    }
    case 10: { if (c == 0 && w->nf < MAXF) spawn(); break; }
    case 12: { // many short-lived mailboxes
        if (w->churn++ > 1) break;
        int n = g.chance(1, 300) ? 65000 + (int)g.below(3000) : (int)g.size(300); g.log("[%d] create and close %d mailboxes\n", c, n);
        for (int i = 0; i < n; i++) {
            uint64_t a = 0; OK(rc_mailbox_create(&a, w->md));
            CHECK(a != 0 && find_box(a) < 0, "address %llu was given out twice", (unsigned long long)a);
            status r = rc_mailbox_close(a, w->md); CHECK(r == STATUS_SUCCESS, "closing mailbox %llu failed with %08x", (unsigned long long)a, r);
        }
        break;
    }
    case 13: { // a burst
        if (w->msgs.size() > 200) break;
        uint64_t a = some_addr(); int b = find_box(a); if (b < 0 || !w->boxes[b].open || w->boxes[b].blocked >= 0) break;
        int n = g.chance(1, 20) ? 1000 + (int)g.below(1200) : 1 + (int)g.size(300); g.log("[%d] send %d messages to %llu\n", c, n, (unsigned long long)a); g.label("burst");
        for (int k = 0; k < n; k++) {
            Item* p = new_item(); rc_message* m = nullptr; OK(rc_message_create(&m, w->a, MESSAGE_ADDRESS_NONE, res(p)));
            int i = (int)w->msgs.size(); w->msgs.push_back(Msg{m, p, MESSAGE_ADDRESS_NONE, false}); w->boxes[b].q.push_back(i);
            status r = rc_message_send(a, m, w->md); CHECK(r == STATUS_SUCCESS, "sending to an open mailbox failed with %08x after %d messages", r, k);
            if (!w->boxes[b].open || w->boxes[b].blocked >= 0) return true; // others may have run
        }
        if (g.coin()) while (w->boxes[b].open && !w->boxes[b].q.empty()) {
            int i = w->boxes[b].q.front(); w->boxes[b].q.pop_front(); rc_message* m = nullptr;
            status r = rc_message_receive(a, &m, w->md); CHECK(r == STATUS_SUCCESS, "receiving from a mailbox with messages failed with %08x", r); got_msg(c, i, m);
            w->msgs[i].held = false; OK(rc_resource_release(rc_message_resource_handle(m)));
        }
        break;
    }
    case 11: return c == 0;
    }
    return true;
}
status entry(void* p) {
    int c = (int)(intptr_t)p;
    while (w->budget > 0 && step(c)) if (g.chance(1, 4)) { g.log("[%d] yield\n", c); OK(rc_fiber_scheduler_run(w->s)); }
    g.log("[%d] stops\n", c);
    w->fib[c].done = true;
    return STATUS_SUCCESS;
}
} // namespace
// known finding: a message sent to a receiver that another event has already
// made runnable replaces that event, and is then delivered twice.
static int deliveries; static rc_fiber_scheduler* ps; static rc_fiber_scheduler_discipline *pm, *pp; static uint64_t pa; static rc_message *psent;
static status probe_entry(void*) {
    for (int i = 0; i < 3; i++) { rc_message* m = nullptr; if (rc_message_receive(pa, &m, pm) == STATUS_SUCCESS && m == psent) deliveries++; }
    for (;;) OK(rc_fiber_scheduler_run(ps));
}
static void message_to_runnable() {
    deliveries = 0; rc_allocator* a = make_alloc(); OK(rc_fiber_scheduler_create_with_disciplines(&ps, a)); OK(rc_message_discipline_get_or_create(&pm, a, ps));
    rc_fiber_scheduler_discipline_callback_fn v[1] = {&poke_handler};
    OK(rc_fiber_scheduler_discipline_create(&pp, &POKE, a, &ps, 1, v)); OK(rc_fiber_scheduler_discipline_add(ps, pp));
    OK(rc_mailbox_create(&pa, pm));
    rc_fiber* f; OK(rc_fiber_create(&f, a, ps, 65536, nullptr, &probe_entry)); OK(rc_fiber_scheduler_add(ps, f));
    OK(rc_fiber_scheduler_run(ps)); // it sleeps
    Poke p{f, 3, 1}; const rc_rcpr_uuid* id; int e; void* prm; OK(rc_fiber_discipline_yield(pp, 0, &p, &id, &e, &prm)); // interrupted, but has not run yet
    OK(rc_message_create(&psent, a, 0, res(new_item()))); OK(rc_message_send(pa, psent, pm));
    for (int i = 0; i < 4; i++) OK(rc_fiber_scheduler_run(ps));
    CHECK(deliveries == 1, "one message was delivered %d times", deliveries);
}
const std::vector<Probe> PROBES = { { "message-to-runnable", &message_to_runnable } };
void setup() {}
void run_case() {
    items().clear(); heap.begin();
    static World world; world = World{}; w = &world;
    w->a = make_alloc(); OK(rc_fiber_scheduler_create_with_disciplines(&w->s, w->a));
    OK(rc_message_discipline_get_or_create(&w->md, w->a, w->s));
    rc_fiber_scheduler_discipline_callback_fn v[1] = {&poke_handler};
    OK(rc_fiber_scheduler_discipline_create(&w->poke, &POKE, w->a, &w->s, 1, v)); OK(rc_fiber_scheduler_discipline_add(w->s, w->poke));
    OK(rc_disciplined_fiber_scheduler_main_fiber_get(&w->fib[0].f, w->s)); w->nf = 1; w->fib[0].assigned = -1;
    int n = 1 + (int)g.below(5); for (int i = 0; i < n; i++) spawn();
    w->budget = 10 + (int)g.size(140);
    int idle = 0;
    while (w->budget > 0) {
        bool runnable = false; for (int i = 1; i < w->nf; i++) if (!w->fib[i].done && (!w->fib[i].blocked || w->fib[i].pending)) runnable = true;
        if (!runnable && ++idle > 40) break; // everyone sleeps
        step(0);
        if (g.chance(1, 2)) OK(rc_fiber_scheduler_run(w->s));
    }
    for (int i = 0; i < 12; i++) OK(rc_fiber_scheduler_run(w->s));
    for (int i = 1; i < w->nf; i++) CHECK(w->fib[i].done || w->fib[i].blocked, "fiber %d never finished", i);
    for (int i = 1; i < w->nf; i++) CHECK(!w->fib[i].blocked || (w->fib[i].assigned < 0 && !w->fib[i].pending), "fiber %d was never woken", i);
    g.log("the scheduler ends\n");
    bool first = g.coin();
    auto drop = [&] { for (int i : held()) { check_held(i); w->msgs[i].held = false; OK(rc_resource_release(rc_message_resource_handle(w->msgs[i].m))); } };
    if (first) drop();
    OK(rc_resource_release(rc_fiber_scheduler_resource_handle(w->s)));
    if (!first) drop();
    for (auto& it : items()) CHECK(it.released == 1, "payload #%d was released %d times in all", it.id, it.released);
    free_alloc(w->a);
    heap.expect_clean("at the end"); heap.end();
    if (w->interrupted) g.label("interruptions"); if (w->slept) g.label("woken");
    if (w->got >= 2 && w->slept) g.nontrivial();
}
} // namespace vp
