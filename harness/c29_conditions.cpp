// C29: conditions against a model.
#include "rc.hpp"
#include <set>
namespace vp {
const char* const PROPERTY = "C29";
const char* const RULE = "a case is a program of up to 150 steps made up by its fibers (main and up to 9 more; at times a crowd of up to 300 and proportionally more steps) as they run: creating and closing conditions, waiting, notifying one or all, interrupting a waiter, yielding, stopping; a model says, at each call, what it must return and who wakes in which order; non-trivial = at least three fibers were woken, two of them by one notification or after waiting on the same condition together";
namespace {
constexpr int MAXF = 320;
struct Cond { uint64_t h; bool open; std::deque<int> waiters; };
struct Fib { rc_fiber* f; bool done, blocked, pending, notified; };
struct World {
    rc_allocator* a; rc_fiber_scheduler* s; rc_fiber_scheduler_discipline *cd, *poke;
    std::vector<Cond> conds; Fib fib[MAXF]; std::deque<std::pair<int, int>> waking; int serial; int nf, crowd, budget, woken, together, interrupted, churn;
};
World* w;
struct Poke { rc_fiber* target; int event, mode; };
const rc_rcpr_uuid POKE = {{0x71, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}};
status poke_handler(void* ctx, rc_fiber* y, int, void* param) {
    Poke* p = (Poke*)param; status r;
    rc_fiber_scheduler* s = *(rc_fiber_scheduler**)ctx;
    auto self = [&] { return rc_disciplined_fiber_scheduler_set_next_fiber_to_run(s, y, &POKE, 99, nullptr); };
    if (p->mode == 0) {
        if ((r = self())) return r;
        return rc_disciplined_fiber_scheduler_set_next_fiber_to_run(s, p->target, &POKE, p->event, nullptr);
    }
    if ((r = rc_disciplined_fiber_scheduler_add_fiber_to_run_queue(s, p->target, &POKE, p->event, nullptr))) return r;
    return self();
}
int find(uint64_t h) { for (size_t i = 0; i < w->conds.size(); i++) if (w->conds[i].h == h) return (int)i; return -1; }
uint64_t some() {
    if (!w->conds.empty() && !g.chance(1, 12)) {
        size_t n = w->conds.size(), k = g.below(n);
        if (!w->conds[k].open && g.chance(2, 3)) for (size_t i = 0; i < n; i++) if (w->conds[(k + i) % n].open) return w->conds[(k + i) % n].h;
        return w->conds[k].h;
    }
    switch (g.below(3)) {
    case 0: return 1 + g.below(20);
    case 1: return w->conds.empty() ? 7 : w->conds.back().h + 1 + g.below(3);
    default: { uint64_t v = g.u64(); return v ? v : 1; }
    }
}
status entry(void*);
void spawn() {
    int i = w->nf++; w->fib[i] = Fib{};
    OK(rc_fiber_create(&w->fib[i].f, w->a, w->s, 65536, (void*)(intptr_t)i, &entry));
    g.log("  fiber %d added\n", i);
    OK(rc_fiber_scheduler_add(w->s, w->fib[i].f));
}
void notify(int c, bool all) {
    uint64_t h = some(); int k = find(h); bool open = k >= 0 && w->conds[k].open;
    int mine[MAXF], n = 0; // no heap in this frame
    if (open) {
        auto& q = w->conds[k].waiters;
        for (size_t i = 0; i < (all ? q.size() : std::min<size_t>(1, q.size())); i++) if (w->fib[q[i]].pending) return; // (known finding: an event overwrites another)
        while (!q.empty() && (all || !n)) { int f = q.front(); q.pop_front(); w->fib[f].notified = true; w->waking.push_back({f, ++w->serial}); mine[n++] = w->serial; if (!q.empty()) w->together++; }
    }
    g.log("[%d] notify %s on %llu (%s, wakes %d)\n", c, all ? "all" : "one", (unsigned long long)h, open ? "open" : "not open", n);
    status r = all ? rc_conditional_notify_all(h, w->cd) : rc_conditional_notify_one(h, w->cd);
    if (!open) { CHECK(r != STATUS_SUCCESS, "notifying a condition that is not open succeeded"); return; }
    CHECK(r == STATUS_SUCCESS, "a notification failed with %08x", r);
    for (int i = 0; i < n; i++) for (auto& f : w->waking) CHECK(f.second != mine[i], "the notifying fiber resumed before fiber %d, which it woke", f.first);
}
void op_wait(int c, uint64_t h) {
        int k = find(h);
        if (k < 0 || !w->conds[k].open) {
            g.log("[%d] wait on %llu (not open)\n", c, (unsigned long long)h);
            status r = rc_conditional_wait(h, w->cd);
            CHECK(r != STATUS_SUCCESS, "waiting on a condition that is not open succeeded"); return;
        }
        if (c == 0) return;
        Fib& me = w->fib[c]; me.blocked = true; me.notified = false; w->conds[k].waiters.push_back(c);
        g.log("[%d] wait on %llu (%zu wait)\n", c, (unsigned long long)h, w->conds[k].waiters.size());
        status r = rc_conditional_wait(h, w->cd);
        g.log("[%d] wait returns %08x\n", c, (unsigned)r);
        me.blocked = false;
        if (me.notified) {
            CHECK(r == STATUS_SUCCESS, "a notified fiber's wait returned %08x", r);
            CHECK(!w->waking.empty() && w->waking.front().first == c, "fiber %d woke before fiber %d, which was to wake first", c, w->waking.empty() ? -1 : w->waking.front().first);
            w->waking.pop_front(); w->woken++;
        } else if (me.pending) {
            CHECK(r != STATUS_SUCCESS, "an interrupted wait returned success without a notification");
            auto& q = w->conds[k].waiters; for (auto i = q.begin(); i != q.end(); ++i) if (*i == c) { q.erase(i); break; }
            w->interrupted++;
        } else fail("a wait returned %08x though nothing was notified", r);
        me.pending = me.notified = false;
}
bool step(int c) {
    w->budget--;
    if (w->crowd && c != 0 && g.chance(3, 4)) { op_wait(c, w->conds[g.below(w->conds.size())].h); return true; }
    size_t op = g.pick({3, 3, 12, 6, 6, 2, 1, 2, 1, 1, 1});
    switch (op) {
    case 0: { g.log("[%d] yield\n", c); OK(rc_fiber_scheduler_run(w->s)); break; }
    case 1: {
        if (w->conds.size() >= (w->crowd ? 2 : 10)) break;
        uint64_t h = 0; status r = rc_conditional_create(&h, w->cd);
        g.log("[%d] create condition -> %llu\n", c, (unsigned long long)h);
        CHECK(r == STATUS_SUCCESS, "creating a condition failed with %08x", r);
        CHECK(h != 0 && find(h) < 0, "handle %llu was given out twice", (unsigned long long)h);
        w->conds.push_back(Cond{h, true, {}}); break;
    }
    case 2: op_wait(c, some()); break;
    case 3: notify(c, false); break;
    case 4: notify(c, true); break;
    case 5: { // close
        uint64_t h = some(); int k = find(h); bool open = k >= 0 && w->conds[k].open;
        if (open && !w->conds[k].waiters.empty() && g.chance(2, 3)) break; // its waiters will sleep for ever
        if (open) { w->conds[k].open = false; w->conds[k].waiters.clear(); }
        g.log("[%d] close %llu (%s)\n", c, (unsigned long long)h, open ? "open" : "not open");
        status r = rc_conditional_close(h, w->cd);
        if (open) CHECK(r == STATUS_SUCCESS, "closing a condition failed with %08x", r);
        else CHECK(r != STATUS_SUCCESS, "closing a condition that is not open succeeded");
        break;
    }
    case 6: { rc_fiber_scheduler_discipline* d = nullptr; OK(rc_condition_discipline_get_or_create(&d, w->a, w->s)); CHECK(d == w->cd, "the scheduler has two condition disciplines"); break; }
    case 7: { // interrupt a waiter
        int v[MAXF], n = 0; for (int i = 1; i < w->nf; i++) if (w->fib[i].blocked && !w->fib[i].pending && !w->fib[i].notified) v[n++] = i;
        if (!n) break;
        int t = v[g.below(n)]; w->fib[t].pending = true; g.label("interrupted wait");
        if (g.chance(1, 4)) {
            g.log("[%d] ask fiber %d to quiesce\n", c, t);
            OK(rc_disciplined_fiber_scheduler_send_quiesce_request_to_fiber(w->s, w->fib[t].f)); break;
        }
        Poke p{w->fib[t].f, (int)g.below(9), (int)g.below(2)};
        g.log("[%d] interrupt fiber %d with event %d (%s)\n", c, t, p.event, p.mode ? "queued" : "at once");
        const rc_rcpr_uuid* id; int e; void* prm;
        OK(rc_fiber_discipline_yield(w->poke, 0, &p, &id, &e, &prm));
        CHECK(!memcmp(id, &POKE, 16) && e == 99, "the interrupting fiber was resumed with another event"); break;
    }
    case 8: { if (c == 0 && w->nf < (w->crowd ? MAXF : 10)) spawn(); break; }
    case 9: return c == 0;
    case 10: {
        if (w->churn++ > 1) break;
        int n = g.chance(1, 300) ? 65000 + (int)g.below(3000) : (int)g.size(300); g.log("[%d] create and close %d conditions\n", c, n);
        for (int i = 0; i < n; i++) {
            uint64_t h = 0; OK(rc_conditional_create(&h, w->cd));
            CHECK(h != 0 && find(h) < 0, "handle %llu was given out twice", (unsigned long long)h);
            status r = rc_conditional_close(h, w->cd); CHECK(r == STATUS_SUCCESS, "closing condition %llu failed with %08x", (unsigned long long)h, r);
        }
        break;
    }
    }
    return true;
}
status entry(void* p) {
    int c = (int)(intptr_t)p;
    while (w->budget > 0 && step(c)) if (g.chance(1, 4)) { g.log("[%d] yield\n", c); OK(rc_fiber_scheduler_run(w->s)); }
    g.log("[%d] stops\n", c);
    w->fib[c].done = true;
    return STATUS_SUCCESS;
}
} // namespace
// known finding: a notification for a waiter that another event has already
// made runnable replaces that event, and then wakes the fiber twice.
static int wakes; static rc_fiber_scheduler* ps; static rc_fiber_scheduler_discipline *pc, *pp; static uint64_t ph;
static status probe_entry(void*) {
    for (int i = 0; i < 3; i++) if (rc_conditional_wait(ph, pc) == STATUS_SUCCESS) wakes++;
    for (;;) OK(rc_fiber_scheduler_run(ps));
}
static void notify_to_runnable() {
    wakes = 0; rc_allocator* a = make_alloc(); OK(rc_fiber_scheduler_create_with_disciplines(&ps, a)); OK(rc_condition_discipline_get_or_create(&pc, a, ps));
    rc_fiber_scheduler_discipline_callback_fn v[1] = {&poke_handler};
    OK(rc_fiber_scheduler_discipline_create(&pp, &POKE, a, &ps, 1, v)); OK(rc_fiber_scheduler_discipline_add(ps, pp));
    OK(rc_conditional_create(&ph, pc));
    rc_fiber* f; OK(rc_fiber_create(&f, a, ps, 65536, nullptr, &probe_entry)); OK(rc_fiber_scheduler_add(ps, f));
    OK(rc_fiber_scheduler_run(ps));
    Poke p{f, 3, 1}; const rc_rcpr_uuid* id; int e; void* prm; OK(rc_fiber_discipline_yield(pp, 0, &p, &id, &e, &prm));
    OK(rc_conditional_notify_one(ph, pc));
    for (int i = 0; i < 4; i++) OK(rc_fiber_scheduler_run(ps));
    CHECK(wakes == 1, "one notification woke one fiber %d times", wakes);
}
const std::vector<Probe> PROBES = { { "notify-to-runnable", &notify_to_runnable } };
void setup() {}
void run_case() {
    heap.begin();
    static World world; world = World{}; w = &world;
    w->a = make_alloc(); OK(rc_fiber_scheduler_create_with_disciplines(&w->s, w->a));
    OK(rc_condition_discipline_get_or_create(&w->cd, w->a, w->s));
    rc_fiber_scheduler_discipline_callback_fn v[1] = {&poke_handler};
    OK(rc_fiber_scheduler_discipline_create(&w->poke, &POKE, w->a, &w->s, 1, v)); OK(rc_fiber_scheduler_discipline_add(w->s, w->poke));
    OK(rc_disciplined_fiber_scheduler_main_fiber_get(&w->fib[0].f, w->s)); w->nf = 1;
    int n = 1 + (int)g.below(7);
    if (g.chance(1, 150)) { n = 10 + (int)g.below(290); w->crowd = 1; g.label("crowd"); uint64_t h; OK(rc_conditional_create(&h, w->cd)); w->conds.push_back(Cond{h, true, {}}); }
    for (int i = 0; i < n; i++) spawn();
    w->budget = (w->crowd ? 3 * n : 0) + 10 + (int)g.size(140);
    int idle = 0;
    while (w->budget > 0) {
        bool runnable = false; for (int i = 1; i < w->nf; i++) if (!w->fib[i].done && (!w->fib[i].blocked || w->fib[i].pending)) runnable = true;
        if (!runnable && ++idle > 40) break;
        step(0);
        if (g.chance(1, 2)) OK(rc_fiber_scheduler_run(w->s));
    }
    for (int i = 0; i < 14; i++) OK(rc_fiber_scheduler_run(w->s));
    for (int i = 1; i < w->nf; i++) {
        CHECK(w->fib[i].done || w->fib[i].blocked, "fiber %d never finished", i);
        CHECK(!w->fib[i].blocked || (!w->fib[i].notified && !w->fib[i].pending), "fiber %d was never woken", i);
    }
    g.log("the scheduler ends\n");
    OK(rc_resource_release(rc_fiber_scheduler_resource_handle(w->s)));
    free_alloc(w->a);
    heap.expect_clean("at the end"); heap.end();
    if (w->interrupted) g.label("interruptions"); if (w->woken) g.label("woken");
    if (w->woken >= 3 && w->together) g.nontrivial();
}
} // namespace vp
