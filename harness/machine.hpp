// The disciplined scheduler as a model: a run queue of (fiber, event) entries,
// an idle fiber, a fiber waiting for management events, and disciplines.  The
// program every fiber runs is generated while it runs; each time control
// changes hands the model says who must run now and with what.
#pragma once
#include "rc.hpp"
#include <algorithm>
#include <memory>
#include <sys/wait.h>
#include <unistd.h>
namespace vp {
struct Weights { unsigned run = 0, add = 0, disc = 0, queue = 0, mgmt = 0, one = 0, all = 0, remove = 0, query = 0, newdisc = 0, bad = 0, idle = 0, stop = 0; unsigned length = 30; };
struct Machine {
    struct Ev { const rc_rcpr_uuid* id; int ev; void* param; bool operator==(const Ev& o) const { return !memcmp(id, o.id, sizeof *id) && ev == o.ev && param == o.param; } };
    enum State { CREATED = 0, RUNNING = 1, STOPPED = 2 };
    struct Fib { Machine* m; rc_fiber* f = nullptr; int id = 0; State st = CREATED; bool intree = true, entered = false, is_idle = false, asking = false; std::vector<Ev> pending; int queued = 0; status result = 0; };
    struct Qe { Fib* f; Ev e; int group; };
    struct Disc;
    struct Slot { Disc* d; int k; };
    struct Disc { Machine* m; rc_fiber_scheduler_discipline* p = nullptr; rc_rcpr_uuid id; size_t n; int tag; char ctx; bool live = true; int code0 = -1; };
    rc_allocator* a = nullptr; rc_fiber_scheduler* s = nullptr;
    std::deque<Fib> fibs; std::deque<Disc> discs; std::deque<rc_rcpr_uuid> uuids;
    std::deque<Qe> rq; Fib *cur = nullptr, *idle = nullptr, *mgmt = nullptr, *mainf = nullptr;
    std::deque<Qe> expect; // whoever may run next (all of one group, or one entry)
    int groups = 0; int steps = 0, budget = 60; bool draining = false; Weights w;
    int switches = 0, kinds = 0, crowd = 0;
    // what the handlers are to do in the current discipline yield
    struct Act { int what; Fib* f; Ev e; };
    struct Call { Disc* d; int k; Fib* by; void* param; std::vector<Act> acts; status st; int done; };
    Call call{};
    char tokens[64];

    Ev ev(const rc_rcpr_uuid* id, int e, void* p) { return Ev{id, e, p}; }
    const rc_rcpr_uuid* INT_ID = nullptr;
    void push_back(Fib* f, Ev e, int group = 0) { rq.push_back({f, e, group}); f->pending.push_back(e); f->queued++; }
    void push_front(Fib* f, Ev e) { rq.push_front({f, e, 0}); f->pending.push_back(e); f->queued++; }
    Ev gen_ev() { return ev(&uuids[g.below(uuids.size())], g.chance(1, 4) ? (int)g.u64() : (int)g.below(100), g.chance(1, 5) ? nullptr : &tokens[g.below(64)]); }
    // model: pick what runs after a successful yield. false: exhausted
    bool next() {
        expect.clear();
        if (!rq.empty()) {
            if (rq.front().group) { int gr = rq.front().group; for (auto& q : rq) { if (q.group != gr) break; expect.push_back(q); } }
            else expect.push_back(rq.front());
            return true;
        }
        if (idle) { expect.push_back({idle, ev(INT_ID, FIBER_SCHEDULER_RESUME_EVENT_IDLE, nullptr), -1}); return true; }
        return false;
    }
    // control has arrived in fiber f; `got` if the event is visible there.
    void arrive(Fib* f, const Ev* got) {
        ++switches;
        const Qe* hit = nullptr;
        for (auto& q : expect) if (q.f == f) { hit = &q; break; }
        if (!hit) { if (expect.empty()) fail("fiber %d runs although nothing was to run", f->id); fail("fiber %d runs, but fiber %d was next", f->id, expect.front().f->id); }
        Qe e = *hit;
        if (got) {
            // a fiber queued more than once may find any of the events given to it since
            bool good = *got == e.e || std::count(f->pending.begin(), f->pending.end(), *got);
            CHECK(good, "fiber %d was resumed with event %d (param %p) instead of %d (param %p)%s", f->id, got->ev, got->param, e.e.ev, e.e.param, memcmp(got->id, e.e.id, sizeof *got->id) ? ", of another discipline" : "");
        }
        if (e.group >= 0) {
            auto it = std::find_if(rq.begin(), rq.end(), [&](const Qe& q) { return q.f == f && q.group == e.group && q.e == e.e; });
            rq.erase(it); if (!--f->queued) f->pending.clear();
        }
        expect.clear(); cur = f;
        CHECK(f->st != STOPPED, "stopped fiber %d runs", f->id);
        rc_fiber* c = nullptr; OK(rc_disciplined_fiber_scheduler_current_fiber_get(&c, s));
        CHECK(c == f->f, "the current fiber is not the one that runs");
    }
    // a yield returned with status r; the model expects success iff something could run.
    void returned(Fib* me, status r, bool could, const Ev* got, const char* what) {
        if (!could) { CHECK(r == ERROR_FIBER_SCHEDULER_EXHAUSTED, "%s with nothing to run returned %08x", what, r); CHECK(cur == me, "%s failed but other fibers ran", what); return; }
        CHECK(r == STATUS_SUCCESS, "%s failed with %08x", what, r);
        arrive(me, got);
    }
    static status entry(void* c) { Fib* f = (Fib*)c; return f->m->body(f); }
    status body(Fib* me) {
        CHECK(!me->entered, "fiber %d's function was entered twice", me->id);
        me->entered = true;
        arrive(me, nullptr);
        me->st = RUNNING;
        while (!step(me)) ;
        // stop
        g.log("fiber %d stops", me->id);
        me->st = STOPPED;
        if (mgmt) { push_front(mgmt, ev(&FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE, FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_STOP, me->f)); mgmt = nullptr; }
        CHECK(next(), "harness: nothing can run after a stop");
        return me->result;
    }
    // (nothing a suspended fiber's frames own may live on the heap: the fiber may be released)
    size_t pick_op(Fib* me) {
        std::vector<unsigned> ww = {w.run, w.add, w.disc, w.queue, w.mgmt, w.one, w.all, w.remove, w.query, w.newdisc, w.bad, w.idle, w.stop};
        if (me == mainf || me->is_idle) ww[12] = 0;
        int alive = 0; for (auto& f : fibs) alive += f.st != STOPPED;
        if (!crowd && (alive > 9 || fibs.size() > 24)) ww[1] = 0;
        if (crowd && g.coin()) return 0;
        if (idle) ww[11] = 0;
        return g.pickv(ww);
    }
    // run one generated operation; true: stop this fiber (main: end of case)
    bool step(Fib* me) {
        if (++steps > budget) draining = true;
        if (!draining && me == mainf && !crowd && !g.more(w.length)) { draining = true; return true; }
        if (draining) {
            if (me == mainf) return true;
            if (!mainf->queued) { Ev e = ev(INT_ID, 7, nullptr); push_front(mainf, e); OK(rc_disciplined_fiber_scheduler_set_next_fiber_to_run(s, mainf->f, INT_ID, 7, nullptr)); }
            if (!me->is_idle) do_sleep(me); else do_idle(me);
            return false;
        }
        bool can_stop = me != mainf && !me->is_idle && !me->queued && me != mgmt && (!rq.empty() || idle || mgmt);
        size_t op = pick_op(me);
        kinds |= 1 << op;
        switch (op) {
        case 0: do_run(me); break;
        case 1: do_add(me); break;
        case 2: do_disc(me); break;
        case 3: do_queue(me); break;
        case 4: if (!mgmt && !me->is_idle && !me->queued) do_mgmt(me); else do_run(me); break;
        case 5: do_one(me); break;
        case 6: do_all(me); break;
        case 7: do_remove(me); break;
        case 8: do_query(me); break;
        case 9: do_newdisc(me); break;
        case 10: do_bad(me); break;
        case 11: do_set_idle(me); break;
        default: if (can_stop) { me->result = g.coin() ? STATUS_SUCCESS : (status)g.u64(); return true; } do_run(me); break;
        }
        return false;
    }
    void do_idle(Fib* me) {
        bool could = next();
        g.log("fiber %d yields as idle", me->id);
        status r = rc_disciplined_fiber_scheduler_idle_fiber_yield(s);
        returned(me, r, could, nullptr, "idling");
    }
    void do_run(Fib* me) {
        if (me->is_idle) { do_idle(me); return; }
        push_back(me, ev(INT_ID, FIBER_SCHEDULER_RESUME_EVENT_RUN, nullptr));
        bool could = next();
        if (g.coin()) { g.log("fiber %d runs the others", me->id); status r = rc_fiber_scheduler_run(s); returned(me, r, could, nullptr, "running"); return; }
        g.log("fiber %d yields", me->id);
        Ev got{}; status r = rc_fiber_scheduler_yield(s, FIBER_SCHEDULER_YIELD_EVENT_RUN, nullptr, &got.id, &got.ev, &got.param);
        returned(me, r, could, &got, "a yield");
    }
    Fib* make(size_t stack = 65536) {
        fibs.push_back(Fib{}); Fib* f = &fibs.back(); f->m = this; f->id = (int)fibs.size() - 1;
        OK(rc_fiber_create(&f->f, a, s, stack, f, &Machine::entry));
        CHECK(rc_fiber_state_get(f->f) == FIBER_STATE_CREATED, "a new fiber's state is %d", (int)rc_fiber_state_get(f->f));
        return f;
    }
    void do_add(Fib* me) {
        Fib* f = make();
        g.log("fiber %d adds fiber %d", me->id, f->id);
        push_back(f, ev(INT_ID, FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, nullptr));
        push_front(me, ev(INT_ID, FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, nullptr));
        if (mgmt) { push_front(mgmt, ev(&FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE, FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_ADD, f->f)); mgmt = nullptr; }
        bool could = next();
        status r = rc_fiber_scheduler_add(s, f->f);
        returned(me, r, could, nullptr, "adding a fiber");
    }
    // a fiber that may be queued from outside
    Fib* wakeable(Fib* me, bool again) {
        std::vector<Fib*> c;
        for (auto& f : fibs) if (f.st == RUNNING && f.intree && !f.asking && &f != mgmt && (again || (!f.queued && &f != me))) c.push_back(&f);
        if (c.empty()) return nullptr;
        return c[g.below(c.size())];
    }
    void do_queue(Fib* me) {
        Fib* f = wakeable(me, g.chance(1, 6));
        if (!f) { do_run(me); return; }
        Ev e = gen_ev(); bool front = g.coin();
        g.log("fiber %d makes fiber %d %s with event %d", me->id, f->id, front ? "next" : "last", e.ev);
        if (front) { push_front(f, e); OK(rc_disciplined_fiber_scheduler_set_next_fiber_to_run(s, f->f, e.id, e.ev, e.param)); }
        else { push_back(f, e); OK(rc_disciplined_fiber_scheduler_add_fiber_to_run_queue(s, f->f, e.id, e.ev, e.param)); }
    }
    template <int K> static status handler(void* ctx, rc_fiber* by, int, void* param) {
        Disc* d = nullptr;
        Machine* m = current;
        CHECK(m, "a handler ran outside any yield");
        for (auto& x : m->discs) if (&x.ctx == ctx) d = &x;
        CHECK(d, "a handler got a context that is no discipline's");
        return m->handled(d, K, by, param);
    }
    static inline Machine* current = nullptr;
    status handled(Disc* d, int k, rc_fiber* by, void* param) {
        CHECK(call.d && !call.done, "handler %d of discipline %d ran without a yield to it", k, d->tag);
        CHECK(d == call.d, "a yield to discipline %d reached discipline %d", call.d->tag, d->tag);
        CHECK(k == call.k, "a yield to handler %d of discipline %d reached handler %d", call.k, d->tag, k);
        CHECK(by == call.by->f, "the handler was told another fiber yielded");
        CHECK(param == call.param, "the handler got another parameter");
        call.done = 1;
        for (auto& x : call.acts) {
            if (x.what == 0) { push_back(x.f, x.e); OK(rc_disciplined_fiber_scheduler_add_fiber_to_run_queue(s, x.f->f, x.e.id, x.e.ev, x.e.param)); }
            else { push_front(x.f, x.e); OK(rc_disciplined_fiber_scheduler_set_next_fiber_to_run(s, x.f->f, x.e.id, x.e.ev, x.e.param)); }
        }
        status st = call.st;
        if (!st) next();
        return st;
    }
    void yield_to(Fib* me) {
        Disc* d = call.d; int k = call.k; status st = call.st;
        g.log("fiber %d yields to discipline %d handler %d%s", me->id, d->tag, k, st ? " which fails" : "");
        Ev got{}; current = this;
        // what the model will find once the handler has acted
        bool could = rq.size() + call.acts.size() > 0 || idle;
        status r = rc_fiber_discipline_yield(d->p, k, call.param, &got.id, &got.ev, &got.param);
        if (st) { CHECK(r == st, "the handler returned %08x, the yield %08x", st, r); CHECK(cur == me && call.d == d && call.done, "a failing handler's yield switched fibers"); return; }
        if (!could) CHECK(call.done, "the handler did not run");
        returned(me, r, could, &got, "a discipline yield");
    }
    void do_sleep(Fib* me) { call = Call{&discs[0], 0, me, nullptr, {}, STATUS_SUCCESS, 0}; yield_to(me); }
    void do_disc(Fib* me) {
        prepare(me);
        yield_to(me);
    }
    void prepare(Fib* me) {
        Disc* d = &discs[g.below(discs.size())]; int k = (int)g.below(d->n);
        std::vector<Act> acts;
        int n = (int)g.below(4); bool self = g.coin();
        bool mefirst = self && g.coin();
        if (mefirst) acts.push_back({(int)g.below(2), me, gen_ev()});
        std::vector<Fib*> used;
        for (int i = 0; i < n; i++) { Fib* f = wakeable(me, false); if (!f || std::count(used.begin(), used.end(), f)) continue; used.push_back(f); acts.push_back({(int)g.below(2), f, gen_ev()}); }
        if (self && !mefirst) acts.push_back({(int)g.below(2), me, gen_ev()});
        status st = g.chance(1, 8) ? (status)(STATUS_CODE(1, 0x7f, 1 + g.below(50))) : STATUS_SUCCESS;
        call = Call{d, k, me, g.chance(1, 6) ? nullptr : &tokens[g.below(64)], std::move(acts), st, 0};
    }
    void do_mgmt(Fib* me) {
        g.log("fiber %d waits for management events", me->id);
        mgmt = me;
        bool could = next();
        Ev got{}; status r = rc_disciplined_fiber_scheduler_receive_management_event(s, &got.id, &got.ev, &got.param);
        if (!could) mgmt = nullptr;
        returned(me, r, could, &got, "a management wait");
        if (could && got.ev <= FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_FIBER_STOP && !memcmp(got.id, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE, 16)) notices++;
    }
    int notices = 0, requests = 0;
    Fib* do_one_target(Fib* me) {
        std::vector<Fib*> c;
        for (auto& f : fibs) if (&f != me && f.intree && (f.st != RUNNING || !f.queued)) c.push_back(&f);
        return c.empty() ? nullptr : c[g.below(c.size())];
    }
    void do_one(Fib* me) {
        Fib* f = do_one_target(me);
        if (!f || me->queued) { do_run(me); return; }
        bool q = g.coin();
        g.log("fiber %d asks fiber %d (state %d%s) to %s", me->id, f->id, f->st, f == mgmt ? ", waiting for management events" : "", q ? "quiesce" : "terminate");
        status want = STATUS_SUCCESS; requests++;
        auto M = &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE;
        if (f->st != RUNNING) { want = ERROR_FIBER_INVALID_STATE; push_front(me, ev(M, FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_REQUEST_RESULT, nullptr)); }
        else {
            push_front(me, ev(M, FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_REQUEST_RESULT, nullptr));
            push_front(f, ev(M, q ? FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST : FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_TERMINATION_REQUEST, nullptr));
            if (f == mgmt) mgmt = nullptr;
        }
        next(); me->asking = true;
        status r = q ? rc_disciplined_fiber_scheduler_send_quiesce_request_to_fiber(s, f->f) : rc_disciplined_fiber_scheduler_send_terminate_request_to_fiber(s, f->f);
        CHECK(r == want, "a request to fiber %d in state %d returned %08x instead of %08x", f->id, f->st, r, want);
        arrive(me, nullptr); me->asking = false;
    }
    void do_all(Fib* me) {
        bool q = g.coin();
        for (auto& f : fibs) if (f.st == RUNNING && f.intree && &f != me && &f != mainf && !f.is_idle && f.queued) { do_run(me); return; }
        if (me->queued) { do_run(me); return; }
        g.log("fiber %d asks all fibers to %s", me->id, q ? "quiesce" : "terminate");
        auto M = &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE; int gr = ++groups; requests++;
        for (auto& f : fibs) if (f.st == RUNNING && f.intree && &f != me && &f != mainf && !f.is_idle && &f != mgmt)
            push_back(&f, ev(M, q ? FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST : FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_TERMINATION_REQUEST, nullptr), gr);
        push_back(me, ev(M, FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_REQUEST_RESULT, nullptr));
        next(); me->asking = true;
        status r = q ? rc_disciplined_fiber_scheduler_send_quiesce_request_to_all(s) : rc_disciplined_fiber_scheduler_send_terminate_request_to_all(s);
        CHECK(r == STATUS_SUCCESS, "a request to all returned %08x", r);
        arrive(me, nullptr); me->asking = false;
    }
    Fib* do_remove_target(Fib* me) {
        std::vector<Fib*> c;
        for (auto& f : fibs) if (&f != me && f.intree && &f != mainf && !f.is_idle && &f != mgmt && !f.queued && f.st != CREATED) c.push_back(&f);
        return c.empty() ? nullptr : c[g.below(c.size())];
    }
    void do_remove(Fib* me) {
        Fib* f = do_remove_target(me);
        if (!f) { do_run(me); return; }
        g.log("fiber %d removes fiber %d (state %d)", me->id, f->id, f->st);
        size_t live = heap.live(), maps = heap.live_maps();
        OK(rc_disciplined_fiber_scheduler_remove_fiber(s, f->f));
        f->intree = false;
        CHECK(heap.owns(f->f) && heap.live_maps() == maps, "removing a fiber released it");
        (void)live;
        if (g.coin()) { OK(rc_resource_release(rc_fiber_resource_handle(f->f))); CHECK(heap.live_maps() == maps - 1, "releasing a removed fiber did not release its stack"); f->f = nullptr; }
    }
    void do_query(Fib* me) {
        rc_fiber* p = nullptr; OK(rc_disciplined_fiber_scheduler_main_fiber_get(&p, s)); CHECK(p == mainf->f, "the main fiber is another one");
        p = nullptr; OK(rc_disciplined_fiber_scheduler_current_fiber_get(&p, s)); CHECK(p == me->f, "the current fiber is another one");
        for (auto& f : fibs) if (f.f) {
            CHECK((int)rc_fiber_state_get(f.f) == (int)f.st, "fiber %d's state is reported as %d instead of %d", f.id, (int)rc_fiber_state_get(f.f), f.st);
            rc_fiber_scheduler* x = rc_fiber_scheduler_from_fiber_get(f.f); CHECK(x == s, "fiber %d is said to belong to another scheduler", f.id);
        }
        for (auto& d : discs) {
            rc_fiber_scheduler_discipline* q = nullptr;
            OK(rc_fiber_scheduler_discipline_find(&q, s, &d.id)); CHECK(q == d.p, "looking up discipline %d found another one", d.tag);
            CHECK(rc_fiber_scheduler_discipline_context_get(q) == &d.ctx, "discipline %d has another context", d.tag);
            rc_fiber_scheduler* x = nullptr; OK(rc_fiber_discipline_scheduler_get(&x, q)); CHECK(x == s, "discipline %d is said to belong to another scheduler", d.tag);
        }
        rc_fiber_scheduler_discipline* q = nullptr;
        OK(rc_fiber_scheduler_discipline_find(&q, s, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE)); CHECK(q, "no management discipline");
        // an identifier nobody has
        rc_rcpr_uuid u; bool fresh = true;
        if (g.coin() && !discs.empty()) { u = discs[g.below(discs.size())].id; u.data[g.below(16)] ^= 1u << g.below(8); } else for (auto& c : u.data) c = (uint8_t)g.below(256);
        for (auto& d : discs) fresh &= !!memcmp(&u, &d.id, 16);
        fresh &= !!memcmp(&u, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE, 16);
        if (fresh) { status r = rc_fiber_scheduler_discipline_find(&q, s, &u); CHECK(r == ERROR_FIBER_SCHEDULER_DISCIPLINE_NOT_FOUND, "looking up an unknown identifier returned %08x", r); }
        g.log("fiber %d checks the bookkeeping", me->id);
    }
    static constexpr size_t HANDLERS = 400;
    static rc_fiber_scheduler_discipline_callback_fn* handlers();
    void do_newdisc(Fib* me) {
        Disc d; d.m = this; d.tag = (int)discs.size(); d.n = g.chance(1, 5) ? 1 + g.below(24) : g.chance(1, 12) ? 200 + g.below(HANDLERS - 199) : 1 + g.below(4);
        int how = (int)g.below(8);
        if (how == 0 && !discs.empty()) d.id = discs[g.below(discs.size())].id;
        else if (how == 1) d.id = FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE;
        else if (how <= 3 && !discs.empty()) { d.id = discs[g.below(discs.size())].id; d.id.data[g.below(16)] ^= 1u << g.below(8); }
        else for (auto& c : d.id.data) c = (uint8_t)g.below(256);
        bool dup = !memcmp(&d.id, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE, 16);
        for (auto& x : discs) dup |= !memcmp(&x.id, &d.id, 16);
        if (discs.size() >= 14 && !dup) { do_query(me); return; }
        g.log("fiber %d registers discipline %d with %zu handlers%s", me->id, d.tag, d.n, dup ? " under a taken identifier" : "");
        discs.push_back(d); Disc* p = &discs.back();
        rc_fiber_scheduler_discipline_callback_fn v[HANDLERS]; memcpy(v, handlers(), sizeof v);
        rc_rcpr_uuid id = d.id;
        OK(rc_fiber_scheduler_discipline_create(&p->p, &id, a, &p->ctx, p->n, v));
        memset(v, 0, sizeof v); memset(&id, 0, sizeof id); // the discipline keeps its own copies
        CHECK(rc_fiber_scheduler_discipline_context_get(p->p) == &p->ctx, "a new discipline has another context");
        status r = rc_fiber_scheduler_discipline_add(s, p->p);
        if (dup) {
            CHECK(r == ERROR_FIBER_SCHEDULER_DUPLICATE_DISCIPLINE_ID, "registering a taken identifier returned %08x", r);
            OK(rc_resource_release(rc_fiber_scheduler_discipline_resource_handle(p->p)));
            discs.pop_back(); return;
        }
        CHECK(r == STATUS_SUCCESS, "registering a discipline failed with %08x", r);
        if (g.chance(1, 4)) { r = rc_fiber_scheduler_discipline_add(s, discs[g.below(discs.size())].p); CHECK(r == ERROR_FIBER_SCHEDULER_DISCIPLINE_ALREADY_OWNED, "registering a discipline again returned %08x", r); }
    }
    // a number that differs from a good one in its high bits only
    int aliased(int k) {
        for (;;) { int e = (int)((unsigned)k + (g.coin() ? 1u << 31 : 1u << (9 + g.below(22)))); if (e < 0 || (size_t)e >= HANDLERS) return e; }
    }
    void do_bad(Fib* me) {
        Ev got{nullptr, 0, nullptr}; status r;
        if (g.coin()) {
            Disc& d = discs[g.below(discs.size())];
            int e = g.coin() ? (int)d.n : g.coin() ? (int)(d.n + g.below(30)) : (int)(-1 - (int64_t)g.below(1ull << 31));
            if (g.chance(1, 4)) e = INT32_MAX;
            if (g.chance(1, 4)) e = aliased((int)g.below(d.n));
            g.log("fiber %d yields event %d to discipline %d, which has %zu", me->id, e, d.tag, d.n);
            r = rc_fiber_discipline_yield(d.p, e, nullptr, &got.id, &got.ev, &got.param);
        } else {
            size_t total = FIBER_SCHEDULER_YIELD_EVENT_INTERNAL_COUNT + 5; for (auto& d : discs) total += d.n;
            int e = g.coin() ? (int)(total + g.below(3)) : g.coin() ? INT32_MAX - (int)g.below(1000) : (int)(-1 - (int64_t)g.below(1ull << 31));
            if (g.chance(1, 4)) { int b = aliased((int)g.below(total)); if (b < 0 || (size_t)b >= total) e = b; }
            g.log("fiber %d yields event %d of %zu", me->id, e, total);
            r = rc_fiber_scheduler_yield(s, e, nullptr, &got.id, &got.ev, &got.param);
        }
        CHECK(r == ERROR_FIBER_SCHEDULER_BAD_YIELD_EVENT, "an out of range event returned %08x", r);
        CHECK(cur == me, "an out of range event switched fibers");
    }
    void do_set_idle(Fib* me) {
        Fib* f = make(); f->is_idle = true;
        g.log("fiber %d makes fiber %d the idle fiber", me->id, f->id);
        OK(rc_disciplined_fiber_scheduler_set_idle_fiber(s, f->f));
        idle = f;
    }
    void play(const Weights& weights) {
        w = weights; budget = (int)w.length * 3;
        heap.begin();
        a = make_alloc();
        OK(rc_fiber_scheduler_create_with_disciplines(&s, a));
        fibs.push_back(Fib{}); mainf = &fibs.back(); mainf->m = this; mainf->st = RUNNING; mainf->entered = true;
        OK(rc_disciplined_fiber_scheduler_main_fiber_get(&mainf->f, s));
        cur = mainf;
        static const rc_rcpr_uuid none = {{0}};
        for (int i = 0; i < 4; i++) { rc_rcpr_uuid u; for (int k = 0; k < 16; k++) u.data[k] = (uint8_t)(i * 17 + k); uuids.push_back(u); }
        INT_ID = &none; internal_id();
        discs.push_back(Disc{this, nullptr, uuids[0], 4, 0, 0});
        OK(rc_fiber_scheduler_discipline_create(&discs[0].p, &discs[0].id, a, &discs[0].ctx, 4, handlers()));
        OK(rc_fiber_scheduler_discipline_add(s, discs[0].p));
        if (g.chance(1, 150)) {
            // a crowd: more fibers than any small counter holds
            crowd = g.coin() ? 250 + (int)g.below(20) : 30 + (int)g.below(300); budget += 2 * crowd;
            for (int i = 0; i < crowd; i++) do_add(mainf);
            if (g.coin()) for (int i = 0; i < 3; i++) do_run(mainf);
            g.label("crowd");
        }
        while (!step(mainf)) ;
        status r = rc_resource_release(rc_fiber_scheduler_resource_handle(s));
        CHECK(r == STATUS_SUCCESS, "releasing the scheduler returned %08x", r);
        for (auto& f : fibs) if (!f.intree && f.f) { CHECK(heap.owns(f.f), "releasing the scheduler released a removed fiber"); OK(rc_resource_release(rc_fiber_resource_handle(f.f))); }
        free_alloc(a);
        current = nullptr;
        CHECK(heap.live_maps() == 0, "%zu stacks are left after everything was released", heap.live_maps());
        heap.expect_clean("after the scheduler was released");
    }
    // learn the identifier the scheduler itself resumes fibers with
    void internal_id() {
        Ev got{}; status r = rc_fiber_scheduler_yield(s, FIBER_SCHEDULER_YIELD_EVENT_RUN, nullptr, &got.id, &got.ev, &got.param);
        CHECK(!r && got.ev == FIBER_SCHEDULER_RESUME_EVENT_RUN && !got.param, "a lone main fiber's yield returned %08x, event %d", r, got.ev);
        INT_ID = got.id;
    }
};
template <size_t... I> static inline rc_fiber_scheduler_discipline_callback_fn* handler_list(std::index_sequence<I...>) {
    static rc_fiber_scheduler_discipline_callback_fn v[] = {&Machine::handler<(int)I>...};
    return v;
}
inline rc_fiber_scheduler_discipline_callback_fn* Machine::handlers() { return handler_list(std::make_index_sequence<HANDLERS>()); }
} // namespace vp
