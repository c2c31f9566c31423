// C36: schedulers run by the user's own callback.
#include "rc.hpp"
#include <deque>
namespace vp {
const char* const PROPERTY = "C36";
const char* const RULE = "a case makes a scheduler around a user callback (at times first ones whose callback refuses the main fiber, resumes something else, or which run out of memory), and runs a program its fibers make up: yields of any event, the run call, adding new and formerly refused fibers, stopping, registering disciplines, queries; the callback checks whom and what it was called with and answers by refusing with a generated status or by resuming any live fiber, with an identifier or without one; results, states, ownership and the final release are compared; non-trivial = at least three fibers, a refusal and six resumes";
const std::vector<Probe> PROBES;
void setup() {}
struct Fb { rc_fiber* f; int id; int state; bool owned, main; const rc_rcpr_uuid* xid; int xev; void* xparam; status ret; };
struct W { rc_fiber_scheduler* s; Fb* cur; char tag; };
static W* world; static std::deque<Fb>* fbs; static rc_allocator* A; static int steps, budget, resumes, refusals, releases; static bool done, want;
static int wev; static void* wparam; static bool stopping; static Fb* adding; static status answer, release_answer;
static rc_rcpr_uuid ids[4]; static char toks[64];
static int live() { int n = 0; for (auto& f : *fbs) n += f.owned && f.state != FIBER_STATE_STOPPED; return n; }
static status code() { switch (g.below(3)) { case 0: return ERROR_GENERAL_OUT_OF_MEMORY; case 1: return STATUS_CODE(1, 0x7f, 1 + g.below(99)); default: { status s = (status)g.u64(); return s ? s : 1; } } }
static status callback(void* context, rc_fiber* by, int event, void* param, rc_fiber** rf, const rc_rcpr_uuid** rid, int* rev, void** rparam) {
    CHECK(context == world, "the callback got another context");
    if (!world->cur) {
        CHECK(event == FIBER_SCHEDULER_YIELD_EVENT_MAIN, "a new scheduler first calls its callback with event %d", event);
        CHECK(by && rc_fiber_state_get(by) == FIBER_STATE_RUNNING, "the main fiber is announced in state %d", (int)rc_fiber_state_get(by));
        fbs->push_back(Fb{by, 0, FIBER_STATE_RUNNING, true, true, nullptr, 0, nullptr, 0}); world->cur = &fbs->front();
        *rf = by; if (g.coin()) *rid = &ids[0]; *rev = FIBER_SCHEDULER_RESUME_EVENT_MAIN; *rparam = nullptr;
        return STATUS_SUCCESS;
    }
    if (event == FIBER_SCHEDULER_YIELD_EVENT_RESOURCE_RELEASE && !want) {
        CHECK(by == fbs->front().f && !param, "the release is announced with another fiber than the main fiber");
        releases++;
        for (auto& f : *fbs) if (f.owned && !f.main) { OK(rc_resource_release(rc_fiber_resource_handle(f.f))); f.owned = false; f.f = nullptr; }
        *rf = nullptr; *rev = 0; *rparam = nullptr;
        return release_answer;
    }
    CHECK(want, "the callback was called (event %d) though nothing yielded", event); want = false;
    CHECK(by == world->cur->f, "the callback was told that another fiber than fiber %d yielded", world->cur->id);
    CHECK(event == wev, "fiber %d yielded event %d, the callback got %d", world->cur->id, wev, event);
    if (stopping) {
        stopping = false; world->cur->state = FIBER_STATE_STOPPED;
        CHECK(param && *(status*)param == world->cur->ret, "fiber %d returned %08x, the callback was not told so", world->cur->id, world->cur->ret);
        CHECK(rc_fiber_state_get(by) == FIBER_STATE_STOPPED, "fiber %d returned and is in state %d", world->cur->id, (int)rc_fiber_state_get(by));
    } else CHECK(param == wparam, "fiber %d yielded another parameter than the callback got", world->cur->id);
    if (answer) { refusals++; if (g.coin()) { *rf = nullptr; *rev = 99; *rparam = nullptr; *rid = nullptr; } return answer; }
    Fb* next = nullptr;
    if (adding) { adding->owned = true; if (!done && g.coin()) next = adding; adding = nullptr; }
    if (done) next = &fbs->front();
    if (!next) { int k = (int)g.below((size_t)live()); for (auto& f : *fbs) if (f.owned && f.state != FIBER_STATE_STOPPED && !k--) next = &f; }
    bool quiet = g.chance(1, 4); // leaves the identifier as it is
    next->xid = quiet ? nullptr : &ids[g.below(4)]; next->xev = g.coin() ? (int)g.below(64) : (int)g.u64(); next->xparam = g.chance(1, 4) ? nullptr : &toks[g.below(64)];
    *rf = next->f; if (!quiet) *rid = next->xid; *rev = next->xev; *rparam = next->xparam;
    resumes++; world->cur = next;
    return STATUS_SUCCESS;
}
static status no_handler(void*, rc_fiber*, int, void*) { fail("a handler of a refused discipline was called"); }
static int odd_mode, odd_calls; static rc_fiber* odd_main;
static status odd_callback(void* c, rc_fiber* by, int event, void*, rc_fiber** rf, const rc_rcpr_uuid** rid, int* rev, void** rparam) {
    CHECK(c == &odd_calls, "the callback got another context");
    *rid = &ids[0]; *rparam = nullptr; *rf = by; *rev = FIBER_SCHEDULER_RESUME_EVENT_MAIN;
    if (event == FIBER_SCHEDULER_YIELD_EVENT_RESOURCE_RELEASE) { CHECK(odd_calls == 1 && by == odd_main, "a scheduler that was not made is released twice"); odd_calls++; *rf = nullptr; return STATUS_SUCCESS; }
    CHECK(event == FIBER_SCHEDULER_YIELD_EVENT_MAIN && !odd_calls, "a new scheduler calls its callback with event %d", event);
    odd_calls++; odd_main = by;
    switch (odd_mode) {
    case 0: return answer;
    case 1: *rf = nullptr; return STATUS_SUCCESS;
    case 2: *rev = g.coin() ? 0 : (int)(FIBER_SCHEDULER_RESUME_EVENT_MAIN + 1 + g.below(500)); if (*rev == FIBER_SCHEDULER_RESUME_EVENT_MAIN) *rev = -1; return STATUS_SUCCESS;
    default: *rf = world->cur->f; return STATUS_SUCCESS; // a fiber, but another one
    }
}
static void odd_scheduler() {
    status keep = answer; answer = code(); odd_mode = (int)g.below(5); odd_calls = 0;
    if (odd_mode == 3 && !world) odd_mode = 1;
    rc_fiber_scheduler* s = nullptr; size_t before = heap.live();
    if (odd_mode == 4) heap.arm_from(g.below(2));
    status r = rc_fiber_scheduler_create(&s, A, &odd_calls, &odd_callback);
    if (odd_mode == 4) { heap.disarm(); CHECK(r == ERROR_GENERAL_OUT_OF_MEMORY && !odd_calls, "creating a scheduler without memory gives %08x", r); }
    else if (odd_mode == 0) CHECK(r == answer, "the callback refused the main fiber with %08x, creating the scheduler gives %08x", answer, r);
    else CHECK(r == (status)ERROR_FIBER_SCHEDULER_CALLBACK_STATE, "the callback did not resume the main fiber (%d), creating the scheduler gives %08x", odd_mode, r);
    g.log("a scheduler that cannot be made: %08x", r); g.label("scheduler refused");
    CHECK(!s && heap.live() == before, "a scheduler that was not made left memory behind");
    answer = keep;
}
static void resumed(Fb* me, status r, status ans, const char* what) {
    CHECK(r == ans, "the callback answered %08x, %s gives %08x", ans, what, r);
    CHECK(world->cur == me, "fiber %d goes on although fiber %d was resumed", me->id, world->cur->id);
    CHECK(rc_fiber_state_get(me->f) == FIBER_STATE_RUNNING, "running fiber %d is in state %d", me->id, (int)rc_fiber_state_get(me->f));
}
static void expect(int ev, void* p, bool may_refuse) { wev = ev; wparam = p; want = true; answer = may_refuse && !done && g.chance(1, 5) ? code() : STATUS_SUCCESS; }
static void yield(Fb* me) {
    const rc_rcpr_uuid* id = nullptr; int ev = 0; void* pa = nullptr;
    int e = g.coin() ? FIBER_SCHEDULER_YIELD_EVENT_INTERNAL_COUNT + (int)g.below(100) : (int)g.u64(); if (e >= 0 && e < FIBER_SCHEDULER_YIELD_EVENT_INTERNAL_COUNT) e = 0x1234;
    expect(e, g.chance(1, 4) ? nullptr : (void*)&toks[g.below(64)], true); status ans = answer;
    g.log("fiber %d yields %d%s", me->id, e, ans ? ", refused" : "");
    status r = rc_fiber_scheduler_yield(world->s, e, wparam, &id, &ev, &pa); answer = STATUS_SUCCESS;
    resumed(me, r, ans, "the yield");
    if (ans) return;
    CHECK(id && (!me->xid || id == me->xid), "fiber %d was resumed with another identifier", me->id);
    CHECK(ev == me->xev && pa == me->xparam, "fiber %d was resumed with event %d, not %d, or another parameter", me->id, ev, me->xev);
}
static status entry(void* c);
static void add(Fb* me) {
    Fb* f = nullptr; for (auto& x : *fbs) if (!x.owned && x.f && x.state == FIBER_STATE_CREATED && g.coin()) f = &x;
    if (!f) {
        if (fbs->size() > 12) return;
        fbs->push_back(Fb{nullptr, (int)fbs->size(), FIBER_STATE_CREATED, false, false, nullptr, 0, nullptr, 0}); f = &fbs->back();
        status r = rc_fiber_create(&f->f, A, world->s, 16384 + g.below(100000), f, &entry); OK(r);
    }
    CHECK(rc_fiber_state_get(f->f) == FIBER_STATE_CREATED, "a fiber that never ran is in state %d", (int)rc_fiber_state_get(f->f));
    expect(FIBER_SCHEDULER_YIELD_EVENT_ADD_FIBER, f->f, true); status ans = answer; adding = ans ? nullptr : f;
    g.log("fiber %d adds fiber %d%s", me->id, f->id, ans ? ", refused" : "");
    status r = rc_fiber_scheduler_add(world->s, f->f); answer = STATUS_SUCCESS;
    resumed(me, r, ans, "adding a fiber");
    CHECK(rc_fiber_scheduler_from_fiber_get(f->f ? f->f : me->f) == world->s, "a fiber belongs to another scheduler");
}
static void discipline(Fb* me) {
    rc_fiber_scheduler_discipline_callback_fn v[2] = {&no_handler, &no_handler}; rc_fiber_scheduler_discipline* d = nullptr; char ctx;
    OK(rc_fiber_scheduler_discipline_create(&d, &ids[1], A, &ctx, 1 + g.below(2), v));
    uint64_t n = heap.total_allocs(); size_t lv = heap.live();
    status r = rc_fiber_scheduler_discipline_add(world->s, d);
    g.log("fiber %d registers a discipline: %08x", me->id, r);
    CHECK(r == (status)ERROR_FIBER_SCHEDULER_NOT_DISCIPLINED, "registering a discipline with a plain scheduler gives %08x", r);
    rc_fiber_scheduler_discipline* q = nullptr; r = rc_fiber_scheduler_discipline_find(&q, world->s, g.coin() ? &ids[1] : &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE);
    CHECK(r == (status)ERROR_FIBER_SCHEDULER_NOT_DISCIPLINED && !q, "finding a discipline of a plain scheduler gives %08x", r);
    CHECK(heap.total_allocs() == n && heap.live() == lv, "a refused discipline cost memory");
    if (g.coin()) { // it can still be registered elsewhere
        rc_fiber_scheduler* s = nullptr; OK(rc_fiber_scheduler_create_with_disciplines(&s, A));
        OK(rc_fiber_scheduler_discipline_add(s, d)); OK(rc_fiber_scheduler_discipline_find(&q, s, &ids[1])); CHECK(q == d, "another discipline was found");
        OK(rc_resource_release(rc_fiber_scheduler_resource_handle(s)));
    } else OK(rc_resource_release(rc_fiber_scheduler_discipline_resource_handle(d)));
    g.label("discipline refused");
}
static void queries() {
    for (auto& f : *fbs) if (f.f) {
        CHECK((int)rc_fiber_state_get(f.f) == f.state, "fiber %d is in state %d instead of %d", f.id, (int)rc_fiber_state_get(f.f), f.state);
        CHECK(rc_fiber_scheduler_from_fiber_get(f.f) == world->s, "fiber %d belongs to another scheduler", f.id);
    }
}
static void body(Fb* me) {
    while (!done) {
        if (++steps > budget) { done = true; break; }
        switch (g.pick({8, 4, 2, 1, 1, 2, 2})) {
        case 0: yield(me); break;
        case 1: add(me); break;
        case 2: { expect(FIBER_SCHEDULER_YIELD_EVENT_RUN, nullptr, true); status ans = answer; g.log("fiber %d runs the others%s", me->id, ans ? ", refused" : ""); status r = rc_fiber_scheduler_run(world->s); answer = STATUS_SUCCESS; resumed(me, r, ans, "the run call"); break; }
        case 3: discipline(me); break;
        case 4: odd_scheduler(); break;
        case 5: queries(); break;
        default: if (!me->main && live() > 1) return;
        }
    }
}
static status entry(void* c) {
    Fb* me = nullptr; for (auto& f : *fbs) if (&f == c) me = &f;
    CHECK(me && me->state == FIBER_STATE_CREATED, "a fiber's function got another context, or was entered twice");
    CHECK(world->cur == me, "fiber %d starts although fiber %d was resumed", me->id, world->cur->id);
    me->state = FIBER_STATE_RUNNING;
    CHECK(rc_fiber_state_get(me->f) == FIBER_STATE_RUNNING, "running fiber %d is in state %d", me->id, (int)rc_fiber_state_get(me->f));
    body(me);
    if (done) for (;;) yield(me);
    g.log("fiber %d stops", me->id);
    me->ret = g.coin() ? STATUS_SUCCESS : code(); wev = FIBER_SCHEDULER_YIELD_EVENT_STOP; want = stopping = true; answer = STATUS_SUCCESS;
    return me->ret;
}
void run_case() {
    static std::deque<Fb> keep; keep.clear(); fbs = &keep; static W w; world = nullptr;
    steps = resumes = refusals = releases = 0; done = want = stopping = false; adding = nullptr; answer = STATUS_SUCCESS;
    for (int i = 0; i < 4; i++) for (int k = 0; k < 16; k++) ids[i].data[k] = (uint8_t)(i * 31 + k + 1);
    budget = 5 + (int)g.below(60);
    heap.begin(); A = make_alloc();
    if (g.chance(1, 6)) odd_scheduler();
    w = W{nullptr, nullptr, 0}; world = &w;
    OK(rc_fiber_scheduler_create(&w.s, A, &w, &callback));
    CHECK(w.cur && w.s, "the scheduler did not announce its main fiber");
    body(&fbs->front());
    done = true; queries();
    // fibers nobody took are still the caller's
    bool early = g.coin();
    auto mine = [&] { for (auto& f : *fbs) if (!f.owned && f.f && f.state == FIBER_STATE_CREATED) { OK(rc_resource_release(rc_fiber_resource_handle(f.f))); f.f = nullptr; } };
    if (early) mine();
    release_answer = g.chance(1, 4) ? code() : STATUS_SUCCESS; int n = (int)fbs->size();
    status r = rc_resource_release(rc_fiber_scheduler_resource_handle(w.s));
    CHECK(r == release_answer, "the callback answered the release with %08x, the release gives %08x", release_answer, r);
    CHECK(releases == 1, "the callback was told %d times of the release", releases);
    if (!early) mine();
    free_alloc(A);
    CHECK(heap.live_maps() == 0, "%zu stacks were not given back", heap.live_maps());
    heap.expect_clean("after everything was released"); heap.end();
    if (n >= 3 && refusals && resumes >= 6) g.nontrivial();
}
} // namespace vp
