// C25: lifecycle notices and shutdown requests against a model.
#include "machine.hpp"
namespace vp {
const char* const PROPERTY = "C25";
const char* const RULE = "a case is a program of up to 120 steps that its fibers make up as they run: waiting for management events, adding fibers, stopping, removing fibers, asking one fiber (fresh, sleeping, waiting or stopped) or all fibers to quiesce or terminate, yielding, at times with a crowd of 30-330 fibers; a model says which fiber must run after each change of control and with which notice; non-trivial = at least one notice and one request in the case";
// known finding: a fiber that is already runnable loses the event it was made
// runnable with, and gets the request once for each time it is queued.
static int requests;
static rc_fiber_scheduler_discipline* sleeper;
static status sleep_handler(void*, rc_fiber*, int, void*) { return STATUS_SUCCESS; }
static status ready_entry(void* c) {
    for (;;) {
        const rc_rcpr_uuid* id; int e; void* p;
        // yields the first time, sleeps from then on
        status r = requests ? rc_fiber_discipline_yield(sleeper, 0, nullptr, &id, &e, &p) : rc_fiber_scheduler_yield((rc_fiber_scheduler*)c, FIBER_SCHEDULER_YIELD_EVENT_RUN, nullptr, &id, &e, &p);
        if (r) fail("a yield returned %08x", r);
        if (!memcmp(id, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE, 16) && e == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST) requests++;
    }
}
static void request_to_runnable() {
    requests = 0;
    rc_allocator* a = make_alloc(); rc_fiber_scheduler* s; OK(rc_fiber_scheduler_create_with_disciplines(&s, a));
    rc_rcpr_uuid id = {{1, 2, 3}}; rc_fiber_scheduler_discipline_callback_fn v[1] = {&sleep_handler};
    OK(rc_fiber_scheduler_discipline_create(&sleeper, &id, a, nullptr, 1, v)); OK(rc_fiber_scheduler_discipline_add(s, sleeper));
    rc_fiber* f; OK(rc_fiber_create(&f, a, s, 65536, s, &ready_entry)); OK(rc_fiber_scheduler_add(s, f));
    OK(rc_fiber_scheduler_run(s)); // it yields, and is queued behind the main fiber
    OK(rc_disciplined_fiber_scheduler_send_quiesce_request_to_fiber(s, f));
    for (int i = 0; i < 6; i++) OK(rc_fiber_scheduler_run(s));
    CHECK(requests == 1, "a runnable fiber received one quiesce request %d times", requests);
}
const std::vector<Probe> PROBES = { { "request-to-runnable", &request_to_runnable } };
void setup() {}
void run_case() {
    Machine m; Weights w; w.run = 4; w.add = 5; w.disc = 6; w.queue = 3; w.mgmt = 6; w.one = 5; w.all = 3; w.remove = 3; w.query = 1; w.stop = 4; w.idle = 1; w.length = 40;
    m.play(w);
    if (m.notices && m.requests) g.nontrivial();
}
} // namespace vp
