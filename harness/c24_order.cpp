// C24: the run queue of the disciplined scheduler against a queue model.
#include "machine.hpp"
#include <signal.h>
namespace vp {
const char* const PROPERTY = "C24";
const char* const RULE = "a case is a program of up to 120 steps that its fibers (up to 10 alive, up to 24 in all, one of them possibly the idle fiber) make up as they run: yielding, adding fibers, yielding to disciplines whose handlers queue fibers at either end, queueing fibers directly, idling, stopping; a queue model says after each change of control which fiber must run and with which event; the bookkeeping queries are compared too; at times a crowd of 30-330 fibers or a discipline of 200-400 handlers; one case in 400 instead lets the last runnable fiber stop, in a process of its own; non-trivial = at least 8 changes of control and four kinds of step";
const std::vector<Probe> PROBES;
void setup() {}
// the last runnable fiber stops: the process ends with a failure status
static status nop_handler(void*, rc_fiber*, int, void*) { return STATUS_SUCCESS; }
static int others;
static status last_entry(void* c) { rc_fiber_scheduler* s = (rc_fiber_scheduler*)c; for (int i = 0; i < others; i++) if (rc_fiber_scheduler_run(s)) _exit(0); return STATUS_SUCCESS; }
static void last_stop() {
    int n = 1 + (int)g.below(4); others = (int)g.below(4);
    pid_t p = fork();
    if (p < 0) fail("harness: no process");
    if (!p) {
        signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGILL, SIG_DFL);
        rc_allocator* a = make_alloc(); rc_fiber_scheduler* s; OK(rc_fiber_scheduler_create_with_disciplines(&s, a));
        rc_rcpr_uuid id = {{1, 2, 3}}; rc_fiber_scheduler_discipline* d; rc_fiber_scheduler_discipline_callback_fn v[1] = {&nop_handler};
        OK(rc_fiber_scheduler_discipline_create(&d, &id, a, nullptr, 1, v)); OK(rc_fiber_scheduler_discipline_add(s, d));
        for (int i = 0; i < n; i++) { rc_fiber* f; OK(rc_fiber_create(&f, a, s, 65536, s, &last_entry)); OK(rc_fiber_scheduler_add(s, f)); }
        const rc_rcpr_uuid* ri; int re; void* rp;
        status r = rc_fiber_discipline_yield(d, 0, nullptr, &ri, &re, &rp);
        (void)r; _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    CHECK(!WIFSIGNALED(st), "when the last runnable fiber stopped, the process died of signal %d", WTERMSIG(st));
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0, "when the last runnable fiber stopped, the process went on or ended as if all was well");
    g.label("last-stop");
}
void run_case() {
    if (g.chance(1, 400)) { last_stop(); return; }
    Machine m; Weights w; w.run = 6; w.add = 5; w.disc = 7; w.queue = 6; w.query = 2; w.stop = 3; w.idle = 1; w.bad = 1; w.mgmt = 1; w.length = 40;
    m.play(w);
    if (m.switches >= 8 && __builtin_popcount(m.kinds) >= 4) g.nontrivial();
}
} // namespace vp
