// C27: events that interrupt fibers blocked in stream I/O.
#include "async.hpp"
#include <signal.h>
namespace vp {
const char* const PROPERTY = "C27";
const char* const RULE = "a case runs 1-5 asynchronous streams (socket pairs, pipes, descriptor passing, a listener) with one fiber per direction, external peers that act only while every fiber sleeps, early closes and injected partial transfers; a controller fiber interrupts sleeping fibers, whose descriptors are not ready, by events of a user discipline (run at once or queued) and quiesce and terminate requests; the streams' fibers have no handler, one that always retries, or one that retries or returns one of several statuses; handler calls, results, bytes and ends are checked, and that no fiber sleeps on a ready descriptor once a readiness wait found nothing; non-trivial = at least two fibers were interrupted and one of them retried or was refused by the handler";
const std::vector<Probe> PROBES;
void setup() { signal(SIGPIPE, SIG_IGN); }
void run_case() {
    heap.begin();
    auto* W = new as::World; as::setup_hooks();
    as::build_and_run(*W, true);
    if (W->pokes_done >= 2 && W->retried + W->aborted >= 1) g.nontrivial();
    if (W->retried) g.label("retried"); if (W->aborted) g.label("ended by an event"); if (W->unhandled) g.label("no handler"); if (W->pokes_done >= 6) g.label("interrupted 6 times"); if (W->refused) g.label("refused");
    delete W;
    as::no_hooks();
    heap.expect_clean("the end"); heap.end();
}
} // namespace vp
