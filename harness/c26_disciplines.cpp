// C26: dispatch of yields to disciplines.
#include "machine.hpp"
namespace vp {
const char* const PROPERTY = "C26";
const char* const RULE = "a case registers up to 14 disciplines of 1-24 (seldom 200-400) handlers, at any time and from any fiber, some under taken or nearly equal identifiers, and yields to their handlers and to out of range events (also ones that differ from a valid event only in high bits); the handler that runs, its context, fiber and parameter are compared with the yield, and lookups with the set registered; non-trivial = at least three disciplines and four yields";
const std::vector<Probe> PROBES;
void setup() {}
void run_case() {
    Machine m; Weights w; w.run = 2; w.add = 2; w.disc = 10; w.queue = 2; w.newdisc = 6; w.bad = 3; w.query = 3; w.stop = 1; w.length = 40;
    m.play(w);
    if (m.discs.size() >= 3 && m.switches >= 4) g.nontrivial();
}
} // namespace vp
