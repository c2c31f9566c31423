// C15: auto-reset triggers.
#include "rc.hpp"
namespace vp {
const char* const PROPERTY = "C15";
const char* const RULE = "a case is a history of signal / step / register calls on 1-4 triggers with several callbacks and contexts, signals given once or up to 65536 times in a row, listeners that act on other triggers, each call's effect compared with a two-flag model, and out-of-memory on creation; non-trivial = at least one listener called and at least one call that must do nothing (an idle step, a repeated signal or a refused registration)";
const std::vector<Probe> PROBES;
void setup() {}
struct T { rc_auto_reset_trigger* t; bool sig; int cb; void* c; int act, target; bool incall; unsigned calls; };
static std::vector<T> v; static std::vector<int> stack; static bool called, nothing, chained;
static void step(int i); static void sign(int i); static void enlist(int i);
static void act_on(T& t) {
    int j = t.target;
    if (!t.act || (size_t)j >= v.size() || v[j].incall) return;
    chained = true;
    if (t.act == 1) sign(j); else if (t.act == 2) step(j); else enlist(j);
}
template <int N> static void cb(void* c) {
    CHECK(!stack.empty(), "a listener was called without a step");
    int i = stack.back(); T& t = v[i];
    CHECK(!t.incall, "one step called a listener again");
    CHECK(t.sig && t.cb >= 0, "stepping trigger %d, which is %ssignalled and has %s listener, called one", i, t.sig ? "" : "not ", t.cb < 0 ? "no" : "a");
    CHECK(N == t.cb && c == t.c, "stepping called callback %d with %p instead of %d with %p", N, c, t.cb, t.c);
    t.incall = true; t.calls++; act_on(t);
}
static void (*const CBS[4])(void*) = {cb<0>, cb<1>, cb<2>, cb<3>};
static void sign(int i) {
    size_t n = g.chance(1, 100) ? g.coin() ? 256 : 65536 : 1; // one signal or many, it is the same
    g.log("%*ssignal %d%s", 2 * (int)stack.size(), "", i, n > 1 ? " many times" : "");
    std::vector<int> keep; keep.swap(stack); // no listener may be called
    while (n--) rc_auto_reset_trigger_signal(v[i].t);
    keep.swap(stack);
    if (v[i].sig) nothing = true;
    v[i].sig = true;
}
static void step(int i) {
    g.log("%*sstep %d", 2 * (int)stack.size(), "", i);
    bool want = v[i].sig && v[i].cb >= 0; unsigned before = v[i].calls;
    stack.push_back(i); rc_auto_reset_trigger_step(v[i].t); stack.pop_back();
    CHECK(v[i].calls == before + want, "stepping a signalled trigger with a listener called nobody");
    if (want) { v[i].sig = v[i].incall = false; v[i].cb = -1; called = true; } else nothing = true;
}
static void enlist(int i) {
    T& t = v[i]; int c = (int)g.below(4); void* x = (void*)(uintptr_t)g.below(6);
    g.log("%*sregister %d on %d", 2 * (int)stack.size(), "", c, i);
    std::vector<int> keep; keep.swap(stack);
    status s = rc_auto_reset_trigger_register(t.t, CBS[c], x);
    keep.swap(stack);
    if (t.cb >= 0) { CHECK(s == ERROR_AUTO_RESET_TRIGGER_LISTENER_ALREADY_REGISTERED, "a second registration returned %08x", s); nothing = true; }
    else { CHECK(s == STATUS_SUCCESS, "registration failed with %08x", s); t.cb = c; t.c = x; t.act = g.coin() ? 0 : 1 + (int)g.below(3); t.target = (int)g.below(v.size()); }
}
static T fresh(rc_allocator* a) { T t = {nullptr, false, -1, nullptr, 0, 0, false, 0}; OK(rc_auto_reset_trigger_create(&t.t, a)); return t; }
void run_case() {
    heap.begin();
    rc_allocator* a = make_alloc();
    v.clear(); stack.clear(); called = nothing = chained = false;
    size_t nt = 1 + g.below(4); for (size_t i = 0; i < nt; i++) v.push_back(fresh(a));
    int steps = 0;
    while (g.more(20) && steps++ < 300) {
        int i = (int)g.below(v.size());
        switch (g.pick({4, 5, 4, 1})) {
        case 0: sign(i); break;
        case 1: step(i); break;
        case 2: enlist(i); break;
        default:
            if (g.coin()) {
                heap.arm_nth(0);
                rc_auto_reset_trigger* n = nullptr; size_t live = heap.live();
                status s = rc_auto_reset_trigger_create(&n, a);
                heap.disarm();
                CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY && heap.live() == live, "creating a trigger without memory returned %08x", s);
            } else { // a released trigger calls nobody, and a new one starts clean
                g.log("replace %d", i);
                OK(rc_resource_release(rc_auto_reset_trigger_resource_handle(v[i].t)));
                v[i] = fresh(a);
            }
        }
    }
    for (auto& t : v) OK(rc_resource_release(rc_auto_reset_trigger_resource_handle(t.t)));
    free_alloc(a);
    heap.expect_clean("end");
    heap.end();
    if (chained) g.label("listener acts");
    if (called && nothing) g.nontrivial();
}
} // namespace vp
