// C23: a suspended fiber resumes exactly as it was.
#include "rc.hpp"
#include <alloca.h>
struct Regs { uint64_t r[6]; uint32_t mxcsr; uint16_t cw, pad; uint64_t ret; };
extern "C" void vp_call(void* fn, const uint64_t* args, const Regs* in, Regs* out);
extern "C" status vp_entry(void*);
asm(R"(
.text
.globl vp_call
.type vp_call,@function
vp_call:
    push %rbx
    push %rbp
    push %r12
    push %r13
    push %r14
    push %r15
    sub $24, %rsp
    mov %rcx, (%rsp)
    stmxcsr 8(%rsp)
    fnstcw 12(%rsp)
    mov (%rdx), %rbx
    mov 8(%rdx), %rbp
    mov 16(%rdx), %r12
    mov 24(%rdx), %r13
    mov 32(%rdx), %r14
    mov 40(%rdx), %r15
    ldmxcsr 48(%rdx)
    fldcw 52(%rdx)
    mov %rdi, %rax
    mov %rsi, %r11
    mov (%r11), %rdi
    mov 8(%r11), %rsi
    mov 16(%r11), %rdx
    mov 24(%r11), %rcx
    mov 32(%r11), %r8
    mov 40(%r11), %r9
    call *%rax
    mov (%rsp), %rcx
    mov %rbx, (%rcx)
    mov %rbp, 8(%rcx)
    mov %r12, 16(%rcx)
    mov %r13, 24(%rcx)
    mov %r14, 32(%rcx)
    mov %r15, 40(%rcx)
    stmxcsr 48(%rcx)
    fnstcw 52(%rcx)
    mov %rax, 56(%rcx)
    ldmxcsr 8(%rsp)
    fldcw 12(%rsp)
    add $24, %rsp
    pop %r15
    pop %r14
    pop %r13
    pop %r12
    pop %rbp
    pop %rbx
    ret
.size vp_call,.-vp_call
.globl vp_entry
.type vp_entry,@function
vp_entry:
    mov %rsp, %rsi
    jmp vp_entry_c
.size vp_entry,.-vp_entry
)");
// the library's context switch, tested directly too while it has this name.
extern "C" __attribute__((weak)) void RCPR_SYM(fiber_switch)(rc_fiber*, rc_fiber*, const rc_rcpr_uuid*, int64_t, void*);
namespace vp {
const char* const PROPERTY = "C23";
const char* const RULE = "a case runs 1-7 fibers (stacks of 16 KiB to 1 MiB) over a scheduler callback that resumes any live fiber next, or over the library's context switch directly; before each switch all callee-saved registers, the SSE and x87 control words, and stack buffers at several call depths are filled with generated values, and compared after the resume, as are event, identifier and parameter at both ends; fibers may run schedulers of their own inside, and switch at any level; non-trivial = at least 3 fibers and 6 switches";
const std::vector<Probe> PROBES;
void setup() {}
struct World;
struct F { World* w; rc_fiber* f; int id; size_t stack; bool live, entered; const rc_rcpr_uuid* xid; int xev; void* xparam; };
struct World {
    rc_fiber_scheduler* s = nullptr; World* outer = nullptr; std::deque<F> fs; F* cur = nullptr; int level = 0; bool released = false;
    // what the callback is to be called with
    int wev; void* wparam; bool want = false; status answer = STATUS_SUCCESS; status stop_status = 0; bool stopping = false; F* adding = nullptr; status release_answer = 0;
};
static std::deque<World>* worlds; static rc_allocator* A; static int steps, budget, switches, nfib; static bool done, direct; static World* top;
static rc_rcpr_uuid ids[4]; static char toks[64]; static F* dcur; static int ddepth;
static int gen_event() { return g.coin() ? (int)g.below(200) : (int)g.u64(); }
static void gen_regs(Regs* r) {
    for (auto& x : r->r) x = g.coin() ? g.u64() : 0x1111111111111111ull * g.below(16) + (uint64_t)g.below(1000);
    r->mxcsr = 0x1f80; r->cw = 0x37f;
    if (g.coin()) r->mxcsr = (uint32_t)(0x40 * g.below(2) | 0x1f80 | 0x2000 * g.below(4) | 0x8000 * g.below(2));
    if (g.chance(1, 4)) r->mxcsr &= ~(uint32_t)(0x80 << g.below(6));
    if (g.coin()) r->cw = (uint16_t)(0x7f | g.below(4) << 8 | g.below(4) << 10);
    if (g.chance(1, 4)) r->cw &= ~(uint16_t)(1 << g.below(6));
    r->pad = 0; r->ret = 0;
}
static void check_regs(const Regs* a, const Regs* b) {
    static const char* n[] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
    for (int i = 0; i < 6; i++) CHECK(a->r[i] == b->r[i], "register %s was 0x%llx before the switch and is 0x%llx after it", n[i], (unsigned long long)a->r[i], (unsigned long long)b->r[i]);
    CHECK((a->mxcsr & 0xffc0) == (b->mxcsr & 0xffc0), "the SSE control word was %04x before the switch and is %04x after it", a->mxcsr, b->mxcsr);
    CHECK((a->cw & 0xf3f) == (b->cw & 0xf3f), "the x87 control word was %04x before the switch and is %04x after it", a->cw, b->cw);
}
static status callback(void* context, rc_fiber* by, int event, void* param, rc_fiber** rf, const rc_rcpr_uuid** rid, int* rev, void** rparam) {
    World* w = nullptr; for (auto& x : *worlds) if (&x == context) w = &x;
    CHECK(w && !w->released, "the scheduler callback got another context");
    if (!w->s && event == FIBER_SCHEDULER_YIELD_EVENT_MAIN) {
        w->fs.push_back(F{w, by, nfib++, 0, true, true, nullptr, 0, nullptr}); w->cur = &w->fs[0];
        *rf = by; *rid = &ids[0]; *rev = FIBER_SCHEDULER_RESUME_EVENT_MAIN; *rparam = nullptr;
        return STATUS_SUCCESS;
    }
    if (event == FIBER_SCHEDULER_YIELD_EVENT_RESOURCE_RELEASE && !w->want) {
        CHECK(by == w->fs[0].f, "the release came from another fiber than the main fiber");
        w->released = true; *rf = nullptr; *rid = &ids[0]; *rev = 0; *rparam = nullptr;
        return w->release_answer;
    }
    CHECK(w->want, "the scheduler callback was called (event %d) though nothing yielded", event);
    w->want = false;
    CHECK(by == w->cur->f, "the callback was told another fiber yielded");
    CHECK(event == w->wev, "the fiber yielded event %d, the callback got %d", w->wev, event);
    if (w->stopping) {
        w->stopping = false; w->cur->live = false;
        CHECK(param && *(status*)param == w->stop_status, "the fiber returned %08x, the callback was not told so", w->stop_status);
        CHECK(rc_fiber_state_get(by) == FIBER_STATE_STOPPED, "a fiber that returned is in state %d", (int)rc_fiber_state_get(by));
    } else CHECK(param == w->wparam, "the fiber yielded another parameter than the callback got");
    if (w->answer) return w->answer;
    F* next = nullptr;
    if (done) next = &w->fs[0];
    else if (w->adding && g.chance(2, 3)) next = w->adding;
    else { int n = 0; for (auto& f : w->fs) n += f.live; int k = (int)g.below(n); for (auto& f : w->fs) if (f.live && !k--) next = &f; }
    w->adding = nullptr;
    next->xid = &ids[g.below(4)]; next->xev = gen_event(); next->xparam = g.chance(1, 5) ? nullptr : &toks[g.below(64)];
    *rf = next->f; *rid = next->xid; *rev = next->xev; *rparam = next->xparam;
    if (next != w->cur) switches++;
    w->cur = next;
    return STATUS_SUCCESS;
}
static void act(World* w, int depth);
// a yield of world w with everything filled
static void yield(World* w) {
    F* me = w->cur; Regs in, out; gen_regs(&in);
    const rc_rcpr_uuid* id = nullptr; int ev = 0; void* pa = nullptr;
    w->wev = gen_event(); w->wparam = g.chance(1, 5) ? nullptr : &toks[g.below(64)]; w->want = true;
    w->answer = !done && g.chance(1, 10) ? STATUS_CODE(1, 0x7f, 1 + g.below(99)) : STATUS_SUCCESS; status want = w->answer;
    uint64_t args[6] = { (uint64_t)w->s, (uint64_t)(int64_t)w->wev, (uint64_t)w->wparam, (uint64_t)&id, (uint64_t)&ev, (uint64_t)&pa };
    vp_call((void*)&RCPR_SYM(fiber_scheduler_yield), args, &in, &out);
    w->answer = STATUS_SUCCESS;
    CHECK((status)out.ret == want, "the callback returned %08x, the yield %08x", want, (status)out.ret);
    CHECK(w->cur == me, "fiber %d goes on although fiber %d was resumed", me->id, w->cur->id);
    if (!want) {
        CHECK(id == me->xid, "fiber %d was resumed with another identifier", me->id);
        CHECK(ev == me->xev, "fiber %d was resumed with event %d instead of %d", me->id, ev, me->xev);
        CHECK(pa == me->xparam, "fiber %d was resumed with another parameter", me->id);
    }
    check_regs(&in, &out);
}
static void add(World* w) {
    F* me = w->cur; Regs in, out; gen_regs(&in);
    w->fs.push_back(F{w, nullptr, nfib++, (size_t)16384 << g.below(6), true, false, nullptr, 0, nullptr}); F* f = &w->fs.back();
    if (g.coin()) f->stack += g.below(16384);
    status r = rc_fiber_create(&f->f, A, w->s, f->stack, f, &vp_entry);
    CHECK(!r && f->f, "a fiber with a stack of %zu could not be created: %08x", f->stack, r);
    CHECK(rc_fiber_state_get(f->f) == FIBER_STATE_CREATED, "a new fiber is in state %d", (int)rc_fiber_state_get(f->f));
    CHECK(rc_fiber_scheduler_from_fiber_get(f->f) == w->s, "a new fiber belongs to another scheduler");
    w->wev = FIBER_SCHEDULER_YIELD_EVENT_ADD_FIBER; w->wparam = f->f; w->want = true; w->answer = STATUS_SUCCESS; w->adding = f;
    uint64_t args[6] = { (uint64_t)w->s, (uint64_t)f->f };
    vp_call((void*)&RCPR_SYM(fiber_scheduler_add), args, &in, &out);
    CHECK((status)out.ret == STATUS_SUCCESS, "adding a fiber returned %08x", (status)out.ret);
    CHECK(w->cur == me, "fiber %d goes on although fiber %d was resumed", me->id, w->cur->id);
    check_regs(&in, &out);
}
static World* make_world(World* outer) {
    worlds->emplace_back(); World* w = &worlds->back(); w->outer = outer; w->level = outer ? outer->level + 1 : 0;
    OK(rc_fiber_scheduler_create(&w->s, A, w, &callback));
    CHECK(w->cur, "the scheduler did not announce the main fiber");
    CHECK(rc_fiber_state_get(w->fs[0].f) == FIBER_STATE_RUNNING, "the main fiber is in state %d", (int)rc_fiber_state_get(w->fs[0].f));
    return w;
}
static void end_world(World* w) {
    w->release_answer = g.chance(1, 5) ? STATUS_CODE(1, 0x7f, 7) : STATUS_SUCCESS;
    for (auto& f : w->fs) if (&f != &w->fs[0]) OK(rc_resource_release(rc_fiber_resource_handle(f.f)));
    status r = rc_resource_release(rc_fiber_scheduler_resource_handle(w->s));
    CHECK(r == w->release_answer, "the callback answered the release with %08x, the release returned %08x", w->release_answer, r);
    CHECK(w->released, "the callback was not told of the release");
    w->s = nullptr;
}
// nothing more to do here: on to this scheduler's main fiber
static void leave(World* w) { for (;;) yield(w); }
static void act(World* w, int depth) {
    F* me = w->cur;
    size_t n = 1 + g.below(depth ? 300 : 1500); uint64_t key = g.raw64();
    volatile uint8_t* buf = (volatile uint8_t*)alloca(n);
    for (size_t i = 0; i < n; i++) buf[i] = (uint8_t)(key >> (8 * (i % 8))) ^ (uint8_t)i;
    double x = (double)(key >> 12), y = x / 3;
    while (!done && g.more(6)) {
        if (++steps > budget) { done = true; break; }
        size_t live = 0; for (auto& f : w->fs) live += f.live;
        switch (g.pick({10, 3, 3, 1, 2})) {
        case 0: yield(w); break;
        case 1: if (live < 5 && w->fs.size() < 9) add(w); else yield(w); break;
        case 2: if (depth < 5) act(w, depth + 1); break;
        case 3: if (w->level < 2 && worlds->size() < 5) { World* i = make_world(w); act(i, depth + 1); if (done) break; end_world(i); } break;
        default: { World* o = w; while (o->outer && g.coin()) o = o->outer; yield(o); }
        }
        for (size_t i = 0; i < n; i++) if (buf[i] != (uint8_t)((uint8_t)(key >> (8 * (i % 8))) ^ (uint8_t)i)) fail("byte %zu of %zu in a stack frame of fiber %d changed while it was suspended", i, n, me->id);
        if (x / 3 != y || x != (double)(key >> 12)) fail("a floating point local of fiber %d changed", me->id);
        if (done) break;
        if (w->cur != me) fail("harness: other fiber");
    }
}
// uses most of a fresh fiber's stack
__attribute__((no_sanitize("address"), noinline)) static void touch(uint8_t* from, size_t n) { for (size_t i = 0; i < n; i += 512) { volatile uint8_t* p = from - i; *p = 0x77; } }
static void direct_act(F* me, int depth);
extern "C" status vp_entry_c(void* c, uintptr_t rsp) {
    uint32_t mx; uint16_t cw; asm volatile("stmxcsr %0\n fnstcw %1" : "=m"(mx), "=m"(cw));
    F* me = nullptr; for (auto& w : *worlds) for (auto& f : w.fs) if (&f == c) me = &f;
    CHECK(me, "a fiber's function got another context");
    CHECK(!me->entered, "a fiber's function was entered twice"); me->entered = true;
    World* w = me->w;
    CHECK((direct ? dcur : w->cur) == me, "fiber %d starts although fiber %d was resumed", me->id, w->cur->id);
    CHECK(rsp % 16 == 8, "a fiber's function was entered with a stack misaligned by %d", (int)(rsp % 16));
    CHECK((mx & 0xffc0) == 0x1f80 && (cw & 0xf3f) == 0x33f, "a new fiber starts with control words %04x and %04x", mx, cw);
    CHECK(rc_fiber_state_get(me->f) == FIBER_STATE_RUNNING, "a running fiber is in state %d", (int)rc_fiber_state_get(me->f));
    if (g.chance(1, 3)) touch((uint8_t*)__builtin_frame_address(0) - 1024, me->stack - 4096);
    if (direct) { for (;;) direct_act(me, 0); }
    act(w, 0);
    size_t live = 0; for (auto& f : w->fs) live += f.live;
    if (done || live < 2) { done = true; leave(w); }
    w->stop_status = g.coin() ? STATUS_SUCCESS : (status)g.u64();
    w->wev = FIBER_SCHEDULER_YIELD_EVENT_STOP; w->want = w->stopping = true; w->answer = STATUS_SUCCESS;
    return w->stop_status;
}
// ---- the context switch alone ----
static void direct_switch(F* me) {
    World* w = me->w; F* next = nullptr;
    if (done) next = &w->fs[0]; else next = &w->fs[g.below(w->fs.size())];
    Regs in, out; gen_regs(&in);
    uint64_t args[6] = { (uint64_t)me->f, (uint64_t)next->f, (uint64_t)&ids[g.below(4)], (uint64_t)(int64_t)gen_event(), (uint64_t)&toks[0] };
    dcur = next; if (next != me) switches++;
    vp_call((void*)&RCPR_SYM(fiber_switch), args, &in, &out);
    CHECK(dcur == me, "fiber %d goes on although fiber %d was resumed", me->id, dcur->id);
    check_regs(&in, &out);
}
static void direct_act(F* me, int depth) {
    size_t n = 1 + g.below(200); uint8_t k = (uint8_t)g.below(256);
    volatile uint8_t* buf = (volatile uint8_t*)alloca(n); for (size_t i = 0; i < n; i++) buf[i] = k + (uint8_t)i;
    do {
        if (++steps > budget) done = true;
        if (done && me == &me->w->fs[0]) return;
        if (depth < 4 && g.chance(1, 4)) direct_act(me, depth + 1); else direct_switch(me);
        for (size_t i = 0; i < n; i++) if (buf[i] != (uint8_t)(k + i)) fail("byte %zu of %zu in a stack frame of fiber %d changed while it was suspended", i, n, me->id);
    } while (g.more(5) || (me == &me->w->fs[0] && !depth));
}
void run_case() {
    static std::deque<World>* keep; if (keep) delete keep; keep = worlds = new std::deque<World>;
    steps = switches = nfib = 0; done = false; dcur = nullptr; for (int i = 0; i < 4; i++) for (int k = 0; k < 16; k++) ids[i].data[k] = (uint8_t)(i * 31 + k);
    budget = 10 + (int)g.below(70);
    heap.begin(); A = make_alloc();
    direct = &RCPR_SYM(fiber_switch) && g.chance(1, 4);
    top = make_world(nullptr);
    if (direct) {
        int n = 1 + (int)g.below(5);
        for (int i = 0; i < n; i++) { top->fs.push_back(F{top, nullptr, nfib++, ((size_t)16384 << g.below(4)) + g.below(4096), true, false, nullptr, 0, nullptr}); F* f = &top->fs.back(); OK(rc_fiber_create(&f->f, A, top->s, f->stack, f, &vp_entry)); }
        dcur = &top->fs[0];
        direct_act(&top->fs[0], 0);
        g.label("direct");
    } else {
        do { act(top, 0); } while (!done && steps < budget / 2 && g.coin());
        done = true;
        CHECK(top->cur == &top->fs[0], "harness: not in the main fiber");
        g.label(worlds->size() > 1 ? "nested" : "scheduler");
    }
    for (size_t i = worlds->size(); i-- > 1; ) if ((*worlds)[i].s) end_world(&(*worlds)[i]);
    end_world(top);
    free_alloc(A);
    CHECK(heap.live_maps() == 0, "%zu stacks were not given back", heap.live_maps());
    heap.expect_clean("after everything was released");
    if (nfib >= 3 && switches >= 6) g.nontrivial();
}
} // namespace vp
