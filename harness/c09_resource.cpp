// C09: releases reach the right release procedure; method tables are checked.
#include "rc.hpp"
#include <rcpr/config.h>
#include <unistd.h>
#include <fcntl.h>
namespace vp {
const char* const PROPERTY = "C09";
const char* const RULE = "a case makes 1-12 objects of generated kinds (user resources over 8 method tables, and every kind of library object), releases them in a generated order directly or through containers, and, in the checked build, presents objects with method tables outside the registered area to every dispatching call; non-trivial = at least two objects of different kinds, or a refused table";
const std::vector<Probe> PROBES;
void setup() {}
static int calls; static int last_kind; static rc_resource* last_r; static status next_status;
template <int N> static status rel(rc_resource* r) { calls++; last_kind = N; last_r = r; return next_status; }
#define VT(n) RCPR_VTABLE rc_resource_vtable vt##n = { &rel<n> };
VT(0) VT(1) VT(2) VT(3) VT(4) VT(5) VT(6) VT(7)
static const rc_resource_vtable* const GOOD[8] = {&vt0, &vt1, &vt2, &vt3, &vt4, &vt5, &vt6, &vt7};
static const rc_resource_vtable outside_const = { &rel<8> };
static rc_resource_vtable outside_data = { &rel<9> };

struct User { char pad[8]; rc_resource r; long x; };

static status thread_main(void*) { return 0x1234; }
static rc_rcpr_comparison_result cmp(void*, const void* a, const void* b) { return a < b ? RCPR_COMPARE_LT : a > b ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ; }
static const void* keyof(void*, const rc_resource* r) { return r; }
static status fib(void*) { return 0; }

struct Obj { rc_resource* r; const char* kind; };
static rc_allocator* A;
static std::vector<std::pair<const char*, rc_resource*>> late;   // to be released after the rest

static void* same(void* o, rc_resource* r, const char* k) { CHECK((void*)r == o, "the handle of a %s does not lead back to it", k); return o; }
static Obj make(int kind) {
    switch (kind) {
    case 0: { rc_list* o = nullptr; OK(rc_list_create(&o, A)); same(o, rc_list_resource_handle(o), "list"); return {rc_list_resource_handle(o), "list"}; }
    case 1: { rc_slist* o = nullptr; OK(rc_slist_create(&o, A)); same(o, rc_slist_resource_handle(o), "slist"); return {rc_slist_resource_handle(o), "slist"}; }
    case 2: { rc_queue* o = nullptr; OK(rc_queue_create(&o, A)); same(o, rc_queue_resource_handle(o), "queue"); return {rc_queue_resource_handle(o), "queue"}; }
    case 3: { rc_rbtree* o = nullptr; OK(rc_rbtree_create(&o, A, cmp, keyof, nullptr)); same(o, rc_rbtree_resource_handle(o), "rbtree"); return {rc_rbtree_resource_handle(o), "rbtree"}; }
    case 4: { rc_bigint* o = nullptr; OK(rc_bigint_create_zero(&o, A, 1 + g.below(5000))); same(o, rc_bigint_resource_handle(o), "bigint");
              rc_bigint* c = nullptr; OK(rc_bigint_clone(&c, A, o)); CHECK(c != o, "a clone is the original");
              // the clone outlives the original
              late.push_back({"bigint clone", rc_bigint_resource_handle(c)});
              return {rc_bigint_resource_handle(o), "bigint"}; }
    case 5: { rc_auto_reset_trigger* o = nullptr; OK(rc_auto_reset_trigger_create(&o, A)); return {rc_auto_reset_trigger_resource_handle(o), "trigger"}; }
    case 6: { rc_thread_mutex* o = nullptr; OK(rc_thread_mutex_create(&o, A)); return {rc_thread_mutex_resource_handle(o), "mutex"}; }
    case 7: { rc_thread_cond* o = nullptr; OK(rc_thread_cond_create(&o, A)); return {rc_thread_cond_resource_handle(o), "cond"}; }
    case 8: { RCPR_SYM(stack)* o = nullptr; OK(rc_stack_create(&o, A, 16384)); same(o, rc_stack_resource_handle(o), "stack"); return {rc_stack_resource_handle(o), "stack"}; }
    case 9: { rc_psock* o = nullptr; char b[4] = {1, 2, 3, 4}; OK(rc_psock_create_from_buffer(&o, A, g.coin() ? b : nullptr, 0)); CHECK(rc_psock_resource_handle_to_psock(rc_psock_resource_handle(o)) == o, "psock handle"); return {rc_psock_resource_handle(o), "buffer psock"}; }
    case 10: { rc_psock* o = nullptr; int fd = open("/dev/null", O_RDWR); OK(rc_psock_create_from_descriptor(&o, A, fd)); CHECK(rc_psock_resource_handle_to_psock(rc_psock_resource_handle(o)) == o, "psock handle"); return {rc_psock_resource_handle(o), "descriptor psock"}; }
    case 11: { rc_psock* o = nullptr; OK(rc_psock_create_from_buffer(&o, A, nullptr, 0)); rc_psock_br* b = nullptr; OK(rc_psock_br_create_from_psock(&b, A, o));
               late.push_back({"backing psock", rc_psock_resource_handle(o)});
               same(b, rc_psock_br_resource_handle(b), "psock_br"); CHECK(rc_psock_br_psock_adapter(b), "adapter");
               return {rc_psock_br_resource_handle(b), "psock_br"}; }
    case 12: { rc_message* o = nullptr; Item* it = new_item(); OK(rc_message_create(&o, A, 77, res(it))); CHECK(rc_message_return_address(o) == 77 && rc_message_payload(o, false) == res(it), "message accessors"); return {rc_message_resource_handle(o), "message"}; }
    case 13: { rc_fiber_scheduler* o = nullptr; OK(rc_fiber_scheduler_create_with_disciplines(&o, A)); same(o, rc_fiber_scheduler_resource_handle(o), "scheduler"); return {rc_fiber_scheduler_resource_handle(o), "scheduler"}; }
    default: { rc_thread* o = nullptr; OK(rc_thread_create(&o, A, 65536, nullptr, thread_main)); same(o, rc_thread_resource_handle(o), "thread"); return {rc_thread_resource_handle(o), "thread"}; }
    }
}
static void dispatch() {
    size_t n = 1 + g.below(6);
    std::vector<User*> u; std::vector<int> kind;
    for (size_t i = 0; i < n; i++) {
        User* x = (User*)raw_malloc(sizeof(User)); memset(x, 0x77, sizeof *x);
        int k = (int)g.below(8); rc_resource_init(&x->r, GOOD[k]);
        u.push_back(x); kind.push_back(k);
    }
    if (n > 1) g.nontrivial();
    for (size_t i = 0; i < n; i++) {
        const rc_resource_vtable* t = nullptr;
        OK(rc_resource_vtable_read(&t, &u[i]->r));
        CHECK(t == GOOD[kind[i]], "the method table read back is not the one given");
        next_status = g.coin() ? STATUS_SUCCESS : (status)(uint32_t)g.u64();
        calls = 0; last_kind = -1;
        status s = rc_resource_release(&u[i]->r);
        CHECK(calls == 1 && last_kind == kind[i] && last_r == &u[i]->r, "release made %d calls, last to procedure %d with %p; expected procedure %d with %p", calls, last_kind, last_r, kind[i], &u[i]->r);
        CHECK(s == next_status, "release returned %08x, the procedure returned %08x", s, next_status);
        CHECK(u[i]->x == (long)0x7777777777777777ll, "release wrote to the object");
    }
    for (auto x : u) raw_free(x);
}
static void zoo() {
    late.clear();
    std::vector<Obj> v; size_t n = 1 + g.below(12); bool diff = false;
    int k0 = -1;
    for (size_t i = 0; i < n; i++) {
        int k = (int)g.pick({6, 6, 6, 6, 6, 6, 4, 4, 3, 6, 4, 4, 6, 2, 1});
        if (k0 >= 0 && k != k0) diff = true; k0 = k;
        v.push_back(make(k)); g.log("make %s", v.back().kind);
    }
    if (diff) g.nontrivial();
    while (!v.empty()) {
        size_t i = g.below(v.size()); Obj o = v[i]; v.erase(v.begin() + i);
        size_t live = heap.live();
        bool own = heap.owns(o.r);
        status s = rc_resource_release(o.r);
        if (!strcmp(o.kind, "thread")) CHECK(s == 0x1234, "releasing a thread returned %08x", s);
        else CHECK(s == STATUS_SUCCESS, "releasing a %s returned %08x", o.kind, s);
        CHECK(heap.live() < live && (!own || !heap.owns(o.r)), "releasing a %s did not give its memory back", o.kind);
    }
    for (auto& l : late) OK(rc_resource_release(l.second));
    for (auto& it : items()) CHECK(it.released == 1, "a payload was released %d times", it.released);
}
#if defined(RCPR_VTABLE_RUNTIME_ENFORCEMENT) && !defined(RCPR_VTABLE_CHECK_ASSERT)
#define CHECKED 1
static uint8_t* fake; // a copy of a real table somewhere else
extern "C" const char __stop_rcpr_vtable_sym __asm__("__stop_rcpr_vtable");
extern "C" const char __start_rcpr_vtable_sym __asm__("__start_rcpr_vtable");
static const rc_resource_vtable* bad_table(const rc_resource_vtable* real) {
    switch (g.below(6)) {
    case 0: case 1: { // a working copy elsewhere
        size_t have = (size_t)((const char*)&__stop_rcpr_vtable_sym - (const char*)real);
        memset(fake, 0, 128); memcpy(fake, real, have < 128 ? have : 128);
        return (const rc_resource_vtable*)fake; }
    case 2: return &outside_const;
    case 3: return &outside_data;
    case 4: return (const rc_resource_vtable*)&__stop_rcpr_vtable_sym;
    default: return (const rc_resource_vtable*)((const char*)&__start_rcpr_vtable_sym - sizeof(void*) * (1 + g.below(2)));
    }
}
static void checked() {
    fake = (uint8_t*)raw_malloc(128);
    g.nontrivial();
    switch (g.below(4)) {
    case 0: { // user resource
        User u; int k = (int)g.below(8); rc_resource_init(&u.r, GOOD[k]);
        rc_resource_init(&u.r, bad_table(GOOD[k]));
        calls = 0; next_status = STATUS_SUCCESS;
        g.log("user resource");
        status s = rc_resource_release(&u.r);
        CHECK(s == ERROR_GENERAL_BAD_VTABLE && calls == 0, "release with an unregistered table returned %08x after %d calls", s, calls);
        const rc_resource_vtable* t = (const rc_resource_vtable*)5;
        s = rc_resource_vtable_read(&t, &u.r);
        CHECK(s == ERROR_GENERAL_BAD_VTABLE && (t == (const rc_resource_vtable*)5 || !t), "reading an unregistered table returned %08x", s);
        rc_resource_init(&u.r, GOOD[k]);
        OK(rc_resource_release(&u.r));
        CHECK(calls == 1 && last_kind == k, "release");
        break; }
    case 1: { // an allocator
        rc_allocator* a = make_alloc();
        void* p = nullptr; OK(rc_allocator_allocate(a, &p, 100));
        // some have been used before, by the same calls
        if (g.coin()) { void* w = nullptr; OK(rc_allocator_allocate(a, &w, 20)); if (g.coin()) OK(rc_allocator_reallocate(a, &w, 40)); OK(rc_allocator_reclaim(a, w)); }
        if (g.coin()) { rc_list* w = nullptr; OK(rc_list_create(&w, a)); OK(rc_resource_release(rc_list_resource_handle(w))); }
        rc_resource* r = rc_allocator_resource_handle(a);
        const rc_resource_vtable* real = r->vtable;
        r->vtable = bad_table(real);
        size_t live = heap.live(); uint64_t tot = heap.total_allocs(); calls = 0;
        g.log("allocator");
        void* q = (void*)5; status s;
        s = rc_allocator_allocate(a, &q, 10); CHECK(s == ERROR_GENERAL_BAD_VTABLE, "allocate through an unregistered table returned %08x", s); CHECK(!q || q == (void*)5, "allocate gave a pointer");
        q = p; s = rc_allocator_reallocate(a, &q, 200); CHECK(s == ERROR_GENERAL_BAD_VTABLE && q == p, "reallocate through an unregistered table returned %08x", s);
        s = rc_allocator_reclaim(a, p); CHECK(s == ERROR_GENERAL_BAD_VTABLE, "reclaim through an unregistered table returned %08x", s);
        s = rc_allocator_control(a, 1, nullptr, 0); CHECK(s == ERROR_GENERAL_BAD_VTABLE, "control through an unregistered table returned %08x", s);
        s = rc_resource_release(r); CHECK(s == ERROR_GENERAL_BAD_VTABLE, "release through an unregistered table returned %08x", s);
        // an object made from it is refused too
        rc_list* l = nullptr; s = rc_list_create(&l, a); CHECK(s == ERROR_GENERAL_BAD_VTABLE && !l, "list_create with a bad allocator returned %08x", s);
        CHECK(heap.live() == live && heap.total_allocs() == tot && calls == 0, "a method behind an unregistered table was called");
        r->vtable = real;
        OK(rc_allocator_reclaim(a, p)); free_alloc(a);
        break; }
    case 2: { // a stream
        rc_psock* o = nullptr; char b[40] = {0}; b[7] = b[15] = 9; bool used = g.coin(); int64_t i64 = 0;
        OK(rc_psock_create_from_buffer(&o, A, b, 32));
        if (used) { OK(rc_psock_read_raw_int64(o, &i64)); CHECK(i64 == 9, "the stream's first number is %lld", (long long)i64); i64 = 0; }
        rc_resource* r = rc_psock_resource_handle(o);
        const rc_resource_vtable* real = r->vtable;
        r->vtable = bad_table(real);
        calls = 0; status s = STATUS_SUCCESS; size_t live = heap.live();
        int op = (int)g.below(14);
        g.log("stream op %d", op);
        int32_t i32; int16_t i16; int8_t i8; bool bo; void* d = nullptr; size_t sz = 4; int fd = -1; char line[8]; char* str = nullptr;
        switch (op) {
        case 0: s = rc_psock_read_raw_int64(o, &i64); break;
        case 1: s = rc_psock_read_raw_int32(o, &i32); break;
        case 2: s = rc_psock_read_raw_int16(o, &i16); break;
        case 3: s = rc_psock_read_raw_int8(o, &i8); break;
        case 4: s = rc_psock_read_raw_bool(o, &bo); break;
        case 5: s = rc_psock_read_raw_data(o, A, &d, 4); break;
        case 6: s = rc_psock_read_raw(o, line, &sz); break;
        case 7: s = rc_psock_read_boxed_string(o, A, &str, &sz); break;
        case 8: s = rc_psock_write_raw_int64(o, 5); break;
        case 9: s = rc_psock_write_raw_data(o, "abc", 3); break;
        case 10: s = rc_psock_write_boxed_string(o, "abc"); break;
        case 11: s = rc_psock_read_raw_descriptor(o, &fd); break;
        case 12: s = rc_psock_write_raw_descriptor(o, 0); break;
        default: { socklen_t al = 0; s = rc_psock_accept(o, &fd, nullptr, &al); }
        }
        CHECK(s == ERROR_GENERAL_BAD_VTABLE, "stream operation %d through an unregistered table returned %08x", op, s);
        CHECK(calls == 0 && heap.live() == live, "a method behind an unregistered table was called");
        s = rc_resource_release(r); CHECK(s == ERROR_GENERAL_BAD_VTABLE && heap.live() == live, "release through an unregistered table returned %08x", s);
        r->vtable = real;
        OK(rc_psock_read_raw_int64(o, &i64)); CHECK(i64 == 9, "the stream lost bytes: %lld", (long long)i64);
        OK(rc_resource_release(r));
        break; }
    default: { // inside a container
        rc_list* l = nullptr; OK(rc_list_create(&l, A));
        User u[3]; int badi = (int)g.below(3);
        for (int i = 0; i < 3; i++) { rc_resource_init(&u[i].r, i == badi ? bad_table(&vt1) : &vt1); OK(rc_list_append_tail(l, &u[i].r)); }
        calls = 0; next_status = STATUS_SUCCESS;
        g.log("container");
        status s = rc_list_clear(l);
        CHECK(s == ERROR_GENERAL_BAD_VTABLE, "clearing a list with a bad child returned %08x", s);
        CHECK(calls <= 2, "the bad child's method was called");
        u[badi].r.vtable = &vt1;
        // the caller still owns what failed; the list may or may not hold it
        s = rc_resource_release(rc_list_resource_handle(l)); CHECK(s == STATUS_SUCCESS, "releasing the list returned %08x", s);
    }
    }
    raw_free(fake);
}
#endif
void run_case() {
    items().clear();
    heap.begin();
    A = make_alloc();
#ifdef CHECKED
    switch (g.pick({4, 4, 8})) {
#else
    switch (g.pick({4, 8})) {
#endif
    case 0: g.label("dispatch"); dispatch(); break;
    case 1: g.label("kinds"); zoo(); break;
#ifdef CHECKED
    case 2: g.label("bad table"); checked(); break;
#endif
    }
    free_alloc(A);
    heap.expect_clean("end");
    heap.end();
}
} // namespace vp
