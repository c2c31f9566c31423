// C03: running out of memory in structures, strings, threads and streams.
//
// A case keeps a small world of structures with models of all of them.  Every
// operation is attempted under a plan of failing allocations (one position,
// two, everything from a position on, or a stretch of operations with no
// memory at all); a failing operation must leave the world as the models say,
// and must then work once there is memory.
#include "tree.hpp"
#include "streams.hpp"
#include <algorithm>
#include <memory>
namespace vp {
const char* const PROPERTY = "C03";
const char* const RULE = "a case is a history of up to 60 operations over structures, strings, numbers, threads and streams (heap or small bump region as the source of memory) with planned allocation failures; after each failure the whole world is compared with its models; non-trivial = at least two operations failed for want of memory with at least two structures alive and one of them was retried";
const std::vector<Probe> PROBES;
void setup() {}

enum Kind_ { LIST, SLIST, QUEUE, TREE };
struct C { Kind_ kind; void* p = nullptr; std::vector<KItem*> own; };
static KeyCtx ctx;

struct World {
    rc_allocator *heap_a = nullptr, *a = nullptr; bool bump = false; uint8_t* region = nullptr;
    std::vector<C> cs;
    struct Out { rc_psock* s; std::vector<uint8_t> b; };
    std::vector<Out> outs;
    struct In { rc_psock* s; std::unique_ptr<Mem> m; rc_psock_br* br = nullptr; };
    std::vector<In> ins;
    struct Fd { rc_psock* s; int fd, peer; };
    std::vector<Fd> fds;
    struct Num { rc_bigint* i; };
    std::vector<Num> nums;
    struct Blk { uint8_t* p; size_t n; uint8_t v; };
    std::vector<Blk> blks;
    rc_auto_reset_trigger* trig = nullptr; int fired = 0; bool reg = false;
    struct Thr { rc_thread* t; std::unique_ptr<int> ran; };
    std::vector<Thr> thrs;
    rc_thread_mutex* mx = nullptr; rc_thread_cond* cv = nullptr;
};
static World* W;
static int down, fails, retried;
static const char* const KN[] = {"list", "slist", "queue", "tree"};
static void on_trigger(void* c) { ((World*)c)->fired++; }
static status on_thread(void* c) { ++*(int*)c; return STATUS_SUCCESS; }

static size_t count(C& c) {
    switch (c.kind) {
    case LIST: return rc_list_count((rc_list*)c.p);
    case SLIST: return rc_slist_count((rc_slist*)c.p);
    case QUEUE: return rc_queue_count((rc_queue*)c.p);
    default: return rc_rbtree_count((rc_rbtree*)c.p);
    }
}
static void verify(C& c) {
    size_t n = c.own.size();
    CHECK(count(c) == n, "a %s counts %zu, not %zu", KN[c.kind], count(c), n);
    for (auto* e : c.own) CHECK(!e->it.released, "a resource in a %s was released", KN[c.kind]);
    if (c.kind == LIST) {
        rc_list_node *x = nullptr, *tail = nullptr, *prev = nullptr; OK(rc_list_head(&x, (rc_list*)c.p)); OK(rc_list_tail(&tail, (rc_list*)c.p));
        for (size_t i = 0; i < n; i++) {
            CHECK(x, "a list ends after %zu of %zu", i, n); rc_resource* r = nullptr; OK(rc_list_node_child(&r, x)); CHECK(r == res(c.own[i]), "a list has another element at %zu", i);
            rc_list_node* b = nullptr; OK(rc_list_node_prev(&b, x)); CHECK(b == prev, "a list's back link at %zu is wrong", i);
            prev = x; rc_list_node* nx = nullptr; OK(rc_list_node_next(&nx, x)); x = nx;
        }
        CHECK(!x && tail == prev, "a list does not end after its %zu elements", n);
    } else if (c.kind == SLIST) {
        rc_slist_node *x = nullptr, *tail = nullptr, *prev = nullptr; OK(rc_slist_head(&x, (rc_slist*)c.p)); OK(rc_slist_tail(&tail, (rc_slist*)c.p));
        for (size_t i = 0; i < n; i++) {
            CHECK(x, "an slist ends after %zu of %zu", i, n); rc_resource* r = nullptr; OK(rc_slist_node_child(&r, x)); CHECK(r == res(c.own[i]), "an slist has another element at %zu", i);
            prev = x; rc_slist_node* nx = nullptr; OK(rc_slist_node_next(&nx, x)); x = nx;
        }
        CHECK(!x && tail == prev, "an slist does not end after its %zu elements", n);
    } else if (c.kind == TREE) {
        rc_rbtree* t = (rc_rbtree*)c.p; rc_rbtree_node* x = rc_rbtree_minimum_node(t, rc_rbtree_root_node(t));
        std::vector<KItem*> s = c.own; std::sort(s.begin(), s.end(), [](KItem* a, KItem* b) { return a->k < b->k; });
        for (size_t i = 0; i < n; i++) {
            CHECK(x != rc_rbtree_nil_node(t), "a tree ends after %zu of %zu", i, n);
            CHECK(rc_rbtree_node_value(t, x) == res(s[i]), "a tree has another element at %zu", i);
            x = rc_rbtree_successor_node(t, x);
        }
        CHECK(x == rc_rbtree_nil_node(t), "a tree does not end after its %zu elements", n);
        for (auto* e : c.own) { rc_resource* r = nullptr; OK(rc_rbtree_find(&r, t, &e->k)); CHECK(r == res(e), "an element can't be found in its tree"); }
    }
}
// what the stream has collected, read with memory available.
static std::vector<uint8_t> collected(World::Out& o) {
    void* p = nullptr; size_t n = 0;
    OK(rc_psock_from_buffer_get_output_buffer(o.s, W->heap_a, &p, &n));
    std::vector<uint8_t> v((uint8_t*)p, (uint8_t*)p + n);
    OK(rc_allocator_reclaim(W->heap_a, p));
    return v;
}
static void verify(World::Out& o) {
    auto v = collected(o);
    CHECK(v.size() == o.b.size(), "a stream has collected %zu bytes, not %zu", v.size(), o.b.size());
    CHECK(v == o.b, "a stream has collected other bytes");
}
static void verify_small() {
    for (auto& x : W->ins) CHECK(!x.m->released, "the stream's release method was called");
    for (auto& x : W->fds) CHECK(fcntl(x.fd, F_GETFD) >= 0 && fcntl(x.peer, F_GETFD) >= 0, "a descriptor was closed");
    for (auto& b : W->blks) { for (size_t i = 0; i < b.n; i++) CHECK(b.p[i] == b.v, "a block changed at %zu of %zu", i, b.n); if (!W->bump) CHECK(heap.owns(b.p), "a block was freed"); }
    for (auto& e : kitems()) CHECK(!e.it.released, "resource #%d was released", e.it.id);
}
static void verify_world() {
    for (auto& c : W->cs) verify(c);
    for (auto& o : W->outs) verify(o);
    verify_small();
}
// the failing allocations of one operation
static void arm() {
    if (down) { down--; heap.arm_from(0); return; }
    switch (g.pick({6, 5, 2, 2, 1})) {
    case 0: heap.arm_from(1000000); return;
    case 1: heap.arm_nth(g.below(8)); return;
    case 2: heap.arm_from(g.below(7)); return;
    case 3: heap.arm_pair(g.below(5), 1 + g.below(3)); return;
    default: down = (int)g.below(6); heap.arm_from(0);
    }
}
// runs one operation under a plan; on failure the world must be unchanged
// (`undo` first accounts for what the operation may legitimately have done).
// Tells whether it finally succeeded.
static bool attempt(const std::string& what, const std::function<status()>& op, const std::function<void()>& undo = nullptr) {
    size_t live = heap.live(), maps = heap.live_maps();
    arm();
    status s = op();
    uint64_t hits = heap.hits();
    heap.disarm();
    g.log("%s: %08x%s", what.c_str(), (unsigned)s, hits ? " (no memory)" : "");
    if (!hits && !W->bump) CHECK(s == STATUS_SUCCESS, "%s fails with %08x although there was memory", what.c_str(), (unsigned)s);
    if (hits) CHECK(s != STATUS_SUCCESS, "%s says it worked although an allocation failed", what.c_str());
    if (s == STATUS_SUCCESS) return true;
    fails++;
    if (undo) undo();
    if (!undo) CHECK(heap.live() == live && heap.live_maps() == maps, "the failing %s left %zu block(s) more", what.c_str(), heap.live() - live);
    verify_world();
    if (W->bump || !g.coin()) return false;
    live = heap.live();
    s = op();
    retried++;
    g.log("again, with memory: %08x", (unsigned)s);
    CHECK(s == STATUS_SUCCESS, "%s, retried with memory, fails with %08x", what.c_str(), (unsigned)s);
    return true;
}
// must work without any memory.
static void without(const std::string& what, const std::function<status()>& op) {
    bool none = g.coin();
    heap.arm_from(none ? 0 : 1000000);
    status s = op();
    heap.disarm();
    g.log("%s: %08x%s", what.c_str(), (unsigned)s, none ? " (no memory)" : "");
    CHECK(s == STATUS_SUCCESS, "%s%s fails with %08x", what.c_str(), none ? ", which needs no memory," : "", (unsigned)s);
}
static rc_list_node* lnode(rc_list* l, size_t i) { rc_list_node* n = nullptr; OK(rc_list_head(&n, l)); while (i--) { rc_list_node* x = nullptr; OK(rc_list_node_next(&x, n)); n = x; } return n; }
static rc_slist_node* snode(rc_slist* l, size_t i) { rc_slist_node* n = nullptr; OK(rc_slist_head(&n, l)); while (i--) { rc_slist_node* x = nullptr; OK(rc_slist_node_next(&x, n)); n = x; } return n; }
static rc_resource* handle(C& c) {
    switch (c.kind) {
    case LIST: return rc_list_resource_handle((rc_list*)c.p);
    case SLIST: return rc_slist_resource_handle((rc_slist*)c.p);
    case QUEUE: return rc_queue_resource_handle((rc_queue*)c.p);
    default: return rc_rbtree_resource_handle((rc_rbtree*)c.p);
    }
}
static std::vector<KItem*>* mine;
static void gone(std::vector<KItem*>& v) { for (auto* e : v) { CHECK(e->it.released == 1, "resource #%d was released %d times", e->it.id, e->it.released); e->it.released = -1000; } v.clear(); }

static void op_container() {
    if (W->cs.empty() || (W->cs.size() < 4 && g.chance(1, 4))) {
        C c; c.kind = (Kind_)g.below(4);
        void* p = nullptr;
        bool ok = attempt(std::string("make a ") + KN[c.kind], [&]() -> status {
            switch (c.kind) {
            case LIST: { rc_list* l = nullptr; status s = rc_list_create(&l, W->a); p = l; return s; }
            case SLIST: { rc_slist* l = nullptr; status s = rc_slist_create(&l, W->a); p = l; return s; }
            case QUEUE: { rc_queue* l = nullptr; status s = rc_queue_create(&l, W->a); p = l; return s; }
            default: { rc_rbtree* l = nullptr; status s = rc_rbtree_create(&l, W->a, &key_cmp, &key_of, &ctx); p = l; return s; }
            } });
        CHECK(ok == (p != nullptr), "making a %s %s but gives %s", KN[c.kind], ok ? "works" : "fails", p ? "one" : "none");
        if (ok) { c.p = p; W->cs.push_back(c); }
        return;
    }
    C& c = W->cs[g.below(W->cs.size())];
    std::string nm = KN[c.kind];
    size_t n = c.own.size();
    switch (g.pick({8, 3, 1, 1, 1})) {
    case 0: {
        KItem* e;
        if (!mine->empty() && g.coin()) { e = mine->back(); mine->pop_back(); }
        else e = new_kitem(g.below(1000) * 1000 + kitems().size());
        size_t at = 0; status s = 0; (void)s;
        int how = (int)g.below(4);
        if (c.kind == TREE) how = 0;
        else if (c.kind == QUEUE || !n) how &= 1;
        if (how >= 2) at = g.below(n);
        if (how == 3 && c.kind == SLIST) how = 2;
        bool ok = attempt(nm + " add #" + std::to_string(e->it.id) + " how " + std::to_string(how), [&]() -> status {
            switch (c.kind) {
            case LIST: { rc_list* l = (rc_list*)c.p; return how == 0 ? rc_list_append_tail(l, res(e)) : how == 1 ? rc_list_insert_head(l, res(e)) : how == 2 ? rc_list_append(lnode(l, at), res(e)) : rc_list_insert(lnode(l, at), res(e)); }
            case SLIST: { rc_slist* l = (rc_slist*)c.p; return how == 0 ? rc_slist_append_tail(l, res(e)) : how == 1 ? rc_slist_insert_head(l, res(e)) : rc_slist_append(snode(l, at), res(e)); }
            case QUEUE: return how == 0 ? rc_queue_append((rc_queue*)c.p, res(e)) : rc_queue_insert((rc_queue*)c.p, res(e));
            default: return rc_rbtree_insert((rc_rbtree*)c.p, res(e));
            } });
        if (!ok) { CHECK(!e->it.released, "a resource that could not be added was released"); mine->push_back(e); break; }
        if (how == 0) c.own.push_back(e); else if (how == 1) c.own.insert(c.own.begin(), e); else if (how == 2) c.own.insert(c.own.begin() + at + 1, e); else c.own.insert(c.own.begin() + at, e);
        break;
    }
    case 1: {
        rc_resource* r = nullptr;
        if (c.kind == TREE) {
            if (!n) break;
            size_t at = g.below(n); KItem* e = c.own[at];
            without("tree delete #" + std::to_string(e->it.id), [&]() { return rc_rbtree_delete(&r, (rc_rbtree*)c.p, &e->k); });
            CHECK(r == res(e), "delete hands back another element");
            c.own.erase(c.own.begin() + at); mine->push_back(e);
        } else {
            without(nm + " pop", [&]() { return c.kind == LIST ? rc_list_pop((rc_list*)c.p, &r) : c.kind == SLIST ? rc_slist_pop((rc_slist*)c.p, &r) : rc_queue_pop((rc_queue*)c.p, &r); });
            CHECK(r == (n ? res(c.own[0]) : nullptr), "pop hands back another element");
            if (n) { mine->push_back(c.own[0]); c.own.erase(c.own.begin()); }
        }
        break;
    }
    case 2: if (c.kind == QUEUE) break;
        without(nm + " clear", [&]() { return c.kind == LIST ? rc_list_clear((rc_list*)c.p) : c.kind == SLIST ? rc_slist_clear((rc_slist*)c.p) : rc_rbtree_clear((rc_rbtree*)c.p); });
        gone(c.own); for (auto& e : kitems()) if (e.it.released == -1000) e.it.released = 0;
        break;
    case 3: { rc_resource* h = handle(c);
        without(nm + " release", [&]() { return rc_resource_release(h); });
        gone(c.own); for (auto& e : kitems()) if (e.it.released == -1000) e.it.released = 0;
        W->cs.erase(W->cs.begin() + (&c - W->cs.data())); return; }
    default: {
        C& d = W->cs[g.below(W->cs.size())];
        if (d.kind != c.kind || &d == &c || c.kind == QUEUE) break;
        g.log("swap two %ss", nm.c_str());
        if (c.kind == LIST) rc_list_swap((rc_list*)c.p, (rc_list*)d.p); else if (c.kind == SLIST) rc_slist_swap((rc_slist*)c.p, (rc_slist*)d.p); else rc_rbtree_swap((rc_rbtree*)c.p, (rc_rbtree*)d.p);
        std::swap(c.own, d.own); verify(d);
    }
    }
    verify(c);
}
static void op_string() {
    std::string s[4]; for (auto& x : s) { auto b = g.bytes(g.below(20)); for (auto c : b) x += (char)(c ? c : 1); }
    if (g.chance(1, 4)) s[1] = std::string(g.size(9000), 'q');
    char* out = nullptr; int n = (int)g.below(4); std::string want;
    rc_rcpr_uuid id; auto ub = g.bytes(16); memcpy(&id, ub.data(), 16);
    bool ok = attempt("string operation", [&]() -> status {
        switch (n) {
        case 0: want = s[1]; return rc_strdup(&out, W->a, s[1].c_str());
        case 1: want = s[0] + s[1]; return rc_strcatv(&out, W->a, s[0].c_str(), s[1].c_str(), (const char*)nullptr);
        case 2: want = s[0] + s[1] + s[2] + s[3]; return rc_strcatv(&out, W->a, s[0].c_str(), s[1].c_str(), s[2].c_str(), s[3].c_str(), (const char*)nullptr);
        default: { char b[64]; const uint8_t* u = (const uint8_t*)&id; int k = 0; for (int i = 0; i < 16; i++) { if (i == 4 || i == 6 || i == 8 || i == 10) b[k++] = '-'; k += sprintf(b + k, "%02x", u[i]); } want = b;
            return rc_rcpr_uuid_to_string(&out, W->a, &id); }
        } });
    CHECK(ok == (out != nullptr), "a string operation %s but gives %s", ok ? "works" : "fails", out ? "a string" : "none");
    if (ok) { CHECK(want == out, "a string operation gives \"%s\", not \"%s\"", out, want.c_str()); OK(rc_allocator_reclaim(W->a, out)); }
}
static void op_number() {
    rc_bigint* j = nullptr;
    if (W->nums.empty() || g.coin()) {
        size_t bits = 1 + g.size(5000);
        if (!attempt("make a number of size " + std::to_string(bits), [&]() { return rc_bigint_create_zero(&j, W->a, bits); })) { CHECK(!j, "a failing creation gives a number"); return; }
    } else {
        rc_bigint* i = W->nums[g.below(W->nums.size())].i;
        if (!attempt("clone a number", [&]() { return rc_bigint_clone(&j, W->a, i); })) { CHECK(!j, "a failing clone gives a number"); return; }
    }
    CHECK(j, "no number"); W->nums.push_back({j});
    if (W->nums.size() > 3) { auto* x = W->nums[0].i; W->nums.erase(W->nums.begin()); without("release a number", [&]() { return rc_resource_release(rc_bigint_resource_handle(x)); }); }
}
static void op_block() {
    size_t k = g.size(8000);
    if (W->blks.empty() || g.chance(1, 3)) {
        void* p = nullptr;
        if (attempt("allocate " + std::to_string(k), [&]() { return rc_allocator_allocate(W->a, &p, k); })) { CHECK(p, "no block"); uint8_t v = (uint8_t)(1 + W->blks.size()); memset(p, v, k); W->blks.push_back({(uint8_t*)p, k, v}); }
        else CHECK(!p, "a failing allocation gives a block");
        return;
    }
    size_t at = g.below(W->blks.size()); auto& b = W->blks[at];
    if (!W->bump && g.coin() && k) {
        void* p = b.p;
        if (attempt("reallocate " + std::to_string(b.n) + " to " + std::to_string(k), [&]() { return rc_allocator_reallocate(W->a, &p, k); })) { CHECK(p, "no block"); b.p = (uint8_t*)p; for (size_t i = 0; i < std::min(b.n, k); i++) CHECK(b.p[i] == b.v, "reallocation lost byte %zu", i); b.n = k; memset(p, b.v, k); }
        else CHECK(p == b.p, "a failing reallocation changed the caller's pointer");
    } else { void* p = b.p; W->blks.erase(W->blks.begin() + at); without("reclaim", [&]() { return rc_allocator_reclaim(W->a, p); }); }
}
static void op_thread() {
    switch (g.below(4)) {
    case 0: {
        if (W->thrs.size() >= 2) break;
        World::Thr t; t.ran.reset(new int(0)); t.t = nullptr;
        bool ok = attempt("start a thread", [&]() { return rc_thread_create(&t.t, W->a, 65536, t.ran.get(), &on_thread); });
        CHECK(ok == (t.t != nullptr), "starting a thread %s but gives %s", ok ? "works" : "fails", t.t ? "one" : "none");
        if (!ok) CHECK(!*t.ran, "a thread that could not be made ran"); else W->thrs.push_back(std::move(t));
        break;
    }
    case 1: if (!W->thrs.empty()) { auto t = std::move(W->thrs.back()); W->thrs.pop_back(); without("join a thread", [&]() { return rc_resource_release(rc_thread_resource_handle(t.t)); }); CHECK(*t.ran == 1, "a thread ran %d times", *t.ran); } break;
    case 2:
        if (W->mx) { without("release the mutex", [&]() { return rc_resource_release(rc_thread_mutex_resource_handle(W->mx)); }); W->mx = nullptr; }
        else if (!attempt("make a mutex", [&]() { return rc_thread_mutex_create(&W->mx, W->a); })) CHECK(!W->mx, "a failing creation gives a mutex");
        else CHECK(W->mx, "no mutex");
        break;
    default:
        if (W->cv) { without("release the condition", [&]() { return rc_resource_release(rc_thread_cond_resource_handle(W->cv)); }); W->cv = nullptr; }
        else if (!attempt("make a condition", [&]() { return rc_thread_cond_create(&W->cv, W->a); })) CHECK(!W->cv, "a failing creation gives a condition");
        else CHECK(W->cv, "no condition");
    }
    if (W->mx && g.coin()) { rc_thread_mutex_lock* l = nullptr; bool ok = attempt("lock", [&]() { return rc_thread_mutex_lock_acquire(&l, W->mx); }); if (ok) without("unlock", [&]() { return rc_resource_release(rc_thread_mutex_lock_resource_handle(l)); }); else CHECK(!l, "a failing lock gives one"); }
}
static void op_trigger() {
    if (!W->trig) {
        if (!attempt("make a trigger", [&]() { return rc_auto_reset_trigger_create(&W->trig, W->a); })) CHECK(!W->trig, "a failing creation gives a trigger"); else CHECK(W->trig, "no trigger");
        W->fired = 0; W->reg = false; return;
    }
    if (g.chance(1, 4)) { without("release the trigger", [&]() { return rc_resource_release(rc_auto_reset_trigger_resource_handle(W->trig)); }); W->trig = nullptr; return; }
    int before = W->fired;
    if (!W->reg) { OK(rc_auto_reset_trigger_register(W->trig, &on_trigger, W)); W->reg = true; }
    rc_auto_reset_trigger_signal(W->trig); rc_auto_reset_trigger_step(W->trig);
    if (W->fired != before) W->reg = false;
    CHECK(W->fired == before + 1 , "a signalled trigger fired %d times", W->fired - before);
}
static void op_out() {
    if (W->outs.size() < 2 && (W->outs.empty() || g.chance(1, 5))) {
        World::Out o; o.s = nullptr;
        if (attempt("make an output stream", [&]() { return rc_psock_create_from_buffer(&o.s, W->a, nullptr, 0); })) { CHECK(o.s, "no stream"); W->outs.push_back(o); }
        else CHECK(!o.s, "a failing creation gives a stream");
        return;
    }
    size_t at = g.below(W->outs.size());
    auto& o = W->outs[at];
    switch (g.pick({8, 2, 1})) {
    case 0: {
        Val v = gen_val(9000);
        if (g.coin()) { v.boxed = false; v.kind = DATA; size_t left = 4096 - o.b.size() % 4096; v.d = g.bulk(g.coin() ? left + g.below(3) : g.size(9000)); }
        std::vector<uint8_t> enc; encode(enc, v);
        size_t old = o.b.size();
        bool partial = false;
        bool ok = attempt("write " + describe(v), [&]() { if (partial) return (status)STATUS_SUCCESS; return write_val(o.s, v); }, [&]() {
            // a prefix may have been written
            auto now = collected(o);
            CHECK(now.size() >= old && now.size() <= old + enc.size(), "after a failing write of %zu bytes to a stream of %zu there are %zu", enc.size(), old, now.size());
            CHECK(std::equal(o.b.begin(), o.b.end(), now.begin()), "a failing write changed what was written before");
            CHECK(std::equal(now.begin() + old, now.end(), enc.begin()), "a failing write left something else than the beginning of its bytes");
            partial = now.size() > old;
            o.b = now;
            if (partial) g.label("prefix of a failing write");
        });
        if (ok && !partial) o.b.insert(o.b.end(), enc.begin(), enc.end());
        verify(o);
        break;
    }
    case 1: {
        void* p = nullptr; size_t n = 77;
        bool ok = attempt("look at the output", [&]() { return rc_psock_from_buffer_get_output_buffer(o.s, W->a, &p, &n); });
        if (!ok) CHECK(!p && n == 77, "a failing look gives something");
        else { CHECK(n == o.b.size() && (!n || !memcmp(p, o.b.data(), n)), "a stream shows other bytes"); OK(rc_allocator_reclaim(W->a, p)); }
        break;
    }
    default: { auto* s = o.s; W->outs.erase(W->outs.begin() + at); without("release an output stream", [&]() { return rc_resource_release(rc_psock_resource_handle(s)); }); }
    }
}
static void op_in() {
    if (W->ins.size() < 3 && (W->ins.empty() || g.chance(1, 4))) {
        World::In x; x.m.reset(new Mem); x.s = nullptr; x.m->piece = 1 + g.size(3000);
        bool ok = attempt("make a user-method stream", [&]() { return rc_psock_create_from_user_methods(&x.s, W->a, x.m.get(), &mem_vtable); });
        CHECK(ok == (x.s != nullptr), "making a stream %s but gives %s", ok ? "works" : "fails", x.s ? "one" : "none");
        CHECK(!x.m->released, "making a stream released its context");
        if (ok) W->ins.push_back(std::move(x));
        return;
    }
    size_t at = g.below(W->ins.size());
    auto& x = W->ins[at];
    switch (g.pick({6, 2, 2})) {
    case 0: {
        if (x.br) { // bytes through the buffered reader need no memory
            auto b = g.bytes(1 + g.below(30)); x.m->q.insert(x.m->q.end(), b.begin(), b.end());
            std::vector<uint8_t> got(b.size());
            rc_psock* s = rc_psock_br_psock_adapter(x.br); size_t n = 0;
            without("buffered read", [&]() -> status { while (n < got.size()) { size_t k = got.size() - n; status r = rc_psock_read_raw(s, got.data() + n, &k); if (r) return r; n += k; } return STATUS_SUCCESS; });
            CHECK(got == b, "a buffered reader gives other bytes");
            break;
        }
        Val v = gen_val(9000); v.boxed = v.boxed || v.kind != DATA;
        std::vector<uint8_t> enc; encode(enc, v); x.m->q.assign(enc.begin(), enc.end());
        Val out;
        bool spoiled = false;
        bool ok = attempt("read " + describe(v), [&]() {
            if (spoiled) x.m->q.assign(enc.begin(), enc.end());
            return read_val(x.s, W->a, v, out); }, [&]() {
            size_t left = x.m->q.size();
            CHECK(left <= enc.size() && std::equal(x.m->q.begin(), x.m->q.end(), enc.end() - left), "a failing read took bytes out of order");
            spoiled = true; });
        if (ok) { check_equal(v, out); CHECK(x.m->q.empty(), "a read left %zu of its bytes", x.m->q.size()); }
        x.m->q.clear();
        break;
    }
    case 1: {
        if (x.br) break;
        bool ok = attempt("make a buffered reader", [&]() { return rc_psock_br_create_from_psock(&x.br, W->a, x.s); });
        CHECK(ok == (x.br != nullptr), "making a buffered reader %s but gives %s", ok ? "works" : "fails", x.br ? "one" : "none");
        CHECK(!x.m->released, "making a buffered reader released the stream");
        break;
    }
    default: {
        auto y = std::move(x); W->ins.erase(W->ins.begin() + at);
        without("release a stream", [&]() { if (y.br) { OK(rc_resource_release(rc_psock_br_resource_handle(y.br))); CHECK(!y.m->released, "releasing a buffered reader released its stream"); } return rc_resource_release(rc_psock_resource_handle(y.s)); });
        CHECK(y.m->released == 1, "releasing a stream released its context %d times", y.m->released);
    }
    }
}
static void op_fd() {
    if (W->fds.empty() || (W->fds.size() < 3 && g.chance(1, 3))) {
        World::Fd f; f.s = nullptr; make_pair(&f.fd, &f.peer, false);
        bool ok = attempt("make a descriptor stream", [&]() { return rc_psock_create_from_descriptor(&f.s, W->a, f.fd); });
        CHECK(ok == (f.s != nullptr), "making a stream %s but gives %s", ok ? "works" : "fails", f.s ? "one" : "none");
        CHECK(fcntl(f.fd, F_GETFD) >= 0, "making a stream closed its descriptor");
        if (ok) W->fds.push_back(f); else { close(f.fd); close(f.peer); }
        return;
    }
    size_t at = g.below(W->fds.size());
    auto& f = W->fds[at];
    if (g.chance(1, 4)) {
        auto y = f; W->fds.erase(W->fds.begin() + at);
        without("release a descriptor stream", [&]() { return rc_resource_release(rc_psock_resource_handle(y.s)); });
        CHECK(fcntl(y.fd, F_GETFD) < 0, "releasing a stream left its descriptor open"); close(y.peer);
        return;
    }
    Val v = gen_val(3000); std::vector<uint8_t> enc; encode(enc, v);
    if (g.coin()) { // writing to a descriptor needs no memory
        without("write " + describe(v), [&]() { return write_val(f.s, v); });
        std::vector<uint8_t> got(enc.size() + 1); ssize_t k = enc.empty() ? 0 : read(f.peer, got.data(), got.size());
        CHECK(k == (ssize_t)enc.size() && std::equal(enc.begin(), enc.end(), got.begin()), "other bytes were written");
    } else {
        v.boxed = v.boxed || v.kind != DATA; enc.clear(); encode(enc, v);
        Val out;
        auto put = [&]() { char junk[8192]; while (recv(f.fd, junk, sizeof junk, MSG_DONTWAIT) > 0) {} if (!enc.empty()) CHECK(write(f.peer, enc.data(), enc.size()) == (ssize_t)enc.size(), "harness: short write"); };
        bool ok = attempt("read " + describe(v), [&]() { put(); return read_val(f.s, W->a, v, out); });
        if (ok) check_equal(v, out);
        put(); char junk[8192]; while (recv(f.fd, junk, sizeof junk, MSG_DONTWAIT) > 0) {}
    }
}
static void op_inbuf() {
    std::vector<uint8_t> b = g.bulk(g.size(6000)); rc_psock* s = nullptr;
    if (!attempt("make an input stream of " + std::to_string(b.size()), [&]() { return rc_psock_create_from_buffer(&s, W->a, (const char*)b.data(), b.size()); })) { CHECK(!s, "a failing creation gives a stream"); return; }
    CHECK(s, "no stream");
    size_t off = 0;
    while (off < b.size() && g.more(3)) {
        size_t n = 1 + g.below(b.size() - off); void* p = nullptr; status r = 0; (void)r; bool used = false;
        bool ok = attempt("read " + std::to_string(n) + " bytes of it", [&]() -> status { if (used) return STATUS_SUCCESS; return rc_psock_read_raw_data(s, W->a, &p, n); }, [&]() { used = true; });
        if (!ok || used) { CHECK(!p, "a failing read gives a buffer"); // it may have consumed its bytes: find out
            std::vector<uint8_t> rest(b.size() - off + 1); size_t k = rest.size(); status q = rc_psock_read_raw(s, rest.data(), &k);
            if (q == STATUS_SUCCESS) CHECK(k <= b.size() - off && k + n >= b.size() - off && !memcmp(rest.data(), b.data() + b.size() - k, k), "after a failing read other bytes follow");
            else CHECK(n + off == b.size(), "after a failing read of %zu of %zu nothing follows: %08x", n, b.size() - off, q);
            break; }
        CHECK(p && !memcmp(p, b.data() + off, n), "a read gives other bytes");
        OK(rc_allocator_reclaim(W->a, p)); off += n;
    }
    without("release the input stream", [&]() { return rc_resource_release(rc_psock_resource_handle(s)); });
}
static void op_allocator() {
    rc_allocator* b = nullptr;
    bool ok = attempt("make an allocator", [&]() { return rc_malloc_allocator_create(&b); });
    CHECK(ok == (b != nullptr), "making an allocator %s but gives %s", ok ? "works" : "fails", b ? "one" : "none");
    if (ok) without("release an allocator", [&]() { return rc_resource_release(rc_allocator_resource_handle(b)); });
}
void run_case() {
    kitems().clear(); down = fails = retried = 0;
    heap.begin();
    ctx = KeyCtx{0x5eed, 0, false};
    World w; W = &w; region_heap = false;
    std::vector<KItem*> m; mine = &m;
    w.heap_a = w.a = make_alloc();
    if (g.chance(1, 5)) { // a small region instead of the heap
        w.bump = region_heap = true; size_t n = 64 + g.below(g.coin() ? 2000 : 60000);
        w.region = (uint8_t*)raw_malloc(n);
        OK(rc_bump_allocator_create(&w.a, w.region, n));
        g.log("memory: a region of %zu", n); g.label("bump region");
    }
    int alive = 0;
    for (int i = 0; i < 60 && g.more(30); i++) {
        size_t what = g.pick({10, 3, 2, 3, 2, 1, 4, 4, 3, 1, 1});
        switch (what) {
        case 0: op_container(); break;
        case 1: op_string(); break;
        case 2: op_number(); break;
        case 3: op_block(); break;
        case 4: op_thread(); break;
        case 5: op_trigger(); break;
        case 6: op_out(); break;
        case 7: op_in(); break;
        case 8: op_fd(); break;
        case 9: op_inbuf(); break;
        default: op_allocator();
        }
        alive = std::max(alive, (int)(w.cs.size() + w.outs.size() + w.ins.size() + w.fds.size()));
    }
    verify_world();
    // everything can be released without memory
    if (g.coin()) heap.arm_from(0);
    for (auto& c : w.cs) { OK(rc_resource_release(handle(c))); gone(c.own); }
    for (auto& o : w.outs) OK(rc_resource_release(rc_psock_resource_handle(o.s)));
    for (auto& x : w.ins) { if (x.br) OK(rc_resource_release(rc_psock_br_resource_handle(x.br))); OK(rc_resource_release(rc_psock_resource_handle(x.s))); CHECK(x.m->released == 1, "releasing a stream released its context %d times", x.m->released); }
    for (auto& f : w.fds) { OK(rc_resource_release(rc_psock_resource_handle(f.s))); CHECK(fcntl(f.fd, F_GETFD) < 0, "releasing a stream left its descriptor open"); close(f.peer); }
    for (auto& x : w.nums) OK(rc_resource_release(rc_bigint_resource_handle(x.i)));
    for (auto& b : w.blks) OK(rc_allocator_reclaim(w.a, b.p));
    if (w.trig) OK(rc_resource_release(rc_auto_reset_trigger_resource_handle(w.trig)));
    for (auto& t : w.thrs) { OK(rc_resource_release(rc_thread_resource_handle(t.t))); CHECK(*t.ran == 1, "a thread ran %d times", *t.ran); }
    if (w.mx) OK(rc_resource_release(rc_thread_mutex_resource_handle(w.mx)));
    if (w.cv) OK(rc_resource_release(rc_thread_cond_resource_handle(w.cv)));
    if (w.bump) OK(rc_resource_release(rc_allocator_resource_handle(w.a)));
    heap.disarm();
    for (auto* e : m) CHECK(!e->it.released, "a resource that was handed back was released");
    free_alloc(w.heap_a);
    if (w.region) raw_free(w.region);
    heap.expect_clean("end of case");
    heap.end();
    if (fails >= 2 && alive >= 2 && (retried || w.bump)) g.nontrivial();
}
} // namespace vp
