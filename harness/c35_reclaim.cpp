// C35: what is reported when memory cannot be given back.
//
// All memory comes from one allocator of ours (through the public allocator
// table), whose reclaim method refuses at generated calls: the block stays as
// it is. Allocations may fail as well, so that the clean-up of a creation that
// fails meets a refusal.
#include "streams.hpp"
#include "tree.hpp"
#include <functional>
#include <map>
namespace vp {
const char* const PROPERTY = "C35";
const char* const RULE = "a case either makes one object of 17 kinds (containers of up to 12 elements, numbers, triggers, thread objects, streams with data, readers, messages; at times a creation that runs out of memory) and releases it, again while it says it is still there, or runs a history of up to 30 insertions, removals, look-ups and clearings over a container, while the allocator refuses to take blocks back at generated calls; non-trivial = a refusal happened";
const std::vector<Probe> PROBES;

enum : int { REFUSED = STATUS_CODE(1, 0x7e, 0x77) };
struct FA { rc_resource hdr; void* context; std::map<void*, size_t> live, refused; long calls, at, span, failed, oom; uint8_t junk; };
static FA* A;
static rc_allocator* ra() { return (rc_allocator*)A; }
static status fa_allocate(rc_allocator* a, void** p, size_t n) {
    CHECK((FA*)a == A, "an allocation from something else");
    if (A->oom == 0) { *p = nullptr; return ERROR_GENERAL_OUT_OF_MEMORY; }
    if (A->oom > 0) A->oom--;
    *p = raw_malloc(n); memset(*p, A->junk++, n); A->live[*p] = n; return STATUS_SUCCESS;
}
static status fa_reclaim(rc_allocator* a, void* p) {
    CHECK((FA*)a == A, "memory given back to something else"); auto i = A->live.find(p);
    CHECK(i != A->live.end(), "memory is given back that was given back before, or was never handed out");
    long n = A->calls++;
    if (A->at >= 0 && n >= A->at && n < A->at + A->span) { A->failed++; A->refused[p] = 1; return REFUSED; }
    memset(p, A->junk++, i->second); A->live.erase(i); A->refused.erase(p); raw_free(p);
    return STATUS_SUCCESS;
}
static status fa_reallocate(rc_allocator* a, void** p, size_t n) {
    CHECK((FA*)a == A, "memory resized by something else"); auto i = A->live.find(*p); CHECK(i != A->live.end(), "memory that was never handed out is resized");
    if (A->oom == 0) return ERROR_GENERAL_OUT_OF_MEMORY;
    if (A->oom > 0) A->oom--;
    void* q = raw_malloc(n); memset(q, A->junk++, n); memcpy(q, *p, std::min(n, i->second)); A->live.erase(i); raw_free(*p); A->live[q] = n; *p = q; return STATUS_SUCCESS;
}
static status fa_release(rc_resource*) { return STATUS_SUCCESS; }
RCPR_VTABLE rc_allocator_vtable fa_vtable = { { &fa_release }, &fa_allocate, &fa_reclaim, &fa_reallocate, nullptr };

static void arm(unsigned of5 = 4) { A->calls = 0; A->failed = 0; A->at = -1; if (g.chance(of5, 5)) { A->at = g.coin() ? (long)g.below(3) : (long)g.size(30); A->span = g.chance(1, 4) ? 1 + (long)g.below(4) : 1; } }
static long disarm() { A->at = -1; if (A->failed) g.nontrivial(); return A->failed; }
static void forgotten(const char* what) { for (auto& x : A->live) if (!A->refused.count(x.first)) fail("%s forgot a block of %zu bytes that was not refused", what, x.second); }
static void judged(const char* what, status s, long f) {
    g.log("%s: %08x, %ld of %ld blocks refused, %zu out", what, (unsigned)s, f, A->calls, A->live.size());
    if (f) CHECK(s != STATUS_SUCCESS, "%s says it worked although the allocator refused to take back %ld block(s)", what, f);
    else CHECK(s == STATUS_SUCCESS, "%s fails with %08x although nothing was refused", what, (unsigned)s);
}
static void once(const char* what) { for (auto& e : kitems()) CHECK(e.it.released == 1, "%s: resource #%d was released %d times", what, e.it.id, e.it.released); }
// releases r, again as long as it is still there.
static void end(const char* what, rc_resource* r, bool strict = true) {
    for (int tries = 0;; ) {
        arm(); status s = rc_resource_release(r); long f = disarm(); judged(what, s, f);
        if (s == STATUS_SUCCESS || !A->live.count((void*)r) || A->refused.count((void*)r)) break;
        if (!strict) break;
        if (++tries > 60) fail("%s cannot be released", what);
    }
    if (strict) forgotten(what);
    g.label(what);
}
// a creation; at times one that runs out of memory, then meets a refusal.
static bool make(const char* what, const std::function<status()>& f) {
    if (g.chance(1, 4)) { A->oom = (long)g.below(6); arm(); }
    size_t before = A->live.size(), bad = A->refused.size(); status s = f(); bool out = A->oom == 0; A->oom = -1; long n = disarm(); A->failed = 0;
    if (s == STATUS_SUCCESS) { if (n) fail("%s worked although a block was refused", what); return true; }
    CHECK(out || n, "%s fails with %08x", what, (unsigned)s);
    g.log("%s fails: %08x, %ld refused", what, (unsigned)s, n); g.label("failing creation");
    CHECK(A->live.size() - before == A->refused.size() - bad, "%s, failing, left %ld block(s) of which %ld were refused", what, (long)A->live.size() - (long)before, (long)A->refused.size() - (long)bad);
    return false;
}
static KeyCtx ctx;
static status entry(void*) { return STATUS_SUCCESS; }
static rc_resource* elem() { if (g.coin()) return res(new_kitem(g.below(1000) * 1000 + kitems().size())); rc_bigint* b = nullptr; OK(rc_bigint_create_zero(&b, ra(), 100)); return rc_bigint_resource_handle(b); }

// ------------------------------------------------------------------ histories
enum { LIST, SLIST, QUEUE, TREE };
static const char* const KN[] = {"list", "slist", "queue", "tree"};
static void history() {
    int kind = (int)g.below(4); rc_list* l = nullptr; rc_slist* sl = nullptr; rc_queue* q = nullptr; rc_rbtree* t = nullptr;
    switch (kind) { case LIST: OK(rc_list_create(&l, ra())); break; case SLIST: OK(rc_slist_create(&sl, ra())); break; case QUEUE: OK(rc_queue_create(&q, ra())); break; default: OK(rc_rbtree_create(&t, ra(), &key_cmp, &key_of, &ctx)); }
    std::vector<KItem*> own; // nullptr: an element without a resource
    auto live = [&] { size_t n = kind == LIST ? rc_list_count(l) : kind == SLIST ? rc_slist_count(sl) : kind == QUEUE ? rc_queue_count(q) : rc_rbtree_count(t); return n; };
    auto check = [&](const char* what) {
        CHECK(live() == own.size(), "after %s the %s counts %zu instead of %zu", what, KN[kind], live(), own.size());
        for (auto* e : own) if (e) CHECK(!e->it.released, "%s released resource #%d, which is still in the %s", what, e->it.id, KN[kind]);
        if (kind == LIST) {
            rc_list_node *n = nullptr, *p = nullptr; OK(rc_list_head(&n, l));
            for (auto* e : own) { rc_resource* c = nullptr; OK(rc_list_node_child(&c, n)); CHECK(c == (e ? res(e) : nullptr), "after %s the list has other elements", what); p = n; OK(rc_list_node_next(&n, p)); }
            CHECK(!n, "after %s the list goes on", what); rc_list_node* tail = nullptr; OK(rc_list_tail(&tail, l)); CHECK(tail == p, "after %s the list's last node is another", what);
        } else if (kind == SLIST) {
            rc_slist_node *n = nullptr, *p = nullptr; OK(rc_slist_head(&n, sl));
            for (auto* e : own) { rc_resource* c = nullptr; OK(rc_slist_node_child(&c, n)); CHECK(c == (e ? res(e) : nullptr), "after %s the slist has other elements", what); p = n; OK(rc_slist_node_next(&n, p)); }
            CHECK(!n, "after %s the slist goes on", what); rc_slist_node* tail = nullptr; OK(rc_slist_tail(&tail, sl)); CHECK(tail == p, "after %s the slist's last node is another", what);
        } else if (kind == TREE) for (auto* e : own) { rc_resource* r = nullptr; OK(rc_rbtree_find(&r, t, &e->k)); CHECK(r == res(e), "after %s the tree finds another element", what); }
    };
    auto removed = [&](const char* what, status s, long f, size_t at, rc_resource* r, bool wanted) {
        KItem* e = own[at]; own.erase(own.begin() + (long)at); judged(what, s, f);
        if (f) { CHECK(!r, "%s failed, and still gave a resource", what); if (e) CHECK(e->it.released == 1, "%s failed, and resource #%d, which it removed, was released %d times", what, e->it.id, e->it.released); g.label("failing removal"); }
        else if (wanted) { CHECK(r == (e ? res(e) : nullptr), "%s gave another resource", what); if (r) { CHECK(!e->it.released, "%s released what it gave", what); OK(rc_resource_release(r)); } }
        else if (e) CHECK(e->it.released == 1, "%s did not release the resource", what);
        check(what);
    };
    for (int n = 1 + (int)g.size(30); n; n--) {
        switch (g.pick({6, 4, 1, 1})) {
        case 0: {
            KItem* e = new_kitem(g.below(1000) * 1000 + kitems().size()); size_t at = own.size();
            switch (kind) {
            case LIST: if (g.coin()) { at = 0; OK(rc_list_insert_head(l, res(e))); } else OK(rc_list_append_tail(l, res(e))); break;
            case SLIST: if (g.coin()) { at = 0; OK(rc_slist_insert_head(sl, res(e))); } else OK(rc_slist_append_tail(sl, res(e))); break;
            case QUEUE: OK(rc_queue_append(q, res(e))); break;
            default: OK(rc_rbtree_insert(t, res(e)));
            }
            own.insert(own.begin() + (long)at, e);
            if ((kind == LIST || kind == SLIST) && g.chance(1, 8)) { // taken out of its node
                rc_resource* r = nullptr;
                if (kind == LIST) { rc_list_node* x = nullptr; if (at) OK(rc_list_tail(&x, l)); else OK(rc_list_head(&x, l)); OK(rc_list_node_child_swap(x, &r)); }
                else { rc_slist_node* x = nullptr; if (at) OK(rc_slist_tail(&x, sl)); else OK(rc_slist_head(&x, sl)); OK(rc_slist_node_child_swap(x, &r)); }
                CHECK(r == res(e), "another element was taken out of its node"); OK(rc_resource_release(r)); own[at] = nullptr;
            }
            break; }
        case 1: {
            if (own.empty()) break;
            rc_resource* r = nullptr; status s;
            if (kind == TREE) {
                bool want = !g.chance(1, 4); size_t at = g.below(own.size()); uint64_t k = own[at]->k;
                arm(3); s = rc_rbtree_delete(want ? &r : nullptr, t, &k); removed("a deletion", s, disarm(), at, r, want);
            } else if (kind == SLIST && own.size() > 1 && g.coin()) {
                size_t at = 1 + g.below(own.size() - 1); rc_slist_node* x = nullptr; OK(rc_slist_head(&x, sl)); for (size_t i = 1; i < at; i++) { rc_slist_node* y = nullptr; OK(rc_slist_node_next(&y, x)); x = y; }
                arm(3); s = rc_slist_node_next_pop(x, &r); removed("removing a next node", s, disarm(), at, r, true);
            } else { arm(3); s = kind == LIST ? rc_list_pop(l, &r) : kind == SLIST ? rc_slist_pop(sl, &r) : rc_queue_pop(q, &r); removed("a pop", s, disarm(), 0, r, true); }
            break; }
        case 2: {
            if (kind == QUEUE) break;
            arm(3); status s = kind == LIST ? rc_list_clear(l) : kind == SLIST ? rc_slist_clear(sl) : rc_rbtree_clear(t); long f = disarm(); judged("a clear", s, f);
            // what has not been released is still there; without a refusal, that is nothing.
            size_t n = live(); if (!f) CHECK(!n, "a clear left %zu element(s)", n); CHECK(n <= own.size(), "a clear added elements");
            if (kind == TREE) { std::vector<KItem*> keep; for (auto* e : own) if (!e->it.released) keep.push_back(e); own = keep; }
            else { for (size_t i = 0; i + n < own.size(); i++) if (own[i]) CHECK(own[i]->it.released == 1, "a clear removed resource #%d and released it %d times", own[i]->it.id, own[i]->it.released); own.erase(own.begin(), own.end() - (long)n); }
            check("a clear"); g.label("clear");
            break; }
        default: check("nothing");
        }
    }
    end(KN[kind], kind == LIST ? rc_list_resource_handle(l) : kind == SLIST ? rc_slist_resource_handle(sl) : kind == QUEUE ? rc_queue_resource_handle(q) : rc_rbtree_resource_handle(t));
}
static void one_object() {
    size_t n = g.size(12);
    switch (g.below(13)) {
    case 0: { rc_list* l = nullptr; if (!make("creating a list", [&] { return rc_list_create(&l, ra()); })) break; while (n--) OK(rc_list_append_tail(l, elem())); end("list", rc_list_resource_handle(l)); break; }
    case 1: { rc_slist* l = nullptr; if (!make("creating a slist", [&] { return rc_slist_create(&l, ra()); })) break; while (n--) OK(rc_slist_append_tail(l, elem())); end("slist", rc_slist_resource_handle(l)); break; }
    case 2: { rc_queue* l = nullptr; if (!make("creating a queue", [&] { return rc_queue_create(&l, ra()); })) break; while (n--) OK(rc_queue_append(l, elem())); end("queue", rc_queue_resource_handle(l)); break; }
    case 3: { rc_rbtree* l = nullptr; if (!make("creating a tree", [&] { return rc_rbtree_create(&l, ra(), &key_cmp, &key_of, &ctx); })) break; while (n--) OK(rc_rbtree_insert(l, res(new_kitem(g.below(1000) * 1000 + kitems().size())))); end("tree", rc_rbtree_resource_handle(l)); break; }
    case 4: { rc_bigint* b = nullptr; if (!make("creating a number", [&] { return rc_bigint_create_zero(&b, ra(), 100); })) break;
        if (g.coin()) { rc_bigint* c = nullptr; if (make("cloning", [&] { return rc_bigint_clone(&c, ra(), b); })) OK(rc_resource_release(rc_bigint_resource_handle(c))); }
        end("number", rc_bigint_resource_handle(b)); break; }
    case 5: { rc_auto_reset_trigger* b = nullptr; if (!make("creating a trigger", [&] { return rc_auto_reset_trigger_create(&b, ra()); })) break; end("trigger", rc_auto_reset_trigger_resource_handle(b)); break; }
    case 6: { rc_thread_mutex* b = nullptr; if (!make("creating a mutex", [&] { return rc_thread_mutex_create(&b, ra()); })) break;
        if (g.coin()) { rc_thread_mutex_lock* k = nullptr; OK(rc_thread_mutex_lock_acquire(&k, b)); OK(rc_resource_release(rc_thread_mutex_lock_resource_handle(k))); }
        end("mutex", rc_thread_mutex_resource_handle(b)); break; }
    case 7: { rc_thread_cond* b = nullptr; if (!make("creating a condition variable", [&] { return rc_thread_cond_create(&b, ra()); })) break; end("condition variable", rc_thread_cond_resource_handle(b)); break; }
    case 8: { if (!g.chance(1, 4)) break; rc_thread* b = nullptr; if (!make("creating a thread", [&] { return rc_thread_create(&b, ra(), 65536, nullptr, &entry); })) break; end("thread", rc_thread_resource_handle(b)); break; }
    case 9: { rc_psock* p = nullptr; if (!make("creating an output stream", [&] { return rc_psock_create_from_buffer(&p, ra(), nullptr, 0); })) break;
        while (n--) { auto v = g.bulk(g.coin() ? g.size(300) : 4000 + g.below(9000)); OK(rc_psock_write_raw_data(p, v.data(), v.size())); }
        if (g.coin()) { void* o = nullptr; size_t k = 0; size_t before = A->live.size(); if (make("copying the output", [&] { return rc_psock_from_buffer_get_output_buffer(p, ra(), &o, &k); })) { CHECK(A->live.size() == before + 1, "a copy is not one block"); OK(rc_allocator_reclaim(ra(), o)); } }
        // its blocks are its own affair
        end("output stream", rc_psock_resource_handle(p), false); break; }
    case 10: { auto v = g.bulk(1 + g.size(3000)); rc_psock* p = nullptr; if (!make("creating an input stream", [&] { return rc_psock_create_from_buffer(&p, ra(), (const char*)v.data(), v.size()); })) break; end("input stream", rc_psock_resource_handle(p)); break; }
    case 11: { Mem m; rc_psock* p = nullptr; if (!make("creating a stream of methods", [&] { return rc_psock_create_from_user_methods(&p, ra(), &m, &mem_vtable); })) break;
        rc_psock_br* b = nullptr; bool r = make("creating a reader", [&] { return rc_psock_br_create_from_psock(&b, ra(), p); });
        if (r) { size_t before = A->live.size() - A->refused.size(); (void)before; arm(); status s = rc_resource_release(rc_psock_br_resource_handle(b)); judged("reader", s, disarm()); }
        if (g.coin()) { // a read that fails, with its memory refused
            Val v = gen_val(300); v.kind = g.coin() ? DATA : BSTRING; v.boxed = true; std::vector<uint8_t> e; encode(e, v); if (e.size()) e.resize(e.size() - 1); m.q.assign(e.begin(), e.end());
            Val o; arm(); status s = read_val(p, ra(), v, o); long f = disarm(); A->failed = 0; CHECK(s != STATUS_SUCCESS, "a truncated value was read"); g.log("a truncated read: %08x, %ld refused", (unsigned)s, f); g.label("failing read");
        }
        int rel = m.released; end("stream of methods", rc_psock_resource_handle(p)); CHECK(m.released == rel + 1, "a stream's release method was called %d times", m.released - rel); break; }
    default: { rc_resource* pl = elem(); rc_message* m = nullptr; bool ok = make("creating a message", [&] { return rc_message_create(&m, ra(), 0, pl); });
        if (!ok) { OK(rc_resource_release(pl)); break; }
        end("message", rc_message_resource_handle(m)); }
    }
}
void setup() { region_heap = true; }
void run_case() {
    kitems().clear(); items().clear(); ctx = KeyCtx{0x5eed, 0, false};
    FA fa{}; A = &fa; A->at = -1; A->oom = -1; A->junk = (uint8_t)g.below(256); rc_resource_init(&A->hdr, &fa_vtable.hdr); heap.begin();
    struct Rest { ~Rest() { for (auto& x : A->live) raw_free(x.first); A->live.clear(); } } rest;
    if (g.coin()) history(); else one_object();
    once("at the end");
    heap.expect_clean("after the case");
    heap.end();
}
} // namespace vp
