// C33: memory comes from the allocator a component was given, and goes back to
// the allocator it came from.
//
// Every allocator of a case is one of ours (through the public allocator
// table): it remembers its blocks, fills them with rubbish when it hands them
// out and when it takes them back, moves every block it resizes, at times has
// nothing to give, and may be released as soon as nothing uses it any more.
#include "streams.hpp"
#include "tree.hpp"
#include <arpa/inet.h>
#include <functional>
#include <memory>
#include <netinet/in.h>
#include <set>
namespace vp {
const char* const PROPERTY = "C33";
const char* const RULE = "a case uses 2-5 allocators of the caller's own making: either a history of up to 60 operations over containers (swapped with each other, nested, holding resources of other allocators), strings, numbers (up to 1.1 million bits), triggers, threads, streams and buffered readers, or a scheduler whose facilities, fibers, messages, streams and reads are given different allocators; each allocation, resize and return is checked against a ledger of who gave what to whom, and unused allocators are released early; non-trivial = at least three of the allocators gave memory and objects over two or more of them worked together";
const std::vector<Probe> PROBES;

struct OA { rc_resource hdr; void* context; int id, given; bool dead; size_t live; uint64_t calls; long fail; bool failed; };
static std::map<void*, std::pair<OA*, size_t>>* ledger;
static std::deque<OA>* oas;
static uint8_t junk;
static rc_allocator* ra(OA* o) { return (rc_allocator*)o; }
static OA* known(rc_allocator* a, const char* what) {
    for (auto& o : *oas) if (ra(&o) == a) { CHECK(!o.dead, "%s allocator %d after it was released", what, o.id); return &o; }
    fail("%s something that is not an allocator of this case", what);
}
static status oa_allocate(rc_allocator* a, void** p, size_t n) {
    OA* o = known(a, "memory is taken from");
    CHECK(o->given > 0, "memory is taken from allocator %d by a call that was not given it", o->id);
    o->calls++;
    if (o->fail == 0) { o->failed = true; *p = nullptr; return ERROR_GENERAL_OUT_OF_MEMORY; }
    if (o->fail > 0) o->fail--;
    *p = raw_malloc(n); memset(*p, junk++, n);
    (*ledger)[*p] = {o, n}; o->live++;
    return STATUS_SUCCESS;
}
static void take(OA* o, void* p, const char* what) {
    auto i = ledger->find(p);
    if (i == ledger->end()) fail("allocator %d is asked to %s memory it never gave, or got back before", o->id, what);
    if (i->second.first != o) fail("memory of allocator %d is %s allocator %d", i->second.first->id, *what == 'r' ? "resized by" : "returned to", o->id);
    memset(p, junk++, i->second.second);
    o->live--; ledger->erase(i); raw_free(p);
}
static status oa_reclaim(rc_allocator* a, void* p) { OA* o = known(a, "memory is returned to"); take(o, p, "take back"); return STATUS_SUCCESS; }
static status oa_reallocate(rc_allocator* a, void** p, size_t n) {
    OA* o = known(a, "memory is resized by"); auto i = ledger->find(*p);
    CHECK(o->given > 0, "memory is resized by allocator %d in a call that was not given it", o->id);
    CHECK(i != ledger->end(), "allocator %d is asked to resize memory it never gave", o->id);
    CHECK(i->second.first == o, "memory of allocator %d is resized by allocator %d", i->second.first->id, o->id);
    o->calls++;
    if (o->fail == 0) { o->failed = true; return ERROR_GENERAL_OUT_OF_MEMORY; }
    if (o->fail > 0) o->fail--;
    void* q = raw_malloc(n); memset(q, junk++, n); memcpy(q, *p, std::min(n, i->second.second));
    take(o, *p, "resize"); (*ledger)[q] = {o, n}; o->live++; *p = q;
    return STATUS_SUCCESS;
}
struct Asked { rc_allocator* a; int what, key; void* p; size_t n; int calls; status answer; bool on; };
static Asked asked; // a call made directly on an allocator
static status oa_control(rc_allocator* a, int key, void* v, size_t n) { CHECK(asked.on, "a control request nobody made"); asked.a = a; asked.what = 4; asked.key = key; asked.p = v; asked.n = n; asked.calls++; return asked.answer; }
static status rec_allocate(rc_allocator* a, void** p, size_t n) { CHECK(asked.on, "an allocation nobody made"); asked.a = a; asked.what = 1; asked.p = p; asked.n = n; asked.calls++; return asked.answer; }
static status rec_reclaim(rc_allocator* a, void* p) { CHECK(asked.on, "a reclaim nobody made"); asked.a = a; asked.what = 2; asked.p = p; asked.n = 0; asked.calls++; return asked.answer; }
static status rec_reallocate(rc_allocator* a, void** p, size_t n) { CHECK(asked.on, "a resize nobody made"); asked.a = a; asked.what = 3; asked.p = p; asked.n = n; asked.calls++; return asked.answer; }
static status oa_release(rc_resource* r) { OA* o = known((rc_allocator*)r, "a second release of"); CHECK(!o->live, "harness: allocator released early"); o->dead = true; return STATUS_SUCCESS; }
RCPR_VTABLE rc_allocator_vtable oa_vtable = { { &oa_release }, &oa_allocate, &oa_reclaim, &oa_reallocate, &oa_control };

RCPR_VTABLE rc_allocator_vtable oa_bare_vtable = { { &oa_release }, &oa_allocate, &oa_reclaim, &oa_reallocate, nullptr };
RCPR_VTABLE rc_allocator_vtable rec_vtable = { { &oa_release }, &rec_allocate, &rec_reclaim, &rec_reallocate, &oa_control };
RCPR_VTABLE rc_allocator_vtable rec_bare_vtable = { { &oa_release }, &rec_allocate, &rec_reclaim, &rec_reallocate, nullptr };
// a request made directly: it reaches the method as it is, and so does the answer.
static void op_direct(OA* o) {
    bool bare = g.coin(), rec = g.chance(2, 3); OA tmp{}; OA* t = rec ? &tmp : o;
    rc_resource_init(&t->hdr, rec ? (bare ? &rec_bare_vtable.hdr : &rec_vtable.hdr) : bare ? &oa_bare_vtable.hdr : &oa_vtable.hdr);
    int what = rec ? 1 + (int)g.below(4) : 4; char c; void* p = g.chance(1, 3) ? nullptr : (void*)&c; void* q = p; size_t n = g.coin() ? g.below(1000) : (size_t)g.u64(); int key = g.coin() ? (int)g.below(10) : (int)g.u64();
    asked = Asked{}; asked.on = true; asked.answer = g.coin() ? STATUS_SUCCESS : (status)g.u64();
    if (what == 2 && !p) p = q = &c;
    if (what == 3) p = q = &c;
    status s = what == 1 ? rc_allocator_allocate(ra(t), &q, n) : what == 2 ? rc_allocator_reclaim(ra(t), q) : what == 3 ? rc_allocator_reallocate(ra(t), &q, n) : rc_allocator_control(ra(t), key, p, n);
    asked.on = false;
    g.log("direct request %d%s: %08x", what, bare ? " of a bare allocator" : "", (unsigned)s); g.label("direct requests");
    if (what == 4 && bare) CHECK(s == (status)ERROR_GENERAL_CONTROL_KEY_INVALID && !asked.calls, "a control request to an allocator without such a method gives %08x", (unsigned)s);
    else {
        CHECK(asked.calls == 1 && asked.what == what && asked.a == ra(t), "request %d reached method %d, after %d calls, or of another allocator", what, asked.what, asked.calls);
        CHECK(asked.p == (what == 1 || what == 3 ? (void*)&q : p) && (what == 2 || asked.n == n) && (what != 4 || asked.key == key), "request %d reached the allocator's method with other arguments", what);
        CHECK(s == asked.answer, "the allocator's method answered %08x, the caller got %08x", (unsigned)asked.answer, (unsigned)s);
    }
    if (!rec) rc_resource_init(&t->hdr, &oa_vtable.hdr);
}
static OA* fresh_oa() {
    oas->push_back(OA{}); OA* o = &oas->back();
    rc_resource_init(&o->hdr, &oa_vtable.hdr); o->id = (int)oas->size() - 1; o->fail = -1; o->context = (void*)0x5a5a5a5a;
    return o;
}
static std::vector<OA*>* cur; // the allocators in use
static OA* any() { return (*cur)[g.below(cur->size())]; }
// the allocators given to the call under way
struct Give {
    OA* v[8]; int n = 0; uint64_t at[8];
    Give(std::initializer_list<OA*> l) { for (OA* o : l) add(o); }
    void add(OA* o) { if (!o) return; at[n] = o->calls; v[n++] = o; o->given++; }
    ~Give() { while (n) v[--n]->given--; }
};
static void nothing_else(const char* what) {
    CHECK(heap.live() == 0 && heap.total_allocs() == 0, "%s took memory from elsewhere", what);
}
static void retire(OA* o) {
    g.log("allocator %d is released", o->id);
    CHECK(!o->live, "allocator %d still has %zu block(s) out although nothing uses it", o->id, o->live);
    OK(rc_resource_release(rc_allocator_resource_handle(ra(o)))); CHECK(o->dead, "an allocator's release method was not called");
    g.label("allocator released early");
}
// a creation: takes from the given allocator (and only it), and from it alone
// even when it has nothing to give.
static bool create(const std::string& what, OA* o, const std::function<status()>& f) {
    size_t live = o->live; uint64_t calls = o->calls;
    bool bad = g.chance(1, 10); if (bad) { o->fail = (long)g.below(4); o->failed = false; }
    std::vector<uint64_t> others; for (auto& x : *oas) others.push_back(x.calls);
    status s; { Give u({o}); s = f(); }
    for (size_t i = 0; i < others.size(); i++) CHECK(&(*oas)[i] == o || (*oas)[i].calls == others[i], "%s given allocator %d took memory from allocator %zu", what.c_str(), o->id, i);
    bool hit = bad && o->failed; o->fail = -1; o->failed = false;
    g.log("%s from allocator %d: %08x%s", what.c_str(), o->id, (unsigned)s, hit ? " (no memory)" : "");
    nothing_else(what.c_str());
    CHECK(o->calls > calls, "%s took nothing from the allocator it was given", what.c_str());
    if (hit) { CHECK(s != STATUS_SUCCESS, "%s says it worked although an allocation failed", what.c_str()); CHECK(o->live == live, "failing, %s left %ld block(s)", what.c_str(), (long)o->live - (long)live); g.label("failing creation"); return false; }
    CHECK(s == STATUS_SUCCESS, "%s fails with %08x", what.c_str(), (unsigned)s);
    return true;
}

// ------------------------------------------------------------------ structures
enum Kind_ { LIST, SLIST, QUEUE, TREE };
static const char* const KN[] = {"list", "slist", "queue", "tree"};
struct El { KItem* k; rc_resource* r; OA* from; OA* node; }; // from: set when r is made of that allocator's memory
struct C { Kind_ kind; void* p; OA* a; std::vector<El> own; std::set<OA*> mates; };
struct Out { char* s; std::string want; OA* a; };
struct Res { rc_resource* h; OA* a; const char* what; std::function<void()> use; };
struct Str { rc_psock* s; OA* a; std::vector<uint8_t> b; std::shared_ptr<Mem> m; int fd = -1, peer = -1; rc_psock_br* br = nullptr; OA* bra = nullptr; };
struct World { std::vector<C> cs; std::vector<Out> outs; std::vector<Res> rs; std::vector<Str> ss; int mixed = 0, swaps = 0; };
static World* W;
static KeyCtx ctx;
static rc_resource* handle(C& c) {
    switch (c.kind) {
    case LIST: return rc_list_resource_handle((rc_list*)c.p);
    case SLIST: return rc_slist_resource_handle((rc_slist*)c.p);
    case QUEUE: return rc_queue_resource_handle((rc_queue*)c.p);
    default: return rc_rbtree_resource_handle((rc_rbtree*)c.p);
    }
}
static bool used(OA* o) {
    for (auto& c : W->cs) { if (c.a == o || c.mates.count(o)) return true; for (auto& e : c.own) if (e.from == o || e.node == o) return true; }
    for (auto& x : W->outs) if (x.a == o) return true;
    for (auto& x : W->rs) if (x.a == o) return true;
    for (auto& x : W->ss) if (x.a == o || x.bra == o) return true;
    return false;
}
static void dropped(std::vector<El>& v) {
    for (auto& e : v) { if (e.k) CHECK(e.k->it.released == 1, "resource #%d was released %d times", e.k->it.id, e.k->it.released); else CHECK(!ledger->count((void*)e.r), "an element's memory was not returned"); }
    v.clear();
}
static rc_bigint* number(OA* o) { rc_bigint* b = nullptr; Give u({o}); OK(rc_bigint_create_zero(&b, ra(o), 1 + g.size(600))); return b; }
static rc_list_node* lnode(rc_list* l, size_t i) { rc_list_node* n = nullptr; OK(rc_list_head(&n, l)); while (i--) { rc_list_node* x = nullptr; OK(rc_list_node_next(&x, n)); n = x; } return n; }
static rc_slist_node* snode(rc_slist* l, size_t i) { rc_slist_node* n = nullptr; OK(rc_slist_head(&n, l)); while (i--) { rc_slist_node* x = nullptr; OK(rc_slist_node_next(&x, n)); n = x; } return n; }
static void op_container() {
    if (W->cs.empty() || (W->cs.size() < 5 && g.chance(1, 4))) {
        C c; c.kind = (Kind_)g.below(4); c.a = any(); c.p = nullptr; void* p = nullptr;
        bool ok = create(std::string("a ") + KN[c.kind], c.a, [&]() -> status {
            switch (c.kind) {
            case LIST: return rc_list_create((rc_list**)&p, ra(c.a));
            case SLIST: return rc_slist_create((rc_slist**)&p, ra(c.a));
            case QUEUE: return rc_queue_create((rc_queue**)&p, ra(c.a));
            default: return rc_rbtree_create((rc_rbtree**)&p, ra(c.a), &key_cmp, &key_of, &ctx);
            } });
        if (ok) { c.p = p; W->cs.push_back(c); }
        return;
    }
    size_t ci = g.below(W->cs.size()); C& c = W->cs[ci]; std::string nm = KN[c.kind];
    switch (g.pick({8, 4, 4, 1, 1})) {
    case 0: {
        El e{}; e.from = nullptr;
        if (c.kind != TREE && g.chance(1, 3)) { e.from = any(); e.r = rc_bigint_resource_handle(number(e.from)); }
        else { e.k = new_kitem(g.below(1000) * 1000 + kitems().size()); e.r = res(e.k); }
        size_t n = c.own.size(), at = g.below(n + 1); status s; Give u({c.a}); for (OA* m : c.mates) if (u.n < 8 && m != c.a) u.add(m);
        switch (c.kind) {
        case LIST: s = at == 0 ? rc_list_insert_head((rc_list*)c.p, e.r) : at == n && g.coin() ? rc_list_append_tail((rc_list*)c.p, e.r) : at < n && g.coin() ? rc_list_insert(lnode((rc_list*)c.p, at), e.r) : rc_list_append(lnode((rc_list*)c.p, at - 1), e.r); break;
        case SLIST: s = at == 0 ? rc_slist_insert_head((rc_slist*)c.p, e.r) : at == n && g.coin() ? rc_slist_append_tail((rc_slist*)c.p, e.r) : rc_slist_append(snode((rc_slist*)c.p, at - 1), e.r); break;
        case QUEUE: if (at) at = n; s = at == 0 ? rc_queue_insert((rc_queue*)c.p, e.r) : rc_queue_append((rc_queue*)c.p, e.r); break;
        default: s = rc_rbtree_insert((rc_rbtree*)c.p, e.r);
        }
        CHECK(s == STATUS_SUCCESS, "adding to a %s fails with %08x", nm.c_str(), s); nothing_else("adding an element");
        for (int i = 0; i < u.n; i++) if (u.v[i]->calls > u.at[i]) e.node = u.v[i];
        CHECK(e.node, "an element was added without memory for it");
        g.log("%s%zu add (node from allocator %d%s)", nm.c_str(), ci, e.node->id, e.from ? ", element of another" : "");
        if (e.from && e.from != e.node) W->mixed++;
        c.own.insert(c.own.begin() + at, e);
        break;
    }
    case 1: {
        if (c.own.empty()) break;
        rc_resource* r = nullptr; size_t at = 0; status s; g.log("%s%zu remove", nm.c_str(), ci);
        switch (c.kind) {
        case LIST: s = rc_list_pop((rc_list*)c.p, &r); break;
        case SLIST: if (c.own.size() > 1 && g.coin()) { at = 1; rc_slist_node* n = nullptr; OK(rc_slist_head(&n, (rc_slist*)c.p)); s = rc_slist_node_next_pop(n, &r); } else s = rc_slist_pop((rc_slist*)c.p, &r); break;
        case QUEUE: s = rc_queue_pop((rc_queue*)c.p, &r); break;
        default: at = g.below(c.own.size()); s = rc_rbtree_delete(&r, (rc_rbtree*)c.p, &c.own[at].k->k);
        }
        CHECK(s == STATUS_SUCCESS && r == c.own[at].r, "removing gives %08x and the wrong element", s);
        El e = c.own[at]; c.own.erase(c.own.begin() + at);
        OK(rc_resource_release(r)); std::vector<El> v{e}; dropped(v);
        break;
    }
    case 2: {
        std::vector<size_t> o; for (size_t j = 0; j < W->cs.size(); j++) if (j != ci && W->cs[j].kind == c.kind && c.kind != QUEUE) o.push_back(j);
        if (o.empty()) break;
        C& d = W->cs[o[g.below(o.size())]]; g.log("swap %s%zu (allocator %d) with one of allocator %d", nm.c_str(), ci, c.a->id, d.a->id);
        if (c.kind == LIST) rc_list_swap((rc_list*)c.p, (rc_list*)d.p); else if (c.kind == SLIST) rc_slist_swap((rc_slist*)c.p, (rc_slist*)d.p); else rc_rbtree_swap((rc_rbtree*)c.p, (rc_rbtree*)d.p);
        std::swap(c.own, d.own);
        std::set<OA*> m = c.mates; m.insert(d.mates.begin(), d.mates.end()); m.insert(c.a); m.insert(d.a); c.mates = d.mates = m;
        if (c.a != d.a) { W->swaps++; W->mixed++; g.label("swap across allocators"); }
        break;
    }
    case 3: {
        if (c.kind == QUEUE) break;
        g.log("%s%zu clear (%zu)", nm.c_str(), ci, c.own.size());
        OK(c.kind == LIST ? rc_list_clear((rc_list*)c.p) : c.kind == SLIST ? rc_slist_clear((rc_slist*)c.p) : rc_rbtree_clear((rc_rbtree*)c.p)); dropped(c.own);
        break;
    }
    default: {
        // released, or put into another container and released with it
        std::vector<size_t> o; for (size_t j = 0; j < W->cs.size(); j++) if (j != ci && W->cs[j].kind != TREE) o.push_back(j);
        void* p = c.p;
        if (o.size() && g.coin()) {
            C& d = W->cs[o[g.below(o.size())]]; g.log("%s%zu goes with another container", nm.c_str(), ci); g.label("nested");
            status s; { Give u({d.a}); for (OA* m : d.mates) if (u.n < 8 && m != d.a) u.add(m);
                s = d.kind == LIST ? rc_list_append_tail((rc_list*)d.p, handle(c)) : d.kind == SLIST ? rc_slist_append_tail((rc_slist*)d.p, handle(c)) : rc_queue_append((rc_queue*)d.p, handle(c)); }
            OK(s); void* q = d.p; OK(rc_resource_release(handle(d)));
            CHECK(!ledger->count(p) && !ledger->count(q), "a released container's memory was not returned");
            dropped(d.own); dropped(c.own); size_t di = &d - W->cs.data(); if (c.a != d.a) W->mixed++;
            W->cs.erase(W->cs.begin() + std::max(ci, di)); W->cs.erase(W->cs.begin() + std::min(ci, di));
            return;
        }
        g.log("release %s%zu (%zu)", nm.c_str(), ci, c.own.size());
        OK(rc_resource_release(handle(c))); CHECK(!ledger->count(p), "a released container's memory was not returned"); dropped(c.own); W->cs.erase(W->cs.begin() + ci);
        return;
    }
    }
}
static void op_string() {
    if (W->outs.size() > 3 || (W->outs.size() && g.coin())) {
        size_t i = g.below(W->outs.size()); Out o = W->outs[i]; W->outs.erase(W->outs.begin() + i);
        CHECK(o.want == o.s, "a string changed"); OK(rc_allocator_reclaim(ra(o.a), o.s)); return;
    }
    std::string s[3]; for (auto& x : s) x = std::string(g.size(300), (char)('a' + g.below(26)));
    Out o; o.a = any(); o.s = nullptr; rc_rcpr_uuid id; memset(&id, 0x11, 16); int n = (int)g.below(3); size_t live = o.a->live;
    if (!create("a string", o.a, [&]() -> status {
        switch (n) {
        case 0: o.want = s[0]; return rc_strdup(&o.s, ra(o.a), s[0].c_str());
        case 1: o.want = s[0] + s[1] + s[2]; return rc_strcatv(&o.s, ra(o.a), s[0].c_str(), s[1].c_str(), s[2].c_str(), (const char*)nullptr);
        default: o.want = "11111111-1111-1111-1111-111111111111"; return rc_rcpr_uuid_to_string(&o.s, ra(o.a), &id);
        } })) return;
    CHECK(o.s && ledger->count(o.s) && o.a->live == live + 1, "a string is not one block of the given allocator"); CHECK(o.want == o.s, "a string operation gives \"%s\"", o.s);
    W->outs.push_back(o);
}
static status on_thread(void* c) { ++*(int*)c; return STATUS_SUCCESS; }
static void fire(void* c) { ++*(int*)c; }
static std::set<void*> blocks() { std::set<void*> s; for (auto& x : *ledger) s.insert(x.first); return s; }
// the longest run of zero bytes in blocks that are not in had
static std::pair<uint8_t*, size_t> zeros(const std::set<void*>& had) {
    std::pair<uint8_t*, size_t> best{nullptr, 0};
    for (auto& x : *ledger) if (!had.count(x.first)) { uint8_t* p = (uint8_t*)x.first; size_t n = x.second.second; for (size_t i = 0; i < n;) { size_t j = i; while (j < n && !p[j]) j++; if (j - i > best.second) best = {p + i, j - i}; i = j + 1; } }
    return best;
}
static void op_resource() {
    if (W->rs.size() > 4 || (W->rs.size() && g.coin())) {
        size_t i = g.below(W->rs.size()); Res r = W->rs[i];
        if (g.coin() && r.use) { Give u({r.a}); r.use(); nothing_else(r.what); return; }
        W->rs.erase(W->rs.begin() + i); g.log("release a %s", r.what); size_t live = r.a->live; void* p = (void*)r.h;
        OK(rc_resource_release(r.h)); CHECK(!ledger->count(p) && r.a->live < live, "a released %s did not return its memory", r.what); return;
    }
    Res r; r.a = any(); r.h = nullptr;
    switch (g.below(6)) {
    case 0: { rc_bigint* b = nullptr; r.what = "number"; size_t n = g.chance(1, 50) ? 1 + g.below(1100000) : 1 + g.size(3000); std::set<void*> had = blocks(); if (!create("a number", r.a, [&] { return rc_bigint_create_zero(&b, ra(r.a), n); })) return; r.h = rc_bigint_resource_handle(b);
        // somewhere in its memory are at least n zero bits
        size_t bytes = (n + 7) / 8; std::pair<uint8_t*, size_t> z = zeros(had); CHECK(z.second >= bytes, "a number of %zu bits has at most %zu zero bytes in its memory", n, z.second);
        auto zb = ledger->find(z.first); bool all = zb != ledger->end() && zb->second.second == z.second; // a block of digits only
        if (all || bytes >= 64) { // other digits, to see them in a clone
            std::vector<uint8_t> pat(all ? z.second : bytes - 40); if (!all) z.first += 20; for (size_t i = 0; i < pat.size(); i++) pat[i] = (uint8_t)(i * 7 + 1 + n); memcpy(z.first, pat.data(), pat.size());
            rc_bigint* c = nullptr; OA* o = any(); had = blocks();
            if (create("a clone", o, [&] { return rc_bigint_clone(&c, ra(o), b); })) { bool found = false; for (auto& x : *ledger) if (!had.count(x.first) && memmem(x.first, x.second.second, pat.data(), pat.size())) found = true; CHECK(found, "a clone of a number of %zu bits has other digits", n); CHECK(!memcmp(z.first, pat.data(), pat.size()), "cloning changed the original"); OK(rc_resource_release(rc_bigint_resource_handle(c))); g.label("digits cloned"); }
        }
        if (g.coin()) { rc_bigint* c = nullptr; Res q; q.a = any(); q.what = "clone"; size_t live = q.a->live; uint64_t src = r.a->calls; if (create("a clone", q.a, [&] { return rc_bigint_clone(&c, ra(q.a), b); })) { CHECK(q.a->live > live, "a clone has no memory of the given allocator"); if (q.a != r.a) { CHECK(src == r.a->calls, "cloning took memory from the original's allocator"); W->mixed++; } q.h = rc_bigint_resource_handle(c); W->rs.push_back(q); } }
        break; }
    case 1: { rc_auto_reset_trigger* t = nullptr; r.what = "trigger"; if (!create("a trigger", r.a, [&] { return rc_auto_reset_trigger_create(&t, ra(r.a)); })) return; r.h = rc_auto_reset_trigger_resource_handle(t);
        r.use = [t] { int n = 0; OK(rc_auto_reset_trigger_register(t, &fire, &n)); rc_auto_reset_trigger_signal(t); rc_auto_reset_trigger_step(t); CHECK(n == 1, "a trigger fired %d times", n); }; break; }
    case 2: { rc_thread_mutex* m = nullptr; r.what = "mutex"; if (!create("a mutex", r.a, [&] { return rc_thread_mutex_create(&m, ra(r.a)); })) return; r.h = rc_thread_mutex_resource_handle(m);
        r.use = [m] { rc_thread_mutex_lock* l = nullptr; OK(rc_thread_mutex_lock_acquire(&l, m)); OK(rc_resource_release(rc_thread_mutex_lock_resource_handle(l))); }; break; }
    case 3: { rc_thread_cond* v = nullptr; r.what = "condition variable"; if (!create("a condition variable", r.a, [&] { return rc_thread_cond_create(&v, ra(r.a)); })) return; r.h = rc_thread_cond_resource_handle(v); break; }
    case 4: { rc_thread* t = nullptr; int ran = 0; if (!g.chance(1, 4)) return; if (!create("a thread", r.a, [&] { return rc_thread_create(&t, ra(r.a), 65536, &ran, &on_thread); })) return;
        size_t live = r.a->live; OK(rc_resource_release(rc_thread_resource_handle(t))); CHECK(ran == 1 && r.a->live < live, "a released thread did not return its memory"); return; }
    default: { ::stack* st = nullptr; r.what = "stack"; size_t maps = heap.live_maps(); if (!create("a stack", r.a, [&] { return rc_stack_create(&st, ra(r.a), 16384); })) { CHECK(heap.live_maps() == maps, "a stack that could not be made left a mapping"); return; } r.h = rc_stack_resource_handle(st); }
    }
    CHECK(r.h && ledger->count((void*)r.h), "a %s is not in the memory of its allocator", r.what);
    W->rs.push_back(r);
}
static void read_back(rc_psock* s, OA* a, const Val& v, std::initializer_list<OA*> more) {
    size_t live = a->live; OA* keep[4]; uint64_t at[4]; int n = 0; for (OA* o : more) if (o && o != a) { keep[n] = o; at[n++] = o->calls; }
    Give u(more); u.add(a);
    bool data = v.kind == DATA || v.kind == BSTRING; uint64_t calls = a->calls;
    Val o; status r = read_val(s, ra(a), v, o);
    g.log("read %s with allocator %d: %08x", describe(v).c_str(), a->id, (unsigned)r);
    CHECK(r == STATUS_SUCCESS, "reading %s fails with %08x", describe(v).c_str(), (unsigned)r); check_equal(v, o);
    if (data) { CHECK(a->calls > calls, "%s was not read into the given allocator's memory", describe(v).c_str()); for (int i = 0; i < n; i++) CHECK(keep[i]->calls == at[i], "reading took memory from the stream's allocator"); if (n) W->mixed++; }
    CHECK(a->live == live, "reading %s left %ld block(s)", describe(v).c_str(), (long)a->live - (long)live);
}
static void end_stream(size_t i) {
    Str s = W->ss[i]; W->ss.erase(W->ss.begin() + i); g.log("release a stream");
    if (s.br) { void* p = (void*)s.br; OK(rc_resource_release(rc_psock_br_resource_handle(s.br))); CHECK(!ledger->count(p), "a released buffered reader's memory was not returned"); }
    size_t live = s.a->live; void* p = (void*)s.s; OK(rc_resource_release(rc_psock_resource_handle(s.s)));
    CHECK(!ledger->count(p) && s.a->live < live, "a released stream's memory was not returned");
    if (s.peer >= 0) close(s.peer);
}
static void op_stream() {
    if (W->ss.empty() || (W->ss.size() < 4 && g.chance(1, 3))) {
        Str s; s.a = any(); s.s = nullptr;
        int kind = (int)g.below(5);
        if (kind == 0) { if (!create("an output stream", s.a, [&] { return rc_psock_create_from_buffer(&s.s, ra(s.a), nullptr, 0); })) return; }
        else if (kind == 1) { // a stream over given bytes, read at once
            Val v = gen_val(3000); std::vector<uint8_t> b; encode(b, v); if (b.empty()) return;
            if (!create("an input stream", s.a, [&] { return rc_psock_create_from_buffer(&s.s, ra(s.a), (const char*)b.data(), b.size()); })) return;
            memset(b.data(), 0x5a, b.size());
            read_back(s.s, any(), v, {s.a}); nothing_else("reading"); W->ss.push_back(s); end_stream(W->ss.size() - 1); return; }
        else if (kind == 2) { s.m.reset(new Mem); s.m->piece = 1 + g.size(3000); if (!create("a stream over methods", s.a, [&] { return rc_psock_create_from_user_methods(&s.s, ra(s.a), s.m.get(), &mem_vtable); })) return; }
        else if (kind == 3) { make_pair(&s.fd, &s.peer, false); if (!create("a stream over a descriptor", s.a, [&] { return rc_psock_create_from_descriptor(&s.s, ra(s.a), s.fd); })) { close(s.fd); close(s.peer); return; } }
        else { // a listener and a stream connected to it
            struct sockaddr_in at; memset(&at, 0, sizeof at); at.sin_family = AF_INET; at.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            OA* la = any(); rc_psock* l = nullptr; if (!create("a listener", la, [&] { return rc_psock_create_from_listen_address(&l, ra(la), (struct sockaddr*)&at, sizeof at); })) return;
            int port = 0; for (int fd = 0; fd < 400 && !port; fd++) { int v = 0; socklen_t n = sizeof v; struct sockaddr_in x; if (getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &v, &n) || !v) continue; n = sizeof x; if (!getsockname(fd, (struct sockaddr*)&x, &n) && x.sin_family == AF_INET) port = ntohs(x.sin_port); }
            if (!port) fail("harness: no listener");
            bool ok = create("a connection", s.a, [&] { return rc_psock_create_from_hostname_and_port(&s.s, ra(s.a), "127.0.0.1", (unsigned)port); });
            if (ok) { struct sockaddr_storage from; socklen_t n = sizeof from; Give u({}); OK(rc_psock_accept(l, &s.peer, (struct sockaddr*)&from, &n)); nothing_else("accepting"); struct linger lg = {1, 0}; setsockopt(s.peer, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); }
            OK(rc_resource_release(rc_psock_resource_handle(l))); if (!ok) return;
            g.label("network");
        }
        CHECK(s.s && ledger->count((void*)s.s), "a stream is not in the memory of its allocator");
        W->ss.push_back(s); return;
    }
    size_t i = g.below(W->ss.size()); Str& s = W->ss[i];
    switch (g.pick({8, 3, 2})) {
    case 0: {
        Val v = gen_val(s.m || s.peer < 0 ? 9000 : 3000); std::vector<uint8_t> b; encode(b, v);
        if (s.m || s.peer >= 0) {
            if (s.m) s.m->q.insert(s.m->q.end(), b.begin(), b.end()); else if (b.size() && send(s.peer, b.data(), b.size(), 0) != (ssize_t)b.size()) fail("harness: send");
            read_back(s.br ? rc_psock_br_psock_adapter(s.br) : s.s, any(), v, {s.a, s.bra}); nothing_else("reading");
            if (g.coin() && s.peer >= 0) { Give u({s.a}); OK(write_val(s.s, v)); nothing_else("writing"); std::vector<uint8_t> r(b.size() + 1); size_t n = 0; while (n < b.size()) { ssize_t k = recv(s.peer, r.data() + n, b.size() - n, 0); if (k <= 0) fail("bytes written to a stream did not arrive"); n += (size_t)k; } }
            break;
        }
        if (!s.m && g.coin()) { v.boxed = false; v.kind = DATA; v.d = g.bulk(g.coin() ? 4096 - s.b.size() % 4096 + g.below(3) : g.size(9000)); b = v.d; }
        { Give u({s.a}); status r = write_val(s.s, v); g.log("write %s: %08x", describe(v).c_str(), (unsigned)r); CHECK(r == STATUS_SUCCESS, "writing fails with %08x", (unsigned)r); nothing_else("writing"); }
        s.b.insert(s.b.end(), b.begin(), b.end());
        break;
    }
    case 1: {
        if (s.m || s.peer >= 0) {
            if (s.br) { void* p = (void*)s.br; g.log("release a buffered reader"); OK(rc_resource_release(rc_psock_br_resource_handle(s.br))); CHECK(!ledger->count(p), "a released buffered reader's memory was not returned"); s.br = nullptr; s.bra = nullptr; break; }
            OA* a = any(); if (create("a buffered reader", a, [&] { return rc_psock_br_create_from_psock(&s.br, ra(a), s.s); })) { s.bra = a; CHECK(ledger->count((void*)s.br), "a buffered reader is not in the memory of its allocator"); if (a != s.a) W->mixed++; }
            break;
        }
        OA* a = any(); void* p = nullptr; size_t n = 0; uint64_t c = s.a->calls;
        if (!create("a copy of the output", a, [&] { return rc_psock_from_buffer_get_output_buffer(s.s, ra(a), &p, &n); })) break;
        CHECK(ledger->count(p) && n == s.b.size() && (!n || !memcmp(p, s.b.data(), n)), "a copy of the output has other bytes"); if (a != s.a) { CHECK(c == s.a->calls, "copying the output took memory from the stream's allocator"); W->mixed++; }
        OK(rc_allocator_reclaim(ra(a), p));
        break;
    }
    default: end_stream(i);
    }
}
static void structures() {
    World world; W = &world; ctx = KeyCtx{0x5eed, 0, false};
    int n = 5 + (int)g.size(55);
    while (n--) {
        switch (g.pick({8, 2, 3, 4, 2, 1})) {
        case 0: op_container(); break;
        case 5: op_direct((*cur)[g.below(cur->size())]); break;
        case 1: op_string(); break;
        case 2: op_resource(); break;
        case 3: op_stream(); break;
        default: { // allocators come and go
            size_t i = g.below(cur->size()); OA* o = (*cur)[i];
            if (used(o)) break;
            retire(o); (*cur)[i] = fresh_oa();
        }
        }
    }
    while (W->ss.size()) end_stream(W->ss.size() - 1);
    for (auto& o : W->outs) OK(rc_allocator_reclaim(ra(o.a), o.s)); W->outs.clear();
    for (auto& r : W->rs) OK(rc_resource_release(r.h)); W->rs.clear();
    while (W->cs.size()) { C c = W->cs.back(); W->cs.pop_back(); OK(rc_resource_release(handle(c))); dropped(c.own); for (OA* o : *cur) if (!o->dead && !used(o) && g.chance(1, 4)) retire(o); }
    for (auto& e : kitems()) CHECK(e.it.released == 1, "resource #%d was released %d times", e.it.id, e.it.released);
    if (world.mixed) g.nontrivial();
}

// ------------------------------------------------------------------ fibers
enum { W2M, M2W, TELL, ANSWER, COND, YIELD };
struct Step { int kind; Val v; };
struct Link { int no; rc_fiber* f; OA *fa, *pa, *qa; rc_psock *mine, *theirs; uint64_t box, up; std::vector<Step> plan; bool done; int woken, told; };
struct Runtime { rc_fiber_scheduler* s; rc_fiber_scheduler_discipline *md, *cd, *own; uint64_t box, cond; std::deque<Link> links; std::vector<OA*> base; };
static Runtime* R;
static rc_message* make_message(OA* a, OA* pa, uint64_t ret) {
    rc_message* m = nullptr; rc_bigint* b = number(pa);
    { Give u({a}); uint64_t c = a->calls; OK(rc_message_create(&m, ra(a), ret, rc_bigint_resource_handle(b))); CHECK(a->calls > c && ledger->count((void*)m), "a message is not in the memory of its allocator"); }
    return m;
}
static void consume(rc_message* m) {
    bool x = g.coin(); rc_resource* p = rc_message_payload(m, x); CHECK(p && ledger->count((void*)p), "a received message has no payload");
    OK(rc_resource_release(rc_message_resource_handle(m))); CHECK(!ledger->count((void*)m), "a released message's memory was not returned");
    if (x) { CHECK(ledger->count((void*)p), "a payload taken out of its message went with it"); OK(rc_resource_release(p)); }
    CHECK(!ledger->count((void*)p), "a message's payload was not returned");
}
static void give_base() { for (OA* o : R->base) o->given++; }
static void take_base() { for (OA* o : R->base) o->given--; }
static OA* temp() { OA* o = any(); return o; }
static const rc_rcpr_uuid OWN33 = {{0x33, 1, 2, 3}};
static status own_handler(void*, rc_fiber* y, int, void*) { return rc_disciplined_fiber_scheduler_set_next_fiber_to_run(R->s, y, &OWN33, 1, nullptr); }
static void send(uint64_t to, uint64_t ret) { OA *a = temp(), *b = temp(); rc_message* m = make_message(a, b, ret); g.log("message from allocator %d with a payload of %d", a->id, b->id); OK(rc_message_send(to, m, R->md)); }
static void do_read(rc_psock* s, const Val& v) { OA* a = temp(); Give u({a}); size_t live = a->live; Val o; status r = read_val(s, ra(a), v, o); g.log("read %s with allocator %d: %08x", describe(v).c_str(), a->id, (unsigned)r); OK(r); check_equal(v, o); (void)live; }
static void receive(uint64_t box) { rc_message* m = nullptr; OK(rc_message_receive(box, &m, R->md)); CHECK(m, "no message"); consume(m); }
static void do_step(Link& l, const Step& t, bool worker) {
    switch (t.kind) {
    case W2M: case M2W: if ((t.kind == W2M) == worker) { OK(write_val(worker ? l.theirs : l.mine, t.v)); } else do_read(worker ? l.theirs : l.mine, t.v); break;
    case TELL: case ANSWER: if ((t.kind == ANSWER) == worker) send(worker ? l.up : l.box, worker ? l.box : l.up); else { receive(worker ? l.box : l.up); } break;
    case COND: if (worker) { send(l.up, 0); OK(rc_conditional_wait(R->cond, R->cd)); l.woken++; } else { receive(l.up); int i = 0; l.told++; while (l.woken < l.told) { CHECK(++i < 100, "a notified fiber never woke"); OK(rc_conditional_notify_all(R->cond, R->cd)); OK(rc_fiber_scheduler_run(R->s)); } } break;
    default: if (R->own && g.coin()) { const rc_rcpr_uuid* id; int e; void* p; OK(rc_fiber_discipline_yield(R->own, 0, nullptr, &id, &e, &p)); } else OK(rc_fiber_scheduler_run(R->s));
    }
}
static status worker_entry(void* p) { Link& l = *(Link*)p; for (size_t i = 0; i < l.plan.size(); i++) do_step(l, l.plan[i], true); send(l.up, 0); l.done = true; return STATUS_SUCCESS; }
static void runtime() {
    static Runtime rt; rt = Runtime{}; R = &rt; bool poller = false; (void)poller;
    shared_heap = true;
    OA* sa = any(); R->base.push_back(sa); bool net = g.chance(2, 3);
    while (!create("a scheduler", sa, [&] { return rc_fiber_scheduler_create_with_disciplines(&R->s, ra(sa)); })) {}
    OA *ma = any(), *ca = any(), *oa = any(); R->base.push_back(ma); R->base.push_back(ca); R->base.push_back(oa);
    give_base();
    auto messages = [&](OA* a) { rc_fiber_scheduler_discipline* d = nullptr; uint64_t c = a->calls; OK(rc_message_discipline_get_or_create(&d, ra(a), R->s)); if (R->md) CHECK(d == R->md, "the scheduler has two message disciplines"); else CHECK(a->calls > c, "the message discipline took nothing from the allocator it was given"); R->md = d; };
    auto conditions = [&](OA* a) { rc_fiber_scheduler_discipline* d = nullptr; uint64_t c = a->calls; OK(rc_condition_discipline_get_or_create(&d, ra(a), R->s)); if (R->cd) CHECK(d == R->cd, "the scheduler has two condition disciplines"); else CHECK(a->calls > c, "the condition discipline took nothing from the allocator it was given"); R->cd = d; };
    if (g.coin()) { messages(ma); conditions(ca); } else { conditions(ca); messages(ma); }
    OA* late = nullptr;
    if (g.coin()) { late = fresh_oa(); Give u({late}); messages(late); conditions(late); } // they exist already
    if (g.coin()) { rc_fiber_scheduler_discipline_callback_fn v[1] = {&own_handler}; OK(rc_fiber_scheduler_discipline_create(&R->own, &OWN33, ra(oa), nullptr, 1, v)); OK(rc_fiber_scheduler_discipline_add(R->s, R->own)); }
    OK(rc_mailbox_create(&R->box, R->md)); OK(rc_conditional_create(&R->cond, R->cd));
    if (late) retire(late);
    rc_fiber* main = nullptr; OK(rc_disciplined_fiber_scheduler_main_fiber_get(&main, R->s));
    int n = 1 + (int)g.below(4); unsigned steps = 0;
    for (int i = 0; i < n; i++) {
        R->links.push_back(Link{}); Link& l = R->links.back(); l.no = i;
        l.fa = g.coin() ? fresh_oa() : any(); l.pa = any(); l.qa = any();
        while (!create("a fiber", l.fa, [&] { return rc_fiber_create(&l.f, ra(l.fa), R->s, 65536, &l, &worker_entry); })) {}
        if (net) {
            int p[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) fail("harness: no sockets");
            auto wrap = [&](rc_psock** s, OA* o, int fd, rc_fiber* f) {
                OA* in = any(); rc_psock* c = nullptr; { Give u({in}); OK(rc_psock_create_from_descriptor(&c, ra(in), fd)); }
                o->given++; R->base.push_back(o); uint64_t calls = o->calls; OK(rc_psock_create_wrap_async(s, ra(o), f, c)); CHECK(o->calls > calls && ledger->count((void*)*s), "an asynchronous stream is not in the memory of its allocator");
            };
            wrap(&l.mine, l.pa, p[0], main); wrap(&l.theirs, l.qa, p[1], l.f);
        }
        OK(rc_mailbox_create(&l.box, R->md)); OK(rc_mailbox_create(&l.up, R->md));
        for (unsigned k = 0; k < 8 && (k < 1 || g.more(4)); k++) { Step t; t.kind = (int)g.pick({3, 3, 3, 3, 2, 2}); if (!net && t.kind <= M2W) t.kind = TELL; if (t.kind <= M2W) t.v = gen_val(2000); l.plan.push_back(t); steps++; }
    }
    for (auto& l : R->links) { OK(rc_fiber_scheduler_add(R->s, l.f)); }
    for (auto& l : R->links) for (auto& t : l.plan) do_step(l, t, false);
    for (auto& l : R->links) receive(l.up);
    for (int i = 0; i < 8; i++) OK(rc_fiber_scheduler_run(R->s));
    for (auto& l : R->links) CHECK(l.done, "fiber %d did not finish", l.no);
    nothing_else("the fibers");
    // a message nobody takes, a mailbox closed with messages in it
    if (g.coin()) { send(R->box, 0); if (g.coin()) send(R->links[0].box, 0); if (g.coin()) OK(rc_mailbox_close(R->box, R->md)); g.label("undelivered messages"); }
    if (g.coin()) OK(rc_conditional_close(R->cond, R->cd));
    std::vector<OA*> own;
    for (auto& l : R->links) {
        if (l.mine && g.coin()) { release_psock(l.mine); CHECK(!ledger->count((void*)l.mine), "a released stream's memory was not returned"); release_psock(l.theirs); l.mine = l.theirs = nullptr; }
        if (g.coin()) { // a finished fiber may be taken back
            OK(rc_disciplined_fiber_scheduler_remove_fiber(R->s, l.f)); OK(rc_resource_release(rc_fiber_resource_handle(l.f))); CHECK(!ledger->count((void*)l.f), "a released fiber's memory was not returned");
            if (l.fa->id >= (int)cur->size() && !l.fa->given) { retire(l.fa); }
            l.fa = nullptr; g.label("fiber taken back");
        }
    }
    bool first = g.coin();
    auto streams = [&] { for (auto& l : R->links) if (l.mine) { release_psock(l.mine); release_psock(l.theirs); } };
    if (first) streams();
    take_base();
    g.log("the scheduler ends"); OK(rc_resource_release(rc_fiber_scheduler_resource_handle(R->s)));
    if (!first) streams();
    nothing_else("the scheduler");
    std::set<OA*> gave; for (OA* o : R->base) gave.insert(o);
    if (steps >= 3 && gave.size() >= 2) g.nontrivial();
    g.label(net ? "asynchronous streams" : "fibers");
}
static bool idle(int) { return false; }
void setup() { sys.idle = idle; region_heap = true; }
void run_case() {
    kitems().clear(); items().clear();
    std::map<void*, std::pair<OA*, size_t>> led; std::deque<OA> list; std::vector<OA*> use;
    ledger = &led; oas = &list; cur = &use; junk = (uint8_t)g.below(256);
    heap.begin(); shared_heap = false;
    int n = 2 + (int)g.below(4); for (int i = 0; i < n; i++) use.push_back(fresh_oa());
    if (g.chance(1, 3)) runtime(); else structures();
    int gave = 0; for (auto& o : list) { gave += o.calls > 0; if (!o.dead) { CHECK(!o.live, "allocator %d has %zu block(s) out at the end", o.id, o.live); OK(rc_resource_release(rc_allocator_resource_handle(ra(&o)))); CHECK(o.dead, "an allocator's release method was not called"); } }
    if (gave < 2) g.nt = false;
    heap.expect_clean("after the case");
    heap.end();
}
} // namespace vp
