// C02: containers release each owned resource exactly once, and only when told to.
#include "tree.hpp"
#include <algorithm>
namespace vp {
const char* const PROPERTY = "C02";
const char* const RULE = "a case is a history over 1-4 containers (lists, singly linked lists, queues, trees, some nested in others) with a random subset of child releases failing; the model tracks who owns each resource and compares release counts after every call; non-trivial = at least 3 resources added and a removal, clear or release while owning at least 2";
const std::vector<Probe> PROBES;
void setup() {}

enum Kind { LIST, SLIST, QUEUE, TREE };
struct C { Kind kind; void* p; std::vector<KItem*> own; rc_resource* handle; };
static KeyCtx ctx;
static rc_allocator* al;
static std::set<KItem*>* unused;

static void create(C& c) {
    c.p = nullptr;
    switch (c.kind) {
    case LIST: { rc_list* l = nullptr; OK(rc_list_create(&l, al)); c.p = l; c.handle = rc_list_resource_handle(l); break; }
    case SLIST: { rc_slist* l = nullptr; OK(rc_slist_create(&l, al)); c.p = l; c.handle = rc_slist_resource_handle(l); break; }
    case QUEUE: { rc_queue* l = nullptr; OK(rc_queue_create(&l, al)); c.p = l; c.handle = rc_queue_resource_handle(l); break; }
    case TREE: { rc_rbtree* l = nullptr; OK(rc_rbtree_create(&l, al, &key_cmp, &key_of, &ctx)); c.p = l; c.handle = rc_rbtree_resource_handle(l); break; }
    }
}
static size_t count(C& c) {
    switch (c.kind) {
    case LIST: return rc_list_count((rc_list*)c.p);
    case SLIST: return rc_slist_count((rc_slist*)c.p);
    case QUEUE: return rc_queue_count((rc_queue*)c.p);
    default: return rc_rbtree_count((rc_rbtree*)c.p);
    }
}
static void add(C& c, KItem* e) {
    bool front = g.coin();
    switch (c.kind) {
    case LIST: OK(front ? rc_list_insert_head((rc_list*)c.p, res(e)) : rc_list_append_tail((rc_list*)c.p, res(e))); break;
    case SLIST: OK(front ? rc_slist_insert_head((rc_slist*)c.p, res(e)) : rc_slist_append_tail((rc_slist*)c.p, res(e))); break;
    case QUEUE: OK(front ? rc_queue_insert((rc_queue*)c.p, res(e)) : rc_queue_append((rc_queue*)c.p, res(e))); break;
    case TREE: OK(rc_rbtree_insert((rc_rbtree*)c.p, res(e))); break;
    }
    if (front && c.kind != TREE) c.own.insert(c.own.begin(), e); else c.own.push_back(e);
}
static rc_list_node* lnode(rc_list* l, size_t i) { rc_list_node* n = nullptr; OK(rc_list_head(&n, l)); while (i--) { rc_list_node* x = nullptr; OK(rc_list_node_next(&x, n)); n = x; } return n; }
static rc_slist_node* snode(rc_slist* l, size_t i) { rc_slist_node* n = nullptr; OK(rc_slist_head(&n, l)); while (i--) { rc_slist_node* x = nullptr; OK(rc_slist_node_next(&x, n)); n = x; } return n; }
// removes what has been released from the owner's model; reports how many failed.
static size_t sweep(C& c) {
    size_t failed = 0; std::vector<KItem*> keep;
    for (auto* e : c.own) { if (e->it.released) { if (e->it.on_release != STATUS_SUCCESS) failed++; } else keep.push_back(e); }
    c.own = keep;
    return failed;
}
// one release or clear that may fail: repeats until it says it is done.
static void finish(C& c, bool release, const char* what) {
    for (size_t tries = 0;; tries++) {
        size_t before = c.own.size();
        status s;
        if (release) s = rc_resource_release(c.handle);
        else switch (c.kind) {
            case LIST: s = rc_list_clear((rc_list*)c.p); break;
            case SLIST: s = rc_slist_clear((rc_slist*)c.p); break;
            case TREE: s = rc_rbtree_clear((rc_rbtree*)c.p); break;
            default: return;
        }
        size_t failed = sweep(c);
        bool gone = release && !heap.owns(c.p);
        if (failed) CHECK(s != STATUS_SUCCESS, "%s hid the failing release of a child", what);
        else CHECK(s == STATUS_SUCCESS, "%s failed with %08x although every child's release succeeded", what, s);
        if (release && s == STATUS_SUCCESS) CHECK(gone, "%s succeeded but the container's memory remains", what);
        if (s == STATUS_SUCCESS || gone) { CHECK(c.own.empty(), "%s finished with %zu of %zu children not released", what, c.own.size(), before); return; }
        CHECK(count(c) == c.own.size(), "after a failing %s the container counts %zu, %zu are not released", what, count(c), c.own.size());
        if (!release && c.own.empty()) return;
        if (g.chance(1, 4) && !release) { KItem* e = new_kitem(kitems().size() * 7 % 101 * 1000 + kitems().size()); add(c, e); }
        CHECK(tries < 2000, "%s makes no progress", what);
    }
}

void run_case() {
    kitems().clear();
    heap.begin();
    ctx = KeyCtx{0x5eed, 0, false};
    al = make_alloc();
    size_t nc = 1 + g.below(4);
    std::vector<C> cs(nc);
    for (auto& c : cs) { c.kind = (Kind)g.below(4); create(c); }
    std::vector<KItem*> mine;          // handed back: ours to release
    unsigned failing = (unsigned[]){0, 10, 40}[g.below(3)];
    int adds = 0, step = 0; bool interesting = false;
    auto fresh = [&]() {
        if (!mine.empty() && g.chance(1, 5)) { KItem* e = mine.back(); mine.pop_back(); return e; }
        size_t n = kitems().size();
        KItem* e = new_kitem(g.below(64) * 10000 + n, failing && g.below(100) >= 100 - failing ? (status)ITEM_RELEASE_FAILED : STATUS_SUCCESS);
        adds++; return e;
    };
    auto handed = [&](C& c, rc_resource* r, size_t at, const char* what) {
        KItem* e = c.own[at];
        CHECK(r == res(e), "%s handed back the wrong resource", what);
        CHECK(e->it.released == 0, "%s released what it handed back", what);
        if (c.own.size() >= 2) interesting = true;
        c.own.erase(c.own.begin() + at); mine.push_back(e);
    };
    static const char* const KN[] = {"list", "slist", "queue", "tree"};
    unsigned avg = (unsigned[]){10, 25, 60}[g.pick({3, 3, 1})];
    while (g.more(avg) && step++ < 400) {
        size_t i = g.below(nc); C& c = cs[i];
        switch (g.pick({10, 5, 4, 3, 3, 3})) {
        case 0: { KItem* e = fresh(); g.log("%s%zu add #%d%s", KN[c.kind], i, e->it.id, e->it.on_release ? " (release fails)" : ""); add(c, e); break; }
        case 1: { rc_resource* r = nullptr; g.log("%s%zu remove", KN[c.kind], i);
            if (c.kind == TREE) {
                if (c.own.empty()) break;
                size_t at = g.below(c.own.size()); KItem* e = c.own[at]; bool hand = g.coin();
                status s;
                if (g.coin()) s = rc_rbtree_delete(hand ? &r : nullptr, (rc_rbtree*)c.p, &e->k);
                else { rc_rbtree* t = (rc_rbtree*)c.p; rc_rbtree_node* n = rc_rbtree_minimum_node(t, rc_rbtree_root_node(t)); while (rc_rbtree_node_value(t, n) != res(e)) { n = rc_rbtree_successor_node(t, n); CHECK(n != rc_rbtree_nil_node(t), "an owned element is not in the tree"); } s = rc_rbtree_delete_node(hand ? &r : nullptr, t, n); }
                if (hand) { CHECK(s == STATUS_SUCCESS, "handing back an element failed with %08x", s); handed(c, r, at, "delete"); }
                else { CHECK(e->it.released == 1, "delete did not release its element"); CHECK((s == STATUS_SUCCESS) == (e->it.on_release == STATUS_SUCCESS), "delete gave %08x", s); if (c.own.size() >= 2) interesting = true; c.own.erase(c.own.begin() + at); }
                break; }
            status s = c.kind == LIST ? rc_list_pop((rc_list*)c.p, &r) : c.kind == SLIST ? rc_slist_pop((rc_slist*)c.p, &r) : rc_queue_pop((rc_queue*)c.p, &r);
            CHECK(s == STATUS_SUCCESS, "pop failed with %08x", s);
            if (c.own.empty()) CHECK(!r, "an empty container handed something back"); else handed(c, r, 0, "pop");
            break; }
        case 2: { // swap with a container of the same kind
            std::vector<size_t> same; for (size_t j = 0; j < nc; j++) if (j != i && cs[j].kind == c.kind && c.kind != QUEUE) same.push_back(j);
            if (same.empty()) break; size_t j = same[g.below(same.size())];
            g.log("swap %s%zu %s%zu", KN[c.kind], i, KN[c.kind], j);
            if (c.kind == LIST) rc_list_swap((rc_list*)c.p, (rc_list*)cs[j].p); else if (c.kind == SLIST) rc_slist_swap((rc_slist*)c.p, (rc_slist*)cs[j].p); else rc_rbtree_swap((rc_rbtree*)c.p, (rc_rbtree*)cs[j].p);
            std::swap(c.own, cs[j].own); g.label("swap"); break; }
        case 3: { // child swap / pop after a position
            if (c.own.empty() || c.kind == TREE || c.kind == QUEUE) break;
            size_t at = g.below(c.own.size());
            if (c.kind == SLIST && g.coin()) {
                rc_resource* r = nullptr; g.log("slist%zu pop after %zu", i, at); OK(rc_slist_node_next_pop(snode((rc_slist*)c.p, at), &r));
                if (at + 1 < c.own.size()) handed(c, r, at + 1, "pop after a node"); else CHECK(!r, "pop after the last node produced something");
                break; }
            KItem* e = fresh(); rc_resource* r = res(e); g.log("%s%zu child swap at %zu", KN[c.kind], i, at);
            if (c.kind == LIST) OK(rc_list_node_child_swap(lnode((rc_list*)c.p, at), &r)); else OK(rc_slist_node_child_swap(snode((rc_slist*)c.p, at), &r));
            handed(c, r, at, "child swap"); c.own.insert(c.own.begin() + at, e);
            break; }
        case 4: { if (c.kind == QUEUE) break; g.log("%s%zu clear (%zu)", KN[c.kind], i, c.own.size()); if (c.own.size() >= 2) interesting = true; finish(c, false, "clear"); break; }
        case 5: { g.log("%s%zu release (%zu), create", KN[c.kind], i, c.own.size()); if (c.own.size() >= 2) interesting = true; finish(c, true, "release"); create(c); break; }
        }
        for (auto& x : cs) {
            CHECK(count(x) == x.own.size(), "a %s counts %zu, the model %zu", KN[x.kind], count(x), x.own.size());
            for (auto* e : x.own) CHECK(e->it.released == 0, "a resource still owned by a %s was released", KN[x.kind]);
        }
        for (auto* e : mine) CHECK(e->it.released == 0, "a resource that was handed back was released");
    }
    // nest: a container owned by another container goes with it.
    if (nc >= 2 && g.chance(1, 3) && cs[0].kind != TREE) {
        C& in = cs.back();
        bool bad = false; for (auto* e : in.own) if (e->it.on_release != STATUS_SUCCESS) bad = true;
        if (!bad) {
            g.label("nested"); g.log("nest the last container in the first");
            C& o = cs[0];
            OK(o.kind == LIST ? rc_list_append_tail((rc_list*)o.p, in.handle) : o.kind == SLIST ? rc_slist_append_tail((rc_slist*)o.p, in.handle) : rc_queue_append((rc_queue*)o.p, in.handle));
            std::vector<KItem*> inner = in.own;
            size_t tries = 0; status s;
            do { s = rc_resource_release(o.handle); CHECK(++tries < 2000, "no progress"); } while (s != STATUS_SUCCESS && heap.owns(o.p));
            for (auto* e : inner) CHECK(e->it.released == 1, "an element of a nested container was not released");
            for (auto* e : o.own) CHECK(e->it.released == 1, "an element of the outer container was not released");
            CHECK(!heap.owns(in.p), "a nested container was not released");
            cs.pop_back(); cs.erase(cs.begin());
        }
    }
    for (auto& c : cs) finish(c, true, "release");
    for (auto* e : mine) { CHECK(e->it.released == 0, "a resource that was handed back was released"); (void)rc_resource_release(res(e)); }
    for (auto& e : kitems()) CHECK(e.it.released == 1, "resource #%d was released %d times", e.it.id, e.it.released);
    free_alloc(al);
    heap.expect_clean("end of case");
    heap.end();
    if (adds >= 3 && interesting) g.nontrivial();
}
}
