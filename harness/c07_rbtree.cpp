// C07: the tree is an ordered map under any history.
#include "tree.hpp"
#include <algorithm>
namespace vp {
const char* const PROPERTY = "C07";
const char* const RULE = "a case is a history of insert / find / delete / delete-node / clear / swap / recreate calls over 1-3 trees with their own comparison contexts (ascending or descending), at times with crowds of 250-6000 (seldom more than 65536) elements, compared with a map model after each step (full forward and backward walks, count, lookups); non-trivial = at least 6 modifying calls including a deletion from a tree of 3 or more elements, or a swap";
const std::vector<Probe> PROBES;
void setup() {}

struct T { rc_rbtree* t; std::multimap<uint64_t, KItem*> m; KeyCtx* ctx; };
static uint64_t kof(rc_rbtree* t, rc_rbtree_node* n) { return ((KItem*)rc_rbtree_node_value(t, n))->k; }

static void check(T& x, const char* after) {
    rc_rbtree* t = x.t;
    CHECK(rc_rbtree_count(t) == x.m.size(), "after %s: count is %zu, model %zu", after, rc_rbtree_count(t), x.m.size());
    rc_rbtree_node* nil = rc_rbtree_nil_node(t); rc_rbtree_node* root = rc_rbtree_root_node(t);
    CHECK((root == nil) == x.m.empty(), "after %s: root of a tree of %zu", after, x.m.size());
    if (root == nil) return;
    std::vector<uint64_t> keys; std::vector<KItem*> els;
    for (auto& e : x.m) { keys.push_back(e.first); }
    if (x.ctx->reverse) std::reverse(keys.begin(), keys.end());
    size_t i = 0; uint64_t sum = 0, want = 0;
    for (auto& e : x.m) want += (uint64_t)(uintptr_t)e.second * 31;
    for (rc_rbtree_node* n = rc_rbtree_minimum_node(t, root); n != nil; n = rc_rbtree_successor_node(t, n), i++) {
        CHECK(i < keys.size(), "after %s: walking by successor visits more than %zu elements", after, keys.size());
        CHECK(kof(t, n) == keys[i], "after %s: walking by successor, element %zu is wrong", after, i);
        sum += (uint64_t)(uintptr_t)rc_rbtree_node_value(t, n) * 31;
    }
    CHECK(i == keys.size(), "after %s: walking by successor saw %zu of %zu", after, i, keys.size());
    CHECK(sum == want, "after %s: an element was visited twice or replaced", after);
    i = keys.size();
    for (rc_rbtree_node* n = rc_rbtree_maximum_node(t, root); n != nil; n = rc_rbtree_predecessor_node(t, n), i--) {
        CHECK(i > 0, "after %s: walking by predecessor visits too many elements", after);
        CHECK(kof(t, n) == keys[i - 1], "after %s: walking by predecessor, element %zu is wrong", after, i - 1);
    }
    CHECK(i == 0, "after %s: walking by predecessor stopped %zu early", after, i);
}
static void lookup(T& x, uint64_t k, const char* after) {
    rc_resource* r = (rc_resource*)1;
    status s = rc_rbtree_find(&r, x.t, &k);
    auto range = x.m.equal_range(k);
    if (range.first == range.second) { CHECK(s == ERROR_RBTREE_NOT_FOUND, "after %s: looking up an absent key gave %08x", after, s); CHECK(r == nullptr, "after %s: a failed lookup set its result", after); return; }
    CHECK(s == STATUS_SUCCESS, "after %s: looking up a present key gave %08x", after, s);
    bool ok = false; for (auto it = range.first; it != range.second; ++it) if (r == res(it->second)) ok = true;
    CHECK(ok, "after %s: a lookup gave another key's element", after);
}

// how many elements a crowd has: beyond what narrow counters hold
static size_t crowd_size() { return g.chance(1, 30) ? 65530 + g.below(200) : g.coin() ? 250 + g.below(20) : g.below(6000); }
void run_case() {
    kitems().clear();
    heap.begin();
    size_t nt = 1 + g.below(3);
    std::vector<rc_allocator*> as(nt);
    std::deque<KeyCtx> ctxs(nt);
    std::vector<T> ts(nt);
    for (size_t i = 0; i < nt; i++) {
        as[i] = make_alloc();
        ctxs[i] = KeyCtx{0x5eed, 0, g.chance(1, 3)};
        ts[i].t = nullptr; ts[i].ctx = &ctxs[i];
        OK(rc_rbtree_create(&ts[i].t, as[i], &key_cmp, &key_of, ts[i].ctx));
    }
    uint64_t span = (uint64_t[]){8, 24, 100, 1u << 20}[g.pick({3, 4, 3, 2})];
    std::vector<unsigned> w = {12, 5, 8, 4, 1, 2, 1, 2};
    if (g.chance(1, 2)) for (auto& x : w) if (g.chance(1, 4)) x *= 4;
    unsigned avg = (unsigned[]){10, 30, 120}[g.pick({3, 3, 1})];
    int mods = 0, step = 0; bool interesting = false;
    auto remove = [&](T& c, rc_resource* r, uint64_t k, bool handed) {
        auto range = c.m.equal_range(k); auto hit = c.m.end();
        for (auto it = range.first; it != range.second; ++it) if (handed ? r == res(it->second) : it->second->it.released == 1) hit = it;
        CHECK(hit != c.m.end(), handed ? "delete handed back another element" : "delete released another element or none");
        if (handed) { CHECK(hit->second->it.released == 0, "delete released the element it handed back"); OK(rc_resource_release(r)); }
        c.m.erase(hit);
        if (c.m.size() >= 2) interesting = true;
        mods++;
    };
    int most = 600;
    if (g.chance(1, 300)) {
        size_t n = crowd_size(), i = g.below(nt); uint64_t mul = g.coin() ? 1 : 2654435761u, base = g.coin() ? 0 : 1ull << 40; most = n > 10000 ? 3 : 20; g.label("crowd"); g.log("tree%zu: a crowd of %zu", i, n);
        for (size_t q = 0; q < n; q++) { uint64_t k = base + (q * mul & 0xffffffff); KItem* e = new_kitem(k); OK(rc_rbtree_insert(ts[i].t, res(e))); ts[i].m.insert({k, e}); }
        check(ts[i], "a crowd");
    }
    while (g.more(avg) && step++ < most) {
        size_t i = g.below(nt); T& c = ts[i];
        const char* name = "?";
        switch (g.pickv(w)) {
        case 0: { uint64_t k = g.below(span); name = "insert"; KItem* e = new_kitem(k);
            g.log("tree%zu insert %llu", i, (unsigned long long)k);
            status s = rc_rbtree_insert(c.t, res(e));
            bool dup = c.m.count(k);
            // the documentation refuses duplicates, the code keeps them: both are accepted.
            if (dup && s != STATUS_SUCCESS) { CHECK(e->it.released == 0, "a refused insertion released the element"); OK(rc_resource_release(res(e))); }
            else { CHECK(s == STATUS_SUCCESS, "insert failed with %08x", s); c.m.insert({k, e}); mods++; }
            if (dup) g.label("duplicate key");
            break; }
        case 1: { uint64_t k = g.below(span + 1); name = "find"; lookup(c, k, name); break; }
        case 2: { uint64_t k; if (c.m.empty() || g.chance(1, 6)) k = g.below(span + 1); else { auto it = c.m.begin(); std::advance(it, g.below(c.m.size())); k = it->first; }
            name = "delete"; bool hand = g.coin(); rc_resource* r = nullptr;
            g.log("tree%zu delete %llu%s", i, (unsigned long long)k, hand ? " (hand back)" : "");
            bool present = c.m.count(k); if (!present) r = (rc_resource*)8;
            status s = rc_rbtree_delete(hand ? &r : nullptr, c.t, &k);
            if (!present) { CHECK(s == ERROR_RBTREE_NOT_FOUND, "deleting an absent key gave %08x", s); CHECK(hand ? !r : r == (rc_resource*)8, "deleting an absent key did not set its result to NULL"); }
            else { CHECK(s == STATUS_SUCCESS, "delete failed with %08x", s); remove(c, r, k, hand); }
            break; }
        case 3: { if (c.m.empty()) continue; name = "delete_node"; bool hand = g.coin(); rc_resource* r = nullptr;
            size_t n = g.below(c.m.size());
            rc_rbtree_node* nil = rc_rbtree_nil_node(c.t);
            rc_rbtree_node* x = rc_rbtree_minimum_node(c.t, rc_rbtree_root_node(c.t));
            while (n--) { x = rc_rbtree_successor_node(c.t, x); CHECK(x != nil, "walk ended early"); }
            uint64_t k = kof(c.t, x); rc_resource* want = rc_rbtree_node_value(c.t, x);
            g.log("tree%zu delete_node %llu%s", i, (unsigned long long)k, hand ? " (hand back)" : "");
            OK(rc_rbtree_delete_node(hand ? &r : nullptr, c.t, x));
            if (hand) CHECK(r == want, "delete_node handed back another element"); else CHECK(((KItem*)want)->it.released == 1, "delete_node did not release its element");
            remove(c, r, k, hand);
            break; }
        case 4: { name = "clear"; g.log("tree%zu clear", i); OK(rc_rbtree_clear(c.t)); for (auto& e : c.m) CHECK(e.second->it.released == 1, "clear did not release an element"); c.m.clear(); mods++; break; }
        case 5: { if (nt < 2) continue; name = "swap"; size_t j = (i + 1 + g.below(nt - 1)) % nt; g.log("swap tree%zu tree%zu", i, j); rc_rbtree_swap(ts[i].t, ts[j].t); std::swap(ts[i].m, ts[j].m); std::swap(ts[i].ctx, ts[j].ctx); mods++; if (ts[i].m.size() + ts[j].m.size() > 2) interesting = true; g.label("swap"); break; }
        case 6: { name = "recreate"; g.log("tree%zu release, create", i); OK(rc_resource_release(rc_rbtree_resource_handle(c.t))); for (auto& e : c.m) CHECK(e.second->it.released == 1, "release did not release an element"); c.m.clear(); c.t = nullptr; OK(rc_rbtree_create(&c.t, as[i], &key_cmp, &key_of, c.ctx)); break; }
        case 7: { // a burst of ordered keys
            uint64_t base = span + g.below(4) * 1000; bool up = g.coin(); size_t n = 1 + g.below(20); g.log("tree%zu burst of %zu %s", i, n, up ? "ascending" : "descending"); name = "burst";
            for (size_t q = 0; q < n; q++) { uint64_t k = base + (up ? q : n - q); if (c.m.count(k)) continue; KItem* e = new_kitem(k); OK(rc_rbtree_insert(c.t, res(e))); c.m.insert({k, e}); }
            mods++; break; }
        }
        for (auto& x : ts) if (avg < 100 || &x == &c || step % 16 == 0) check(x, name);
    }
    for (auto& x : ts) { check(x, "the last step"); for (auto& e : x.m) lookup(x, e.first, "the last step"); }
    for (auto& x : ts) for (auto& e : x.m) CHECK(e.second->it.released == 0, "an element still in a tree was released");
    size_t first = g.below(nt);
    for (size_t i = 0; i < nt; i++) {
        T& x = ts[(i + first) % nt];
        OK(rc_resource_release(rc_rbtree_resource_handle(x.t)));
        for (auto& e : x.m) CHECK(e.second->it.released == 1, "release did not release an element");
        for (size_t j = i + 1; j < nt; j++) check(ts[(j + first) % nt], "releasing another tree");
    }
    for (auto* a : as) free_alloc(a);   // nodes may have moved to another tree, so allocators go last
    for (auto& e : kitems()) CHECK(e.it.released == 1, "element #%d released %d times at the end", e.it.id, e.it.released);
    heap.expect_clean("end of case");
    heap.end();
    if (mods >= 6 && interesting) g.nontrivial();
}
}
