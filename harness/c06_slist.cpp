// C06: singly linked lists and queues behave as sequences.
#include "rc.hpp"
#include <algorithm>
namespace vp {
const char* const PROPERTY = "C06";
const char* const RULE = "a case is a history of create / insert / append / pop / pop-next / child-swap / swap / clear / release calls over 1-3 singly linked lists with remembered positions and 0-2 queues, some with crowds of 250-6000 (at times more than 65536) elements, checked step by step against vector models; non-trivial = at least 4 modifying calls, one of them a removal or swap, on a container that held at least 2 elements";
const std::vector<Probe> PROBES;
void setup() {}

struct Pos { rc_slist_node* n; Item* it; };
struct L { rc_slist* l; std::vector<Pos> v; };

static void check(L& L_, const char* after) {
    rc_slist* l = L_.l; auto& v = L_.v;
    CHECK(rc_slist_count(l) == v.size(), "after %s: count is %zu, model %zu", after, rc_slist_count(l), v.size());
    rc_slist_node* n = (rc_slist_node*)1;
    OK(rc_slist_head(&n, l));
    CHECK((n == nullptr) == v.empty(), "after %s: head of a list of %zu", after, v.size());
    size_t i = 0;
    for (; n; i++) {
        CHECK(i < v.size(), "after %s: traversal runs past the end", after);
        CHECK(v[i].n == n, "after %s: node %zu differs", after, i);
        rc_resource* r = (rc_resource*)1;
        OK(rc_slist_node_child(&r, n));
        CHECK(r == (v[i].it ? res(v[i].it) : nullptr), "after %s: child %zu differs", after, i);
        rc_slist_node* nx = (rc_slist_node*)1;
        OK(rc_slist_node_next(&nx, n));
        n = nx;
    }
    CHECK(i == v.size(), "after %s: traversal saw %zu of %zu", after, i, v.size());
    n = (rc_slist_node*)1;
    OK(rc_slist_tail(&n, l));
    CHECK(n == (v.empty() ? nullptr : v.back().n), "after %s: wrong tail of a list of %zu", after, v.size());
}
static rc_slist_node* node_at(rc_slist* l, size_t i) {
    rc_slist_node* n = nullptr; OK(rc_slist_head(&n, l));
    while (i--) { rc_slist_node* x = nullptr; CHECK(n, "missing node"); OK(rc_slist_node_next(&x, n)); n = x; }
    return n;
}
static void took(rc_resource* r, Item* want, std::vector<Item*>& outside, const char* what) {
    CHECK(r == (want ? res(want) : nullptr), "%s handed back the wrong child", what);
    if (want) { CHECK(want->released == 0, "%s handed back a released child", what); outside.push_back(want); }
}

// how many elements a crowd has: beyond what narrow counters hold
static size_t crowd_size() { return g.chance(1, 30) ? 65530 + g.below(200) : g.coin() ? 250 + g.below(20) : g.below(6000); }
void run_case() {
    items().clear();
    heap.begin();
    rc_allocator* a = make_alloc();
    size_t nl = 1 + g.below(3), nq = g.below(3);
    std::vector<L> ls(nl);
    struct Q { rc_queue* q; std::vector<Item*> v; };
    std::vector<Q> qs(nq);
    for (auto& x : ls) { x.l = nullptr; OK(rc_slist_create(&x.l, a)); }
    for (auto& x : qs) { x.q = nullptr; OK(rc_queue_create(&x.q, a)); }
    std::vector<unsigned> w = {6, 6, 6, 6, 6, 3, 4, 1, 1};
    std::vector<unsigned> wq = {6, 4, 6, 1};
    if (g.chance(1, 2)) for (auto& x : w) if (g.chance(1, 4)) x *= 4;
    if (g.chance(1, 2)) for (auto& x : wq) if (g.chance(1, 4)) x *= 4;
    int mods = 0; bool removed = false, two = false; int step = 0;
    std::vector<Item*> outside;
    auto fresh = [&]() { if (!outside.empty() && g.chance(1, 4)) { Item* i = outside.back(); outside.pop_back(); return i; } return new_item(); };
    unsigned avg = (unsigned[]){8, 20, 60}[g.pick({3, 3, 1})];
    int most = 400;
    if (g.chance(1, 300)) {
        size_t n = crowd_size(); L& c = ls[g.below(nl)]; bool front = g.coin(); most = n > 10000 ? 3 : 20; g.label("crowd"); g.log("a crowd of %zu at the %s", n, front ? "head" : "tail");
        for (size_t i = 0; i < n; i++) { Item* it = new_item(); rc_slist_node* x = nullptr; if (front) { OK(rc_slist_insert_head(c.l, res(it))); OK(rc_slist_head(&x, c.l)); } else { OK(rc_slist_append_tail(c.l, res(it))); OK(rc_slist_tail(&x, c.l)); } c.v.push_back({x, it}); }
        if (front) std::reverse(c.v.begin(), c.v.end());
        check(c, "a crowd");
        if (nq) { Q& q = qs[g.below(nq)]; n = crowd_size(); for (size_t i = 0; i < n; i++) { Item* it = new_item(); OK(rc_queue_append(q.q, res(it))); q.v.push_back(it); CHECK(rc_queue_count(q.q) == q.v.size(), "queue count is %zu, model %zu", rc_queue_count(q.q), q.v.size()); } }
    }
    while (g.more(avg) && step++ < most) {
        const char* name = "?";
        if (nq && g.chance(1, 3)) {
            size_t k = g.below(nq); Q& q = qs[k];
            if (q.v.size() >= 2) two = true;
            switch (g.pickv(wq)) {
            case 0: { Item* it = fresh(); OK(rc_queue_append(q.q, res(it))); q.v.push_back(it); mods++; g.log("queue%zu append #%d", k, it->id); break; }
            case 1: { Item* it = fresh(); OK(rc_queue_insert(q.q, res(it))); q.v.insert(q.v.begin(), it); mods++; g.log("queue%zu insert #%d", k, it->id); break; }
            case 2: { rc_resource* r = nullptr; OK(rc_queue_pop(q.q, &r)); g.log("queue%zu pop", k);
                if (q.v.empty()) CHECK(!r, "pop of an empty queue produced something");
                else { took(r, q.v[0], outside, "queue pop"); q.v.erase(q.v.begin()); mods++; removed = true; } break; }
            case 3: { OK(rc_resource_release(rc_queue_resource_handle(q.q))); g.log("queue%zu release, create", k); for (auto* i : q.v) CHECK(i->released == 1, "queue release did not release a child"); q.v.clear(); q.q = nullptr; OK(rc_queue_create(&q.q, a)); break; }
            }
            for (auto& x : qs) CHECK(rc_queue_count(x.q) == x.v.size(), "queue count is %zu, model %zu", rc_queue_count(x.q), x.v.size());
            continue;
        }
        size_t k = g.below(nl);
        L& c = ls[k];
        if (c.v.size() >= 2) two = true;
        switch (g.pickv(w)) {
        case 0: { Item* it = fresh(); name = "append_tail"; OK(rc_slist_append_tail(c.l, res(it))); rc_slist_node* n = nullptr; OK(rc_slist_tail(&n, c.l)); c.v.push_back({n, it}); mods++; g.log("slist%zu append_tail #%d", k, it->id); break; }
        case 1: { Item* it = fresh(); name = "insert_head"; OK(rc_slist_insert_head(c.l, res(it))); rc_slist_node* n = nullptr; OK(rc_slist_head(&n, c.l)); c.v.insert(c.v.begin(), {n, it}); mods++; g.log("slist%zu insert_head #%d", k, it->id); break; }
        case 2: { if (c.v.empty()) continue; size_t i = g.below(c.v.size()); Item* it = fresh(); name = "append";
            OK(rc_slist_append(c.v[i].n, res(it))); g.log("slist%zu append after [%zu] #%d", k, i, it->id);
            c.v.insert(c.v.begin() + i + 1, {node_at(c.l, i + 1), it}); mods++; break; }
        case 3: { if (c.v.empty()) continue; size_t i = g.below(c.v.size()); name = "node_next_pop"; rc_resource* r = nullptr;
            OK(rc_slist_node_next_pop(c.v[i].n, &r)); g.log("slist%zu pop after [%zu]", k, i);
            if (i + 1 == c.v.size()) CHECK(!r, "pop after the last node produced something");
            else { took(r, c.v[i + 1].it, outside, "node_next_pop"); c.v.erase(c.v.begin() + i + 1); mods++; removed = true; }
            break; }
        case 4: { name = "pop"; rc_resource* r = nullptr; OK(rc_slist_pop(c.l, &r)); g.log("slist%zu pop", k);
            if (c.v.empty()) CHECK(r == nullptr, "pop of an empty list produced something");
            else { took(r, c.v[0].it, outside, "pop"); c.v.erase(c.v.begin()); mods++; removed = true; }
            break; }
        case 5: { if (c.v.empty()) continue; size_t i = g.below(c.v.size()); name = "child_swap"; Item* it = g.chance(1, 4) ? nullptr : fresh();
            rc_resource* r = it ? res(it) : nullptr; Item* old = c.v[i].it;
            OK(rc_slist_node_child_swap(c.v[i].n, &r)); g.log("slist%zu child_swap [%zu]", k, i);
            took(r, old, outside, "child swap"); c.v[i].it = it; mods++; removed = true; break; }
        case 6: { if (nl < 2) continue; name = "swap"; size_t j = (k + 1 + g.below(nl - 1)) % nl; rc_slist_swap(ls[k].l, ls[j].l); std::swap(ls[k].v, ls[j].v); g.log("swap slist%zu slist%zu", k, j); mods++; removed = true; g.label("swap"); break; }
        case 7: { name = "clear"; OK(rc_slist_clear(c.l)); g.log("slist%zu clear", k); for (auto& p : c.v) if (p.it) CHECK(p.it->released == 1, "clear did not release a child"); c.v.clear(); mods++; break; }
        case 8: { name = "recreate"; OK(rc_resource_release(rc_slist_resource_handle(c.l))); g.log("slist%zu release, create", k); for (auto& p : c.v) if (p.it) CHECK(p.it->released == 1, "release did not release a child"); c.v.clear(); c.l = nullptr; OK(rc_slist_create(&c.l, a)); break; }
        }
        for (auto& x : ls) check(x, name);
    }
    // drain some of the queues so that the delivery order is compared in full.
    for (auto& q : qs) if (g.coin()) {
        for (size_t i = 0; i < q.v.size(); i++) { rc_resource* r = nullptr; OK(rc_queue_pop(q.q, &r)); took(r, q.v[i], outside, "queue pop"); CHECK(rc_queue_count(q.q) == q.v.size() - i - 1, "queue count while draining"); }
        q.v.clear();
        rc_resource* r = nullptr; OK(rc_queue_pop(q.q, &r)); CHECK(!r, "pop of a drained queue produced something");
    }
    for (auto& x : ls) for (auto& p : x.v) if (p.it) CHECK(p.it->released == 0, "a child still in a list was released");
    for (auto& q : qs) for (auto* p : q.v) CHECK(p->released == 0, "a child still in a queue was released");
    for (auto* o : outside) CHECK(o->released == 0, "a child handed back was released");
    for (auto& x : ls) OK(rc_resource_release(rc_slist_resource_handle(x.l)));
    for (auto& q : qs) OK(rc_resource_release(rc_queue_resource_handle(q.q)));
    for (auto* o : outside) OK(rc_resource_release(res(o)));
    for (auto& i : items()) CHECK(i.released == 1, "child #%d released %d times at the end", i.id, i.released);
    free_alloc(a);
    heap.expect_clean("end of case");
    heap.end();
    if (mods >= 4 && removed && two) g.nontrivial();
}
}
