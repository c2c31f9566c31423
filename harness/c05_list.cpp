// C05: a doubly linked list behaves as a sequence.
#include "rc.hpp"
#include <algorithm>
namespace vp {
const char* const PROPERTY = "C05";
const char* const RULE = "a case is a history of create / insert / append / pop / child-swap / swap / clear / release calls over 1-3 lists and remembered positions, some lists with crowds of 250-6000 (at times more than 65536) elements, checked step by step against a vector model; non-trivial = at least 4 modifying calls, one of them a removal or swap, on a list that held at least 2 elements";
const std::vector<Probe> PROBES;
void setup() {}

struct Pos { rc_list_node* n; Item* it; };      // model: node identity and its child
struct L { rc_list* l; std::vector<Pos> v; };

static void check(L& L_, const char* after) {
    rc_list* l = L_.l; auto& v = L_.v;
    CHECK(rc_list_count(l) == v.size(), "after %s: count is %zu, model %zu", after, rc_list_count(l), v.size());
    rc_list_node* n = (rc_list_node*)1;
    OK(rc_list_head(&n, l));
    CHECK((n == nullptr) == v.empty(), "after %s: head of a list of %zu", after, v.size());
    size_t i = 0;
    for (; n; i++) {
        CHECK(i < v.size(), "after %s: forward traversal runs past the end", after);
        CHECK(v[i].n == n, "after %s: forward node %zu differs", after, i);
        rc_resource* r = (rc_resource*)1;
        OK(rc_list_node_child(&r, n));
        CHECK(r == (v[i].it ? res(v[i].it) : nullptr), "after %s: child %zu differs", after, i);
        rc_list_node* nx = (rc_list_node*)1;
        OK(rc_list_node_next(&nx, n));
        n = nx;
    }
    CHECK(i == v.size(), "after %s: forward traversal saw %zu of %zu", after, i, v.size());
    n = (rc_list_node*)1;
    OK(rc_list_tail(&n, l));
    CHECK((n == nullptr) == v.empty(), "after %s: tail of a list of %zu", after, v.size());
    for (i = v.size(); n; i--) {
        CHECK(i > 0, "after %s: backward traversal runs past the start", after);
        CHECK(v[i - 1].n == n, "after %s: backward node %zu differs", after, i - 1);
        rc_list_node* nx = (rc_list_node*)1;
        OK(rc_list_node_prev(&nx, n));
        n = nx;
    }
    CHECK(i == 0, "after %s: backward traversal stopped at %zu", after, i);
}
static void check_released() {
    // nothing still in the model may have been released
}
static rc_list_node* node_at(rc_list* l, size_t i) {
    rc_list_node* n = nullptr; OK(rc_list_head(&n, l));
    while (i--) { rc_list_node* x = nullptr; CHECK(n, "missing node"); OK(rc_list_node_next(&x, n)); n = x; }
    return n;
}

// how many elements a crowd has: beyond what narrow counters hold
static size_t crowd_size() { return g.chance(1, 30) ? 65530 + g.below(200) : g.coin() ? 250 + g.below(20) : g.below(6000); }
void run_case() {
    items().clear();
    heap.begin();
    rc_allocator* a = make_alloc();
    size_t nl = 1 + g.below(3);
    std::vector<L> ls(nl);
    for (auto& x : ls) { x.l = nullptr; OK(rc_list_create(&x.l, a)); }
    std::vector<unsigned> w = {6, 6, 6, 6, 6, 3, 4, 1, 1};
    if (g.chance(1, 2)) for (auto& x : w) if (g.chance(1, 4)) x *= 4;
    int mods = 0; bool removed = false, two = false; int step = 0;
    std::vector<Item*> outside;
    unsigned avg = (unsigned[]){8, 20, 60}[g.pick({3, 3, 1})];
    int most = 400;
    if (g.chance(1, 300)) {
        size_t n = crowd_size(); L& c = ls[g.below(nl)]; bool front = g.coin(); most = n > 10000 ? 3 : 20; g.label("crowd"); g.log("a crowd of %zu at the %s", n, front ? "head" : "tail");
        for (size_t i = 0; i < n; i++) { Item* it = new_item(); rc_list_node* x = nullptr; if (front) { OK(rc_list_insert_head(c.l, res(it))); OK(rc_list_head(&x, c.l)); } else { OK(rc_list_append_tail(c.l, res(it))); OK(rc_list_tail(&x, c.l)); } c.v.push_back({x, it}); }
        if (front) std::reverse(c.v.begin(), c.v.end());
        check(c, "a crowd");
    }
    while (g.more(avg) && step++ < most) {
        L& c = ls[g.below(nl)];
        if (c.v.size() >= 2) two = true;
        const char* name = "?";
        switch (g.pickv(w)) {
        case 0: { Item* it = new_item(); name = "append_tail"; OK(rc_list_append_tail(c.l, res(it))); rc_list_node* n = nullptr; OK(rc_list_tail(&n, c.l)); c.v.push_back({n, it}); mods++; g.log("list%d append_tail #%d", int(&c - &ls[0]), it->id); break; }
        case 1: { Item* it = new_item(); name = "insert_head"; OK(rc_list_insert_head(c.l, res(it))); rc_list_node* n = nullptr; OK(rc_list_head(&n, c.l)); c.v.insert(c.v.begin(), {n, it}); mods++; g.log("list%d insert_head #%d", int(&c - &ls[0]), it->id); break; }
        case 2: { if (c.v.empty()) continue; size_t i = g.below(c.v.size()); Item* it = new_item(); name = "append";
            OK(rc_list_append(c.v[i].n, res(it)));
            g.log("list%d append after [%zu] #%d", int(&c - &ls[0]), i, it->id);
            c.v.insert(c.v.begin() + i + 1, {node_at(c.l, i + 1), it}); mods++; break; }
        case 3: { if (c.v.empty()) continue; size_t i = g.below(c.v.size()); Item* it = new_item(); name = "insert";
            OK(rc_list_insert(c.v[i].n, res(it)));
            g.log("list%d insert before [%zu] #%d", int(&c - &ls[0]), i, it->id);
            c.v.insert(c.v.begin() + i, {node_at(c.l, i), it}); mods++; break; }
        case 4: { name = "pop"; rc_resource* r = nullptr; OK(rc_list_pop(c.l, &r)); g.log("list%d pop", int(&c - &ls[0]));
            if (c.v.empty()) CHECK(r == nullptr, "pop of an empty list produced something");
            else { Item* want = c.v[0].it; CHECK(r == (want ? res(want) : nullptr), "pop handed back the wrong child"); if (want) outside.push_back(want); c.v.erase(c.v.begin()); mods++; removed = true; }
            break; }
        case 5: { if (c.v.empty()) continue; size_t i = g.below(c.v.size()); name = "child_swap"; Item* it = nullptr;
            if (!outside.empty() && g.coin()) { it = outside.back(); outside.pop_back(); } else if (g.chance(3, 4)) it = new_item();
            rc_resource* r = it ? res(it) : nullptr; Item* old = c.v[i].it;
            OK(rc_list_node_child_swap(c.v[i].n, &r)); g.log("list%d child_swap [%zu]", int(&c - &ls[0]), i);
            CHECK(r == (old ? res(old) : nullptr), "child swap handed back the wrong child"); if (old) outside.push_back(old); c.v[i].it = it; mods++; removed = true; break; }
        case 6: { if (nl < 2) continue; name = "swap"; size_t i = &c - &ls[0], j = (i + 1 + g.below(nl - 1)) % nl; rc_list_swap(ls[i].l, ls[j].l); std::swap(ls[i].v, ls[j].v); g.log("swap list%zu list%zu", i, j); mods++; removed = true; g.label("swap"); break; }
        case 7: { name = "clear"; OK(rc_list_clear(c.l)); g.log("list%d clear", int(&c - &ls[0])); for (auto& p : c.v) if (p.it) CHECK(p.it->released == 1, "clear did not release a child"); c.v.clear(); mods++; break; }
        case 8: { name = "recreate"; OK(rc_resource_release(rc_list_resource_handle(c.l))); g.log("list%d release, create", int(&c - &ls[0])); for (auto& p : c.v) if (p.it) CHECK(p.it->released == 1, "release did not release a child"); c.v.clear(); c.l = nullptr; OK(rc_list_create(&c.l, a)); break; }
        }
        for (auto& x : ls) check(x, name);
    }
    for (auto& x : ls) for (auto& p : x.v) if (p.it) CHECK(p.it->released == 0, "a child still in a list was released");
    for (auto* o : outside) CHECK(o->released == 0, "a child handed back was released");
    for (auto& x : ls) OK(rc_resource_release(rc_list_resource_handle(x.l)));
    for (auto* o : outside) OK(rc_resource_release(res(o)));
    for (auto& i : items()) CHECK(i.released == 1, "child #%d released %d times at the end", i.id, i.released);
    free_alloc(a);
    heap.expect_clean("end of case");
    heap.end();
    if (mods >= 4 && removed && two) g.nontrivial();
}
}
