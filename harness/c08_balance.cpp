// C08: the tree stays balanced; links are consistent.
#include "tree.hpp"
#include <cmath>
namespace vp {
const char* const PROPERTY = "C08";
const char* const RULE = "a case is up to 8 phases of insertions and deletions (random, ascending, descending, next to the deepest element, away from it), then depth, link consistency and lookup cost are compared with the bound 2*log2(n+1); non-trivial = the tree held at least 8 elements and something was deleted";
const std::vector<Probe> PROBES;
void setup() {}

static rc_rbtree* t; static rc_rbtree_node* nil;
struct Shape { size_t n, depth; rc_rbtree_node* deep; rc_rbtree_node* shallow; size_t shallow_d; };
static size_t bound(size_t n) { return (size_t)std::floor(2.0 * std::log2((double)n + 1) + 1e-9); }
// walks the whole tree without recursion, checking the links of every element.
static Shape walk() {
    Shape s{0, 0, nullptr, nullptr, (size_t)-1};
    rc_rbtree_node* r = rc_rbtree_root_node(t);
    if (r == nil) return s;
    CHECK(rc_rbtree_parent_node(t, r) == nil, "the root has a parent");
    std::vector<std::pair<rc_rbtree_node*, size_t>> st{{r, 1}};
    size_t cnt = rc_rbtree_count(t);
    while (!st.empty()) {
        auto [x, d] = st.back(); st.pop_back();
        s.n++;
        CHECK(s.n <= cnt, "the links reach more than the %zu elements of the tree", cnt);
        if (d > s.depth) { s.depth = d; s.deep = x; }
        rc_rbtree_node* l = rc_rbtree_left_node(t, x); rc_rbtree_node* rr = rc_rbtree_right_node(t, x);
        if (l == nil && rr == nil && d < s.shallow_d) { s.shallow_d = d; s.shallow = x; }
        uint64_t k = ((KItem*)rc_rbtree_node_value(t, x))->k;
        if (l != nil) { CHECK(rc_rbtree_parent_node(t, l) == x, "a left child does not name its parent"); CHECK(((KItem*)rc_rbtree_node_value(t, l))->k < k, "a left child is not smaller"); st.push_back({l, d + 1}); }
        if (rr != nil) { CHECK(rc_rbtree_parent_node(t, rr) == x, "a right child does not name its parent"); CHECK(((KItem*)rc_rbtree_node_value(t, rr))->k > k, "a right child is not larger"); st.push_back({rr, d + 1}); }
    }
    CHECK(s.n == cnt, "the links reach %zu of %zu elements", s.n, cnt);
    return s;
}
static KItem* val(rc_rbtree_node* n) { return (KItem*)rc_rbtree_node_value(t, n); }

void run_case() {
    kitems().clear();
    heap.begin();
    KeyCtx ctx{0x5eed, 0, false};
    rc_allocator* a = make_alloc();
    t = nullptr;
    OK(rc_rbtree_create(&t, a, &key_cmp, &key_of, &ctx));
    nil = rc_rbtree_nil_node(t);
    std::map<uint64_t, KItem*> m;
    uint64_t lo = 1ull << 40, hi = lo;     // ascending / descending cursors
    size_t biggest = 0, deletions = 0;
    size_t phases = 1 + g.below(8);
    size_t maxn = (size_t[]){16, 60, 250, 1200}[g.pick({4, 4, 2, 1})];
    auto insert = [&](uint64_t k) {
        if (m.count(k)) return;
        KItem* x = new_kitem(k); ctx.compares = 0;
        OK(rc_rbtree_insert(t, res(x)));
        m[k] = x;
    };
    auto del = [&](uint64_t k) {
        auto it = m.find(k); if (it == m.end()) return;
        rc_resource* r = nullptr;
        if (g.coin()) { OK(rc_rbtree_delete(&r, t, &k)); }
        else {
            rc_rbtree_node* n = rc_rbtree_root_node(t);
            while (n != nil && val(n)->k != k) n = k < val(n)->k ? rc_rbtree_left_node(t, n) : rc_rbtree_right_node(t, n);
            CHECK(n != nil, "an inserted element cannot be reached");
            OK(rc_rbtree_delete_node(&r, t, n));
        }
        CHECK(r == res(it->second), "delete handed back the wrong element");
        OK(rc_resource_release(r));
        m.erase(it); deletions++;
    };
    auto verify = [&](bool lookups) {
        Shape s = walk();
        CHECK(s.n == m.size(), "%zu elements linked, %zu inserted and not deleted", s.n, m.size());
        CHECK(s.depth <= bound(s.n), "a tree of %zu elements has depth %zu, more than %zu", s.n, s.depth, bound(s.n));
        if (!lookups || m.empty()) return;
        for (int i = 0; i < 4; i++) {
            uint64_t k;
            if (i == 0) k = val(s.deep)->k;
            else if (i == 1) k = val(s.deep)->k + 1;
            else { auto it = m.lower_bound(lo + g.below(hi - lo + 1)); if (it == m.end()) --it; k = it->first + (i == 3); }
            rc_resource* r = nullptr; ctx.compares = 0;
            status st = rc_rbtree_find(&r, t, &k);
            CHECK(ctx.compares <= bound(m.size()), "a lookup among %zu elements made %llu comparisons, more than %zu", m.size(), (unsigned long long)ctx.compares, bound(m.size()));
            auto it = m.find(k);
            CHECK(it == m.end() ? st == ERROR_RBTREE_NOT_FOUND : st == STATUS_SUCCESS && r == res(it->second), "a lookup went wrong (%08x)", st);
        }
    };
    for (size_t p = 0; p < phases; p++) {
        size_t kind = g.pick({4, 3, 3, 4, 3, 3, 3, 5, 4});
        size_t cnt = 1 + g.below(maxn);
        if (cnt > 60 && (kind == 3 || kind == 7 || kind == 8)) cnt = 60;   // these walk the tree every step
        uint64_t mask = (1ull << (4 + g.below(28))) - 1;
        bool every = maxn <= 60;
        for (size_t i = 0; i < cnt; i++) {
            switch (kind) {
            case 0: { uint64_t k = lo + (g.below(1u << 30) & mask) * 1024; if (k > hi) hi = k; insert(k); break; }
            case 1: hi += 4096; insert(hi); break;
            case 2: lo -= 4096; insert(lo); break;
            case 3: { Shape s = walk(); if (!s.n) { insert(lo); break; }
                uint64_t k = val(s.deep)->k; auto it = m.find(k); bool up = g.coin();
                uint64_t nk;
                if (up) { auto nx = std::next(it); nk = nx == m.end() ? k + 4096 : k + (nx->first - k) / 2; }
                else { nk = it == m.begin() ? k - 4096 : std::prev(it)->first + (k - std::prev(it)->first) / 2; }
                if (nk > hi) hi = nk; if (nk < lo) lo = nk;
                insert(nk); break; }
            case 4: if (!m.empty()) { auto it = m.lower_bound(lo + g.below(hi - lo + 1)); if (it == m.end()) --it; del(it->first); } break;
            case 5: if (!m.empty()) del(m.begin()->first); break;
            case 6: if (!m.empty()) del(std::prev(m.end())->first); break;
            case 7: { Shape s = walk(); if (s.n > 1) del(val(s.shallow)->k); break; }
            case 8: { // delete an element off the path to the deepest one
                Shape s = walk(); if (s.n < 2) break;
                rc_rbtree_node* x = s.deep; size_t up = g.below(s.depth);
                while (up-- && rc_rbtree_parent_node(t, x) != nil) x = rc_rbtree_parent_node(t, x);
                if (x == s.deep) { del(val(s.shallow)->k); break; }
                // descend away from the deep element
                rc_rbtree_node* c = val(s.deep)->k < val(x)->k ? rc_rbtree_right_node(t, x) : rc_rbtree_left_node(t, x);
                while (c != nil) { x = c; c = rc_rbtree_left_node(t, x) != nil ? rc_rbtree_left_node(t, x) : rc_rbtree_right_node(t, x); }
                del(val(x)->k); break; }
            }
            if (m.size() > biggest) biggest = m.size();
            if (every) verify(false);
            else if (m.size() && (i & 31) == 31) verify(false);
        }
        g.log("phase %zu: kind %zu x %zu -> %zu elements", p, kind, cnt, m.size());
        verify(true);
    }
    verify(true);
    for (auto& e : m) CHECK(e.second->it.released == 0, "an element still in the tree was released");
    OK(rc_resource_release(rc_rbtree_resource_handle(t)));
    for (auto& e : kitems()) CHECK(e.it.released == 1, "an element was released %d times", e.it.released);
    free_alloc(a);
    heap.expect_clean("end of case");
    heap.end();
    if (biggest >= 8 && deletions) g.nontrivial();
}
}
