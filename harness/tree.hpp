// helpers shared by the tree harnesses: trees over Item resources keyed by a 64 bit value.
#pragma once
#include "rc.hpp"
#include <map>
#include <set>
struct KeyCtx { uint64_t magic; uint64_t compares; bool reverse; };
struct KItem { Item it; uint64_t k; };
inline std::deque<KItem>& kitems() { static auto* d = new std::deque<KItem>; return *d; }
inline status kitem_release(rc_resource* r) {
    KItem* it = (KItem*)r; bool known = false;
    if (it->it.id >= 0 && (size_t)it->it.id < kitems().size()) known = &kitems()[it->it.id] == it;
    if (!known) vp::fail("release handler called with something that is not one of the case's resources");
    it->it.released++;
    if (it->it.released > 1) vp::fail("resource #%d released %d times", it->it.id, it->it.released);
    return it->it.on_release;
}
RCPR_VTABLE rc_resource_vtable kitem_vtable = { &kitem_release };
inline KItem* new_kitem(uint64_t k, status on_release = STATUS_SUCCESS) {
    kitems().push_back(KItem{});
    KItem* x = &kitems().back();
    x->it.id = (int)kitems().size() - 1; x->it.on_release = on_release; x->k = k;
    rc_resource_init(&x->it.hdr, &kitem_vtable);
    return x;
}
inline rc_resource* res(KItem* i) { return &i->it.hdr; }
inline rc_rcpr_comparison_result key_cmp(void* c, const void* a, const void* b) {
    KeyCtx* k = (KeyCtx*)c;
    if (k->magic != 0x5eed) vp::fail("comparison called with the wrong context");
    k->compares++;
    uint64_t x = *(const uint64_t*)a, y = *(const uint64_t*)b;
    if (k->reverse) std::swap(x, y);
    return x < y ? RCPR_COMPARE_LT : x > y ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ;
}
inline const void* key_of(void* c, const rc_resource* r) {
    KeyCtx* k = (KeyCtx*)c;
    if (k->magic != 0x5eed) vp::fail("key function called with the wrong context");
    return &((const KItem*)r)->k;
}
