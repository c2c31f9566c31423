// Public RCPR API under the prefix rc_, plus helper resources for the harnesses.
#pragma once
#include <fcntl.h>
#include <unistd.h>
#include "vp.hpp"
#include <rcpr/allocator.h>
#include <rcpr/auto_reset_trigger.h>
#include <rcpr/bigint.h>
#include <rcpr/byteswap.h>
#include <rcpr/compare.h>
#include <rcpr/condition.h>
#include <rcpr/fiber.h>
#include <rcpr/list.h>
#include <rcpr/message.h>
#include <rcpr/psock.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#include <rcpr/resource.h>
#include <rcpr/resource/protected.h>
#include <rcpr/slist.h>
#include <rcpr/socket_utilities.h>
#include <rcpr/stack.h>
#include <rcpr/status.h>
#include <rcpr/string.h>
#include <rcpr/thread.h>
#include <rcpr/uuid.h>
#include <rcpr/vtable.h>
#include <rcpr/fiber/disciplines/management.h>
#include <rcpr/fiber/disciplines/psock_io.h>

RCPR_IMPORT_allocator_as(rc);
RCPR_IMPORT_auto_reset_trigger_as(rc);
RCPR_IMPORT_bigint_as(rc);
RCPR_IMPORT_compare_as(rc);
RCPR_IMPORT_condition_as(rc);
RCPR_IMPORT_fiber_as(rc);
RCPR_IMPORT_list_as(rc);
RCPR_IMPORT_message_as(rc);
RCPR_IMPORT_psock_as(rc);
RCPR_IMPORT_queue_as(rc);
RCPR_IMPORT_rbtree_as(rc);
RCPR_IMPORT_resource_as(rc);
RCPR_IMPORT_slist_as(rc);
RCPR_IMPORT_socket_utilities_as(rc);
RCPR_IMPORT_stack_as(rc);
RCPR_IMPORT_string_as(rc);
RCPR_IMPORT_thread_as(rc);
RCPR_IMPORT_uuid_as(rc);

#include <deque>

// a status no library code uses.
enum : int { ITEM_RELEASE_FAILED = STATUS_CODE(1, 0x7f, 0x123) };

struct Item {
    rc_resource hdr;
    int id;
    int key;
    int released;
    status on_release;
};
// every item made in this case; addresses are stable.
inline std::deque<Item>& items() { static auto* d = new std::deque<Item>; return *d; }
inline int& release_order() { static int n; return n; }

inline status item_release(rc_resource* r) {
    Item* it = (Item*)r;
    bool known = it->id >= 0 && (size_t)it->id < items().size() && &items()[it->id] == it;
    if (!known) vp::fail("release handler called with something that is not one of the case's resources");
    it->released++;
    if (it->released > 1) vp::fail("resource #%d released %d times", it->id, it->released);
    ++release_order();
    return it->on_release;
}
RCPR_VTABLE rc_resource_vtable item_vtable = { &item_release };

inline Item* new_item(int key = 0, status on_release = STATUS_SUCCESS) {
    items().push_back(Item{});
    Item* it = &items().back();
    it->id = (int)items().size() - 1;
    it->key = key; it->released = 0; it->on_release = on_release;
    rc_resource_init(&it->hdr, &item_vtable);
    return it;
}
inline rc_resource* res(Item* i) { return &i->hdr; }
inline Item* item(rc_resource* r) { return (Item*)r; }

inline rc_allocator* make_alloc() {
    rc_allocator* a = nullptr;
    status s = rc_malloc_allocator_create(&a);
    if (s != STATUS_SUCCESS || !a) vp::fail("malloc allocator could not be created: %08x", s);
    return a;
}
inline void free_alloc(rc_allocator* a) {
    status s = rc_resource_release(rc_allocator_resource_handle(a));
    if (s != STATUS_SUCCESS) vp::fail("allocator release failed: %08x", s);
}
#define OK(expr) do { status s__ = (expr); if (s__ != STATUS_SUCCESS) ::vp::fail(#expr " failed with %08x @" VP_STR(__LINE__), (unsigned)s__); } while (0)
namespace vp {
// Without a standard input, the next descriptor gets number 0.
struct NoStdin { NoStdin(bool on) { if (on) close(0); } ~NoStdin() { if (fcntl(0, F_GETFD) < 0 && open("/dev/null", O_RDONLY) != 0) fail("harness: no standard input"); } };
// With the low numbers taken, descriptors get numbers that need more than one byte.
struct Crowded { std::vector<int> v; explicit Crowded(bool on) { if (!on) return; g.label("high numbers"); int top = (int)(g.chance(1, 2) ? 250 + g.below(10) : 260 + g.below(60)); for (int d; (d = open("/dev/null", O_RDONLY)) >= 0; ) { v.push_back(d); if (d >= top) break; } } ~Crowded() { for (int d : v) close(d); } };
} // namespace vp
