#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "Allocator blocks are usable, aligned, disjoint and keep their contents",
  "Every block an allocator hands out is at least as large as requested, suitably aligned, disjoint from every other live block and, for a bump allocator, inside the backing region; resizing a block keeps the common prefix, and a failed request leaves every live block and its pointer unchanged. A request that cannot be satisfied is refused with the out-of-memory status, whatever its size, a request that fits in what is left of a bump allocator's region is granted, and resetting a bump allocator makes its whole region available again.",
  ["histories", "inputs"], "all histories of allocate / resize / reclaim / reset calls with sizes from 1 byte to the largest representable size, over regions of any size and alignment",
  "The unit tests allocate one or two fixed sizes; exhaustion boundaries, overflowing sizes and long interleavings are never sampled.",
  ["src/allocator", "include/rcpr/allocator.h"],
  [("bump offset and alignment arithmetic", "src/allocator/bump_allocator_create.c"), ("malloc-backed allocation and resizing", "src/allocator/malloc_allocator_create.c"), ("public dispatch", "src/allocator/allocator_allocate.c, allocator_reallocate.c, allocator_control.c")],
  ["returned status codes", "block addresses and contents"])

p("C02", "Containers release each owned resource exactly once, and only when told to",
  "A resource added to a list, queue or tree is owned by exactly that container until it is removed; clearing, deleting from, or releasing a container releases each resource it owns exactly once, never releases a resource that was handed back to the caller, and frees all of the container's memory. If releasing a child fails, that failure is reported by the container operation, the container stays valid, and every other child is still released exactly once, at the latest when the operation is repeated.",
  ["histories", "fault_sequences"], "all histories of insert, append, pop, delete, swap, child-swap, clear and release over several containers, with any subset of child releases failing",
  "The tests release small containers whose children never fail, and never count releases over a mixed history.",
  ["src/list", "src/slist", "src/queue", "src/rbtree", "src/resource"],
  [("list cleanup", "src/list/list_node_cleanup.c, list_clear.c, list_create.c"), ("singly linked cleanup", "src/slist/slist_node_cleanup.c, slist_clear.c"), ("tree deletion and clear", "src/rbtree/rbtree_delete_nodes.c, rbtree_clear.c, rbtree_delete.c"), ("generic release", "src/resource/resource_release.c")],
  ["calls made to each resource's release handler", "allocator balance after release"])

p("C03", "Out-of-memory in data structures, strings and streams is reported and harmless",
  "If memory runs out during any data-structure, string, thread-object or stream operation, the operation reports failure, leaves every existing structure exactly as it was (a failed stream write may have written a prefix of its bytes, and a failed stream read may have consumed some, and nothing else) and ownership of passed-in resources with the caller, and does not return a usable-looking object. Nothing is leaked, freed twice or touched after being freed, operations that only remove or release need no memory, and a failed operation succeeds when retried with memory available.",
  ["fault_sequences", "histories"], "all positions of one or more allocation failures in generated histories over all non-fiber modules",
  "The tests inject a failure into only a few constructors; failing the n-th allocation inside multi-allocation operations is never explored.",
  ["src/list", "src/slist", "src/queue", "src/rbtree", "src/string", "src/psock", "src/bigint", "src/auto_reset_trigger", "src/platform/pthread/thread", "src/allocator"],
  [("unwinding labels of the constructors", "src/psock/psock_create_from_*.c, src/psock/psock_br_create_from_psock.c, src/rbtree/rbtree_create.c"), ("node creation before linking", "src/list/list_node_create.c, src/rbtree/rbtree_insert.c"), ("boxed reads release partial buffers", "src/psock/psock_read_boxed_string.c, psock_read_boxed_data.c")],
  ["status codes", "output pointers", "allocator balance", "contents of structures after the failure"])

p("C04", "Out-of-memory in the fiber runtime is reported and harmless",
  "If memory or stack space runs out while creating fibers, schedulers, disciplines, messaging or condition facilities or asynchronous streams, or during a messaging, condition or scheduling call, the call reports failure and does not return a usable-looking object. Objects already created stay usable and releasable, nothing is leaked or released twice, no message, close or wait is half done, and no fiber other than the failing caller is disturbed (a failing notification or request to several fibers may have reached a first part of them; the others keep waiting). Stopping a fiber and releasing needs no memory, and a failed call succeeds when retried with memory.",
  ["fault_sequences", "histories"], "all positions of one or more allocation, mapping or polling-descriptor failures in generated fiber programs",
  "No test makes an allocation fail inside the fiber runtime beyond the first one of a constructor.",
  ["src/fiber/common", "src/message", "src/condition", "src/psock/psock_create_wrap_async.c", "src/psock/psock_fiber_scheduler_discipline_create.c", "src/stack"],
  [("unwinding of scheduler construction", "src/fiber/common/fiber_scheduler_create.c, fiber_scheduler_create_with_disciplines.c"), ("discipline registration", "src/fiber/common/fiber_scheduler_discipline_add.c"), ("get-or-create of the messaging and condition facilities", "src/message/message_discipline_get_or_create.c, src/condition/fiber/condition_discipline_get_or_create.c")],
  ["status codes", "allocator and mapping balance after release"])

p("C05", "A doubly linked list behaves as a sequence",
  "Under any history of operations a doubly linked list holds exactly the sequence of children those operations define: forward traversal, backward traversal, head, tail and count all agree with it, popping or removing hands back the right child, and popping from an empty list yields nothing. Swapping two lists exchanges their whole contents and leaves both fully usable, including through positions obtained before the swap.",
  ["histories"], "all histories of the list operations over several lists and remembered positions",
  "Each test performs one or two operations on lists of at most three elements.",
  ["src/list", "include/rcpr/list.h"],
  [("insertion and linking", "src/list/list_insert.c, list_append.c, list_insert_head.c, list_append_tail.c"), ("removal", "src/list/list_pop.c"), ("swapping", "src/list/list_swap.c, list_node_child_swap.c")],
  ["list accessors"])

p("C06", "Singly linked lists and queues behave as sequences",
  "Under any history of operations a singly linked list or queue holds exactly the sequence of children those operations define: traversal, head, tail and count agree with it, a queue delivers in first-in first-out order with front insertions delivered first, and popping from an empty container yields nothing. Swapping two lists exchanges their whole contents and leaves both fully usable, including through positions obtained before the swap.",
  ["histories"], "all histories of the singly-linked-list and queue operations over several containers and remembered positions",
  "Each test performs one or two operations on containers of at most three elements.",
  ["src/slist", "src/queue", "include/rcpr/slist.h", "include/rcpr/queue.h"],
  [("insertion and linking", "src/slist/slist_insert_head.c, slist_append.c, slist_append_tail.c"), ("removal", "src/slist/slist_pop.c, slist_node_next_pop.c"), ("queue over list", "src/queue/queue_append.c, queue_insert.c, queue_pop.c"), ("swapping", "src/slist/slist_swap.c, slist_node_child_swap.c")],
  ["slist and queue accessors"])

p("C07", "The tree is an ordered map under any history",
  "For any history of insertions, lookups, deletions, clears and swaps with a consistent comparison, the tree contains exactly the inserted-and-not-deleted resources: lookup finds a key if and only if it is present, an absent key is reported as not found, the count is exact, and walking by successor or predecessor from the minimum or maximum visits every element once in key order. Deleting hands back (or releases) the element with the requested key and leaves all others reachable, and a swapped or cleared tree stays fully usable.",
  ["histories", "inputs"], "all insert/find/delete/clear/swap histories and key orders, including repeated and missing keys",
  "Tests cover hand-built trees of a few nodes; deletion cases depend on shape and colour patterns they do not reach.",
  ["src/rbtree", "include/rcpr/rbtree.h"],
  [("insertion and search", "src/rbtree/rbtree_insert.c, rbtree_insert_node.c, rbtree_find_node.c"), ("deletion and transplant", "src/rbtree/rbtree_delete_node.c, rbtree_remove_node.c, rbtree_transplant.c"), ("ordered walks", "src/rbtree/rbtree_successor_node.c, rbtree_predecessor_node.c, rbtree_minimum_node.c, rbtree_maximum_node.c"), ("swap", "src/rbtree/rbtree_swap.c")],
  ["rbtree accessors"])

p("C08", "The tree stays balanced, so its depth is logarithmic",
  "After any history of insertions and deletions, the depth of the tree is at most twice the binary logarithm of its size plus one, and a lookup makes no more key comparisons than that. Parent, left and right links remain mutually consistent for every element.",
  ["histories", "inputs"], "all insertion and deletion histories, including ascending, descending and adversarial delete orders",
  "Tests check a handful of rotations and fix-up cases and never look at the resulting depth.",
  ["src/rbtree"],
  [("insert fix-up", "src/rbtree/rbtree_insert_fixup.c"), ("delete fix-up", "src/rbtree/rbtree_delete_fixup.c"), ("rotations", "src/rbtree/rbtree_left_rotate.c, rbtree_right_rotate.c")],
  ["root / left / right / parent accessors", "comparison callback counts"])

p("C09", "Releasing an object runs exactly its own release procedure",
  "Releasing any object through its resource handle runs that object's own release procedure exactly once with that object and returns that procedure's status, and conversions between an object and its resource handle are inverse. In a build with runtime checking of method tables, objects whose method table was registered are accepted, and an object whose method table lies outside the registered area is refused with the bad-table status and none of its methods is called.",
  ["inputs", "configurations", "histories"], "all resource types, user-defined resources, both settings of the runtime table check, and histories that re-initialise a resource's table",
  "Tests check the unchecked build with one hand-made resource; the enforcing configuration and refused tables are barely covered.",
  ["src/resource", "include/rcpr/resource.h", "include/rcpr/vtable.h", "src/allocator/allocator_reallocate.c"],
  [("table range check", "src/resource/resource_vtable_read.c"), ("release dispatch", "src/resource/resource_release.c"), ("resource initialisation", "src/resource/resource_init.c")],
  ["release handler calls", "status codes"])

p("C10", "Trimming, splitting and word scanning match their definitions on every string",
  "For every string, trimming removes exactly the leading and/or trailing whitespace, chomping removes exactly the final character, splitting cuts at the first delimiter, and multi-splitting and word scanning yield exactly the maximal runs their definitions give, then report end of input on every later call. Prefix and suffix tests answer exactly (an absent prefix always matches, an absent string starts with no string), and no function reads or writes outside the string and its terminator.",
  ["inputs"], "all strings of any length over all byte values, all delimiters and delimiter predicates",
  "The bounded model checks cap the string length at a few bytes, and the unit tests use fixed sentences.",
  ["src/string", "include/rcpr/string.h"],
  [("trimming", "src/string/left_trim.c, right_trim.c, trim.c, chomp.c"), ("splitting and scanning", "src/string/split.c, multisplit.c, words.c"), ("predicates", "src/string/is_whitespace.c, starts_with.c, ends_with.c")],
  ["buffer contents and returned slices"])

p("C11", "String duplication and concatenation build exactly the right string",
  "Duplicating a string or concatenating any number of strings produces a freshly allocated, terminated string equal to the input or to the concatenation in order, leaves the inputs unchanged, and allocates nothing else. Invalid input is refused with the documented status and no allocation.",
  ["inputs"], "all numbers of strings of any lengths and contents, including empty ones and no strings at all",
  "Tests concatenate two or three short words.",
  ["src/string/strdup.c", "src/string/vstrcat.c", "include/rcpr/string.h"],
  [("length computation and copy", "src/string/vstrcat.c"), ("duplicate", "src/string/strdup.c")],
  ["output string", "allocator balance"])

p("C12", "UUID text parsing and formatting are exact inverses and reject everything else",
  "Formatting a UUID and parsing the text gives back the same UUID, and parsing accepts exactly the canonical textual forms, in upper or lower case, with each byte in its place. Every other text is refused with the parse-failure status without changing the caller's UUID and without reading beyond the given text.",
  ["inputs"], "all 128-bit values and all texts, including near-miss mutations of valid ones and every length",
  "Tests parse a few fixed valid strings.",
  ["src/uuid", "include/rcpr/uuid.h"],
  [("raw parsing", "src/uuid/rcpr_uuid_parse_raw_string.c"), ("parsing with trimming of the terminator", "src/uuid/rcpr_uuid_parse_string.c"), ("formatting", "src/uuid/rcpr_uuid_to_string.c")],
  ["parsed value", "status codes"])

p("C13", "Byte-order conversion yields network order and inverts exactly",
  "Converting a 16-, 32- or 64-bit value to network order puts its most significant byte first in memory, converting back yields the original value, and byte-swapping reverses the bytes and is its own inverse.",
  ["inputs"], "all 16-bit values and all 32- and 64-bit values",
  "Tests check one constant per width.",
  ["src/socket_utilities", "include/rcpr/byteswap.h", "include/rcpr/socket_utilities.h"],
  [("conversions", "src/socket_utilities/socket_utility_hton16.c, socket_utility_hton32.c, socket_utility_hton64.c, socket_utility_ntoh16.c, socket_utility_ntoh32.c, socket_utility_ntoh64.c"), ("byte swap", "include/rcpr/byteswap.h")],
  ["returned values"])

p("C14", "Descriptor utilities leave exactly the requested descriptor table",
  "Moving descriptors above a threshold leaves every listed descriptor open on the same file at a number at or above the threshold and updates the caller's variables, and setting descriptors makes each requested number refer to the requested file; neither makes a descriptor close when a program is started. Closing the standard descriptors or all others closes exactly those named, and a created socket pair is connected both ways with the requested type; setting non-blocking mode makes reads and writes non-blocking and nothing else.",
  ["inputs", "configurations"], "all initial descriptor tables, listed descriptors, thresholds and target numbers, including overlaps and already-correct positions",
  "Tests use one or two freshly opened descriptors that never collide with the targets.",
  ["src/socket_utilities", "include/rcpr/socket_utilities.h"],
  [("moving", "src/socket_utilities/vsocket_utility_move_descriptors.c"), ("setting", "src/socket_utilities/vsocket_utility_setfds.c"), ("closing", "src/socket_utilities/socket_utility_close_other_fds.c, socket_utility_close_standard_fds.c"), ("socket pair and non-blocking mode", "src/socket_utilities/socket_utility_socketpair.c, socket_utility_set_nonblock.c")],
  ["the process descriptor table"])

p("C15", "An auto-reset trigger fires once per signal-and-step, to one listener",
  "A trigger that was signalled calls the registered listener exactly once, with the listener's own context, when it is next stepped, and then needs a new signal and a new registration; signals while already signalled collapse into one, a signal before registration is not lost, and stepping otherwise calls nothing. Registering while a listener is registered is refused and leaves the first listener in place.",
  ["histories"], "all histories of register, signal and step calls",
  "Tests follow a few fixed orders of the three calls.",
  ["src/auto_reset_trigger", "include/rcpr/auto_reset_trigger.h"],
  [("state machine", "src/auto_reset_trigger/auto_reset_trigger_register.c, auto_reset_trigger_signal.c, auto_reset_trigger_step.c")],
  ["callback invocations", "status codes"])

p("C16", "Typed values survive a trip over any stream, in the documented wire format",
  "Any sequence of typed values written to a stream is read back equal, in order, by the matching reads, over memory buffers, pipes, socket pairs, user-defined streams, buffered readers and asynchronous streams alike. The bytes on the wire are the documented ones: big-endian values, preceded for boxed values by the type tag and for strings and data by the length.",
  ["inputs", "histories"], "all sequences of raw and boxed values of every type, all value ranges and lengths, over every transport",
  "Tests write one value of one type with mocked transfers.",
  ["src/psock", "include/rcpr/psock.h"],
  [("raw codecs", "src/psock/psock_read_raw_*.c, psock_write_raw_*.c"), ("boxed codecs", "src/psock/psock_read_boxed_*.c, psock_write_boxed_*.c"), ("transports", "src/psock/psock_from_buffer_*.c, psock_from_descriptor_*.c, psock_br_psock_*.c, psock_wrap_async_*.c")],
  ["bytes written", "values read"])

p("C17", "Malformed or truncated input is refused cleanly",
  "Reading typed values from any byte string either yields exactly the value encoded there or fails with an error status: a wrong type tag is reported as an invalid type, a truncated value, an impossible length or a failing source as an error. A failing read never hands out a value or buffer, never leaks memory, never reads beyond the supplied bytes, and a correct prefix is still read correctly.",
  ["inputs", "fault_sequences"], "all byte strings and all truncation points, interpreted as any sequence of typed reads",
  "Tests try one wrong tag per type and a few truncations.",
  ["src/psock", "include/rcpr/psock.h"],
  [("tag and length validation", "src/psock/psock_read_boxed_string.c, psock_read_boxed_data.c, psock_read_boxed_int32.c"), ("short read detection", "src/psock/psock_read_raw_data.c, psock_read_raw.c, psock_from_buffer_read.c")],
  ["status codes", "output parameters", "allocator balance"])

p("C18", "Blocking stream I/O does not depend on how bytes are fragmented or interrupted",
  "Over a blocking descriptor, what a sequence of typed reads yields and what a sequence of writes delivers depends only on the bytes sent, not on how the kernel or the peer splits the transfers. A peer closing early turns into an error, never into wrong data or an endless loop.",
  ["schedules", "inputs", "fault_sequences"], "all fragmentations of the byte stream into partial reads and writes, and all closing points",
  "Tests use socket pairs where each value arrives in one piece.",
  ["src/psock/psock_from_descriptor_read.c", "src/psock/psock_from_descriptor_write.c", "src/psock/psock_read_raw_data.c", "src/psock/psock_write_raw_data.c", "src/psock/psock_read_raw.c"],
  [("read loop", "src/psock/psock_from_descriptor_read.c, psock_read_raw_data.c"), ("write loop", "src/psock/psock_write_raw_data.c, psock_from_descriptor_write.c")],
  ["values and bytes delivered", "status codes"])

p("C19", "Buffered reading returns exactly the stream's lines and bytes, in order",
  "Reading lines from a buffered reader over any stream yields exactly the stream's lines in order without their newline, terminated, with a line longer than the caller's buffer delivered in consecutive pieces each flagged as truncated, and a final line without newline delivered before the end is reported. Interleaving line reads with ordinary reads through the reader never loses, repeats or reorders a byte, however the source fragments its data.",
  ["inputs", "histories", "schedules"], "all byte streams, caller buffer sizes, interleavings of line and byte reads and source fragmentations",
  "Tests read two or three short lines that fit every buffer.",
  ["src/psock/psock_br_read_line.c", "src/psock/psock_br_fill.c", "src/psock/psock_br_psock_read.c", "src/psock/psock_br_create_from_psock.c"],
  [("line assembly", "src/psock/psock_br_read_line.c"), ("buffer fill and compaction", "src/psock/psock_br_fill.c"), ("byte reads through the adapter", "src/psock/psock_br_psock_read.c")],
  ["returned lines, sizes and statuses"])

p("C20", "Memory-backed streams hand out their input once and collect all output",
  "A stream over an input buffer delivers exactly the buffer's bytes in order, then reports end of stream, and never modifies the buffer; a stream collecting output returns, at any point, a buffer equal to the concatenation of everything written so far. Operations that do not apply to the stream's kind are refused with the documented status and have no effect.",
  ["histories", "inputs"], "all histories of writes of any size (including across the internal block size) and reads of any size, and all unsupported operations",
  "Tests write less than one internal block or one fixed larger size.",
  ["src/psock/psock_create_from_buffer.c", "src/psock/psock_from_buffer_read.c", "src/psock/psock_from_buffer_write.c", "src/psock/psock_from_buffer_get_output_buffer.c"],
  [("block list of output", "src/psock/psock_from_buffer_write.c"), ("assembly of the output", "src/psock/psock_from_buffer_get_output_buffer.c"), ("input cursor", "src/psock/psock_from_buffer_read.c")],
  ["bytes read and collected", "status codes"])

p("C21", "Descriptor passing and message transfer are exact and leak no descriptor",
  "A descriptor sent over a local datagram socket stream arrives as a new descriptor for the same open file, in order, interleaved with other messages whose bytes and sizes are delivered unchanged. Sending or receiving where it is not supported, or receiving a message without a descriptor, fails with the documented status, and no success or failure leaks or closes a descriptor it should not.",
  ["histories", "inputs"], "all sequences of descriptor and message sends and receives over stream and datagram local sockets, including malformed control data",
  "Tests pass one descriptor once.",
  ["src/psock/psock_read_raw_descriptor.c", "src/psock/psock_write_raw_descriptor.c", "src/psock/psock_from_descriptor_sendmsg.c", "src/psock/psock_from_descriptor_recvmsg.c"],
  [("control message building", "src/psock/psock_write_raw_descriptor.c"), ("control message parsing", "src/psock/psock_read_raw_descriptor.c"), ("message calls", "src/psock/psock_from_descriptor_sendmsg.c, psock_from_descriptor_recvmsg.c")],
  ["process descriptor table", "message bytes"])

p("C22", "User-defined streams see exactly the calls made on them",
  "A stream built from user methods forwards each operation to the user's method with the user's context, the same buffers and sizes, and returns the user's results unchanged; operations whose method was not supplied are refused as undefined without calling anything. Releasing the stream calls the user's release method exactly once and returns its status.",
  ["histories", "inputs", "configurations"], "all combinations of supplied and missing methods, all results those methods may return, and all call histories",
  "Tests supply one set of methods that always succeed.",
  ["src/psock/psock_create_from_user_methods.c", "src/psock/psock_accept.c", "src/psock/psock_setsockopt.c", "src/psock/psock_read_raw.c"],
  [("method forwarding", "src/psock/psock_create_from_user_methods.c"), ("missing method checks", "src/psock/psock_accept.c, psock_setsockopt.c, psock_read_raw_descriptor.c")],
  ["user method invocations", "status codes"])

p("C23", "A suspended fiber resumes exactly as it was, with exactly what was sent to it",
  "When a fiber yields and is later resumed, its local variables, callee-saved registers, floating-point control state and stack contents are unchanged and its stack is correctly aligned, however many other fibers ran in between, nested however deep. Its yield returns the resume event and parameter it was resumed with, the scheduler sees exactly the event and parameter it yielded, and a fiber's entry function receives its own context.",
  ["schedules", "programs"], "all interleavings of fiber programs with arbitrary live register and floating-point control state, call depth and stack size",
  "Tests switch between two or three fibers with trivial state in between.",
  ["src/fiber/platform/sysv/x86_64/fiber_switch.s", "src/fiber/platform/sysv/x86_64/fiber_make.s", "src/fiber/common/fiber_entry.c", "src/fiber/common/fiber_scheduler_yield.c", "src/fiber/common/fiber_create.c"],
  [("context switch", "src/fiber/platform/sysv/x86_64/fiber_switch.s"), ("initial frame", "src/fiber/platform/sysv/x86_64/fiber_make.s, src/fiber/common/fiber_entry.c"), ("event transport", "src/fiber/common/fiber_scheduler_yield.c")],
  ["values observed inside fibers"])

p("C24", "The disciplined scheduler runs fibers in the documented order, losing none",
  "Runnable fibers run in first-in first-out order; a fiber made next runs before all others, a fiber added to the scheduler or to the run queue runs exactly once per time it was queued with the event and parameter given, and nothing runs that was not made runnable. With nothing runnable the idle fiber runs if there is one and otherwise the caller is told the scheduler is exhausted; a fiber that stops with nothing left to run ends the process with a failure status. Bookkeeping queries (current fiber, main fiber, owner scheduler, fiber state) always agree with what is running.",
  ["schedules", "histories"], "all histories of adding, yielding, queueing, idling and stopping over any number of fibers",
  "Tests schedule at most two fibers in one fixed order.",
  ["src/fiber/common", "include/rcpr/fiber.h"],
  [("run queue handling", "src/fiber/common/fiber_scheduler_create.c, disciplined_fiber_scheduler_add_fiber_to_run_queue.c, disciplined_fiber_scheduler_set_next_fiber_to_run.c"), ("idle handling", "src/fiber/common/disciplined_fiber_scheduler_set_idle_fiber.c, disciplined_fiber_scheduler_idle_fiber_yield.c"), ("run and add", "src/fiber/common/fiber_scheduler_run.c, fiber_scheduler_add.c")],
  ["order of execution and events seen by fibers"])

p("C25", "Fiber lifecycle notices and shutdown requests reach exactly the right fibers",
  "A fiber waiting for management events learns of each fiber that was added or stopped while it waited, with that fiber's identity, and a removed fiber becomes the caller's to release. A quiesce or terminate request to one fiber reaches exactly that fiber if it is running and is otherwise refused as an invalid state, a request to all reaches every other running fiber added to the scheduler, except one waiting for management events, exactly once, and the requester is then told the result.",
  ["schedules", "histories"], "all histories of fiber creation, completion, management waits, removals and quiesce/terminate requests",
  "Tests issue one request against one waiting fiber.",
  ["src/fiber/common/disciplined_fiber_scheduler_receive_management_event.c", "src/fiber/common/disciplined_fiber_scheduler_remove_fiber.c", "src/fiber/common/disciplined_fiber_scheduler_send_quiesce_request_to_all.c", "src/fiber/common/disciplined_fiber_scheduler_send_terminate_request_to_all.c", "src/fiber/common/fiber_scheduler_create_with_disciplines.c"],
  [("management requests", "src/fiber/common/disciplined_fiber_scheduler_send_quiesce_request_to_fiber.c, disciplined_fiber_scheduler_send_terminate_request_to_fiber.c"), ("stop and add notices", "src/fiber/common/fiber_scheduler_create.c"), ("removal", "src/fiber/common/disciplined_fiber_scheduler_remove_fiber.c")],
  ["events received by fibers", "ownership after removal"])

p("C26", "Each yield reaches exactly the discipline and handler it names",
  "Every event a fiber yields to a discipline runs that discipline's handler for that event, with that discipline's context, the yielding fiber and the parameter given, for any number of registered disciplines in any order; an out-of-range event is refused. A registered discipline is found by its identifier and no other, a duplicate identifier is refused leaving both disciplines intact, an unregistered one is reported as not found, and everything registered is released with the scheduler.",
  ["histories", "inputs", "configurations"], "all sets of disciplines (count, sizes, identifiers, registration order) and all sequences of yields",
  "Tests register one discipline with one or two handlers.",
  ["src/fiber/common/fiber_scheduler_discipline_add.c", "src/fiber/common/fiber_scheduler_discipline_find.c", "src/fiber/common/fiber_discipline_yield.c", "src/fiber/common/fiber_scheduler_discipline_create.c"],
  [("handler vector and codes", "src/fiber/common/fiber_scheduler_discipline_add.c"), ("event translation", "src/fiber/common/fiber_discipline_yield.c, fiber_scheduler_create.c"), ("lookup", "src/fiber/common/fiber_scheduler_discipline_find.c")],
  ["handler invocations", "status codes"])

p("C27", "Events that interrupt a blocked operation go to the fiber's handler and obey it",
  "When a fiber blocked in stream I/O is resumed by an event it was not waiting for, the handler registered for the fiber the stream belongs to is called once with that event, its parameter, the awaited event and the handler's context; if the handler reports success the operation is retried and completes correctly, otherwise the operation returns the handler's status. Without a handler the operation reports that there is none; no byte is lost or duplicated in any case.",
  ["schedules", "histories"], "all placements and numbers of interrupting events during blocked operations, with every handler decision",
  "Tests deliver one out-of-band event to one blocked operation.",
  ["src/fiber/common/fiber_unexpected_event.c", "src/fiber/common/fiber_unexpected_event_callback_add.c", "src/psock/psock_read_block.c", "src/psock/psock_write_block.c"],
  [("handler dispatch", "src/fiber/common/fiber_unexpected_event.c"), ("retry loops", "src/psock/psock_read_block.c, psock_write_block.c"), ("registration", "src/fiber/common/fiber_unexpected_event_callback_add.c")],
  ["handler invocations", "results of the interrupted operation"])

p("C28", "Every message is delivered once, in order, to its mailbox, with ownership",
  "Messages sent to an open mailbox are received from it exactly once, in sending order, with their payload and return address unchanged, and a receiver on an empty mailbox sleeps until one is sent. Mailbox addresses are never reused, sending to or receiving from a closed or unknown mailbox fails leaving the message with the sender, a second receiver on one mailbox is refused, a receive interrupted by another event fails and takes no message, and closing a mailbox or ending the scheduler releases every undelivered message with its payload exactly once.",
  ["schedules", "histories"], "all interleavings of create, send, receive and close over any number of fibers and mailboxes",
  "Tests send one message between two fibers.",
  ["src/message", "include/rcpr/message.h"],
  [("send", "src/message/message_discipline_message_send_callback_handler.c"), ("receive", "src/message/message_discipline_message_receive_callback_handler.c"), ("mailbox lifetime", "src/message/message_discipline_mailbox_create_callback_handler.c, message_discipline_mailbox_close_callback_handler.c"), ("payload ownership", "src/message/message_payload.c, message_create.c")],
  ["messages received", "payload release counts", "status codes"])

p("C29", "Waiters on a condition wake exactly as notified, in order, and never otherwise",
  "A fiber waiting on a condition sleeps until notified: notifying one wakes exactly the longest-waiting fiber, notifying all wakes exactly the fibers then waiting in waiting order, and a notification with no waiter has no effect later. The notifier resumes after the fibers it woke, and a wait interrupted by another event fails and takes no notification. Handles are never reused and operations on a closed or unknown condition fail with an error and disturb no other condition.",
  ["schedules", "histories"], "all interleavings of create, wait, notify-one, notify-all and close over any number of fibers and conditions",
  "Tests use one waiter and one notification.",
  ["src/condition", "include/rcpr/condition.h"],
  [("wait", "src/condition/fiber/condition_discipline_wait_callback_handler.c"), ("notification", "src/condition/fiber/condition_discipline_notify_one_callback_handler.c, condition_discipline_notify_all_callback_handler.c"), ("handle lifetime", "src/condition/fiber/condition_discipline_create_callback_handler.c, condition_discipline_close_callback_handler.c")],
  ["wake order and statuses seen by fibers"])

p("C30", "Asynchronous streams deliver every byte, in order, to the right fiber",
  "With many fibers reading, writing and accepting on asynchronous streams, each blocked fiber sleeps without stopping the others and is resumed when its own descriptor becomes ready; every byte written arrives once, in order, on the right stream, whatever the kernel's partial transfers and readiness order. This holds for both readiness back ends, a reader and a writer may block on one stream at once while a second reader or writer is refused, and a closing peer ends the operation with an error instead of a hang.",
  ["schedules", "inputs", "configurations", "fault_sequences"], "all interleavings of fibers and peers, transfer fragmentations, numbers of streams and closing points, for both back ends",
  "Tests exchange a few bytes between two fibers on one socket pair.",
  ["src/psock/psock_wrap_async_read.c", "src/psock/psock_wrap_async_write.c", "src/psock/psock_wrap_async_accept.c", "src/psock/psock_read_block.c", "src/psock/psock_write_block.c", "src/psock/platform/epoll", "src/psock/platform/poll"],
  [("suspend and retry loops", "src/psock/psock_wrap_async_read.c, psock_wrap_async_write.c, psock_wrap_async_accept.c"), ("readiness wait", "src/psock/platform/epoll/psock_idle_fiber_entry.c, src/psock/platform/poll/psock_idle_fiber_entry.c"), ("registration of interest", "src/psock/platform/epoll/psock_fiber_scheduler_disciplined_read_wait_callback_handler.c")],
  ["bytes delivered per stream", "statuses", "fibers that ran"])

p("C31", "Threads, mutexes and condition variables give real mutual exclusion and joining",
  "At most one thread holds a mutex's lock at a time and everything done under the lock is seen by the next holder; waiting on a condition releases the lock while asleep and holds it again on return, signalling one wakes at least one waiter and signalling all wakes every waiter. A created thread runs its function exactly once with its context, and releasing it waits for it to finish and returns its status.",
  ["schedules", "histories"], "all thread interleavings of generated programs over locks, conditions, thread creation and release",
  "Tests start one thread and never contend for a lock.",
  ["src/platform/pthread/thread", "include/rcpr/thread.h"],
  [("locking", "src/platform/pthread/thread/thread_mutex_lock_acquire.c, thread_mutex_create.c"), ("condition variables", "src/platform/pthread/thread/thread_cond_wait.c, thread_cond_signal_one.c, thread_cond_signal_all.c"), ("thread lifetime", "src/platform/pthread/thread/thread_create.c")],
  ["shared counters and traces of the threads"])

p("C32", "Network streams connect, listen and accept as addressed",
  "A stream created by host name and port is connected to exactly the listener at that address, each accept on a listening stream yields a new descriptor connected to the next waiting peer with that peer's address, and bytes then flow both ways unchanged; socket options set through the stream take effect on its descriptor and the reported socket type is the descriptor's. Addresses that cannot be resolved, connected, bound or listened on are reported with the documented status and leak neither descriptor nor memory.",
  ["inputs", "histories", "fault_sequences"], "all numbers and orders of loopback connections, ports, host spellings, socket options, and failing system calls",
  "Tests never open a network connection.",
  ["src/psock/psock_create_from_hostname_and_port.c", "src/psock/psock_create_from_listen_address.c", "src/psock/psock_from_descriptor_accept.c", "src/psock/psock_from_descriptor_setsockopt.c", "src/psock/psock_socket_type.c", "src/psock/psock_create_from_descriptor.c"],
  [("connecting", "src/psock/psock_create_from_hostname_and_port.c"), ("listening", "src/psock/psock_create_from_listen_address.c"), ("accepting", "src/psock/psock_accept.c, psock_from_descriptor_accept.c"), ("options and type", "src/psock/psock_setsockopt.c, psock_from_descriptor_setsockopt.c, psock_socket_type.c")],
  ["accepted descriptors and addresses", "descriptor table", "status codes"])

p("C33", "Every component uses the memory source it was given, and gives back to it",
  "Each object's memory, and every block handed to the caller, is taken from the allocator given to the call that made it, or to the component that made it, and returned to the allocator it came from, whichever allocators the objects around it use. This holds for objects that hold, wrap, copy or swap with objects of other allocators, and for everything scheduled fibers exchange; an allocator that nothing uses any more may be released early, and a failing allocator affects only the calls it was given to. A request made to a user-made allocator reaches its method, and the answer its caller, unchanged; a control request to one without a control method is refused as an invalid key. A number has at least the bits asked for, all zero, and a copy of a number has the same digits.",
  ["histories", "inputs", "configurations"], "all histories over containers, strings, numbers, streams, readers, threads, fibers, messages and conditions made from any mix of allocators",
  "Tests use one allocator for everything, for which a block returned to the wrong source is indistinguishable.",
  ["include/rcpr/allocator.h", "src/allocator", "src/list", "src/slist", "src/queue", "src/rbtree", "src/string", "src/bigint", "src/psock", "src/fiber", "src/message", "src/condition"],
  [("copies and outputs", "src/bigint/bigint_clone.c, src/string/strdup.c, src/psock/psock_read_boxed_string.c, src/psock/psock_from_buffer_get_output_buffer.c"), ("swapped containers", "src/list/list_swap.c, src/slist/slist_swap.c, src/rbtree/rbtree_swap.c"), ("wrapping objects", "src/psock/psock_br_create_from_psock.c, src/psock/psock_create_wrap_async.c"), ("fibers", "src/fiber/common/fiber_create.c, src/stack")],
  ["calls of the allocator method tables", "block contents", "status codes"])

p("C34", "Objects that share nothing do not affect one another",
  "What a program observes of one component instance (a container, a string iteration, a stream, a buffered reader, a connection by name, a scheduler with its fibers, disciplines, mailboxes and conditions) depends only on the calls made on it and on the objects it was given. Operations on unrelated instances that come between these calls, run inside their callbacks or fibers, happen before or after in the same process, or run at the same time in other threads do not change any result, and two threads that share no instance need no locking.",
  ["histories", "schedules"], "all sets of unrelated instances, all interleavings of their operations on one thread (including operations made from inside callbacks and fibers of another instance), and all concurrent executions in threads of their own",
  "Tests exercise one instance at a time in one thread, so state that is accidentally shared between instances or threads is never seen.",
  ["src", "include/rcpr"],
  [("string iteration", "src/string/words.c, src/string/multisplit.c"), ("name lookup", "src/psock/psock_create_from_hostname_and_port.c"), ("scheduler and discipline state", "src/fiber/common, src/message, src/condition"), ("readiness wait", "src/psock/platform/epoll/psock_idle_fiber_entry.c, src/psock/platform/poll"), ("container state", "src/rbtree, src/list, src/slist, src/queue")],
  ["return values", "contents", "order of callbacks and fibers", "data races between threads"])

p("C35", "An allocator's refusal to take memory back is reported and does no further harm",
  "When the allocator refuses to take a block back while a container, number, trigger, thread object, stream, buffered reader or message is released, cleared, or has an element removed, that call reports a failure, never success. No block is given back twice unless it was refused, no other block of a container is forgotten, a removal that fails in this way hands out nothing and releases the removed element exactly once, the container stays valid, and every element is still released exactly once, at the latest when a failing clear or release is repeated. A creation that fails reports failure even when its clean-up is refused.",
  ["histories", "fault_sequences"], "all objects of the kinds named with any contents, all container histories, and all sets of refused and failing allocator calls",
  "Tests never use an allocator that refuses, so the handling of a failing reclaim is never executed.",
  ["src/list", "src/slist", "src/queue", "src/rbtree", "src/bigint", "src/psock", "src/message", "src/platform/pthread", "src/auto_reset_trigger"],
  [("removals", "src/list/list_pop.c, src/slist/slist_pop.c, src/slist/slist_node_next_pop.c, src/rbtree/rbtree_delete.c"), ("node release", "src/list/list_node_release.c, src/slist/slist_node_release.c, src/rbtree/rbtree_node_create.c, src/rbtree/rbtree_delete_nodes.c"), ("composite release", "src/queue/queue_create.c, src/psock/psock_from_buffer_release.c, src/psock/psock_br_release.c, src/message/message_create.c"), ("creation clean-up", "src/bigint/bigint_create_zero.c, src/rbtree/rbtree_create.c, src/psock/psock_create_from_buffer.c")],
  ["status codes", "calls of the allocator's reclaim method", "release handler calls"])

p("C36", "A scheduler obeys its user's callback and tells it everything",
  "A scheduler made around a user's callback calls it exactly once for the main fiber, for each added fiber, each yield, each run call, each fiber that returns and the release, with the user's context, the yielding fiber, the event and the parameter, and then runs exactly the fiber the callback chose, with the event, identifier and parameter it gave. A status with which the callback refuses is the result of the refused call: the caller goes on, a refused fiber still belongs to the caller and can be added again, and a scheduler whose callback refuses or does not resume the main fiber is not made and leaves nothing behind. Fiber states are reported correctly throughout; registering or finding a discipline with such a scheduler is refused without effect. The callback's answer to the release is the release's result.",
  ["programs", "fault_sequences"], "all programs of fibers over a scheduler with a user callback, all answers that callback may give, and failing allocations during creation",
  "Tests use a callback that always succeeds and switches between two fibers.",
  ["src/fiber/common/fiber_scheduler_create.c", "src/fiber/common/fiber_scheduler_add.c", "src/fiber/common/fiber_scheduler_yield.c", "src/fiber/common/fiber_scheduler_run.c", "src/fiber/common/fiber_entry.c", "src/fiber/common/fiber_scheduler_resource_release.c"],
  [("creation", "src/fiber/common/fiber_scheduler_create.c"), ("callback calls and switches", "src/fiber/common/fiber_scheduler_yield.c, fiber_scheduler_add.c, fiber_scheduler_run.c"), ("end of a fiber", "src/fiber/common/fiber_entry.c"), ("release", "src/fiber/common/fiber_scheduler_resource_release.c")],
  ["callback arguments", "status codes", "which fiber runs", "fiber states", "allocator ledger"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
