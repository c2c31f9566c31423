"""What each check runs: harness, build variant, number of cases per tier."""
ASSUME = ["the compiler, the sanitizers and the kernel are trusted", "sampled search: what was not generated is not covered"]

def R(h, v="asan", q=100000, t=2000000, **k):
    return dict(h=h, v=v, q=q, t=t, **k)

SPECS = {
    "C05": dict(runs=[R("c05_list", q=600000, t=20000000)],
                technique="stateful property-based testing against a sequence model (coverage-guided, ASan)",
                note="Random and coverage-mutated operation histories compared step by step with a vector model; memory errors and leaks counted as failures. Shows absence only on what was generated."),
}
SPECS["C06"] = dict(runs=[R("c06_slist", q=600000, t=20000000)],
    technique="stateful property-based testing against sequence models (coverage-guided, ASan)",
    note="Random and coverage-mutated operation histories over singly linked lists and queues compared step by step with vector models; memory errors and leaks count as failures.")
SPECS["C08"] = dict(runs=[R("c08_balance", q=40000, t=1500000)],
    technique="stateful property-based testing with an adaptive adversary and a depth / comparison-count invariant (coverage-guided, ASan)",
    note="Insert/delete histories, including ones steered by the current tree shape, with depth, links and lookup comparisons measured after each phase.")
SPECS["C07"] = dict(runs=[R("c07_rbtree", q=150000, t=5000000)],
    technique="stateful property-based testing against a map model (coverage-guided, ASan)",
    note="Operation histories over up to three trees compared after every step with a std::multimap; walks, lookups, counts and releases all checked.")
SPECS["C02"] = dict(runs=[R("c02_ownership", q=200000, t=8000000)],
    technique="stateful property-based testing with an ownership model and injected release failures (coverage-guided, ASan)",
    note="Histories over all containers with counted releases; memory balance checked at the end of each case.")
SPECS["C01"] = dict(runs=[R("c01_alloc", q=350000, t=12000000)],
    technique="stateful property-based testing with pattern-filled blocks, a placement oracle and injected out-of-memory (coverage-guided, ASan)",
    note="Histories of allocator calls; every live block's contents, bounds and disjointness re-checked after each step.")
SPECS["C10"] = dict(runs=[R("c10_strings", q=1000000, t=40000000)],
    technique="property-based testing against direct definitions of each string function (coverage-guided, ASan)",
    note="Generated strings in exactly sized memory; results compared with independent definitions, out-of-bounds accesses caught by ASan and guards.")
SPECS["C11"] = dict(runs=[R("c11_strdup", q=1000000, t=40000000)],
    technique="property-based testing against std::string concatenation with injected out-of-memory (coverage-guided, ASan)",
    note="Generated argument lists through both calling forms; allocation count, size, content and inputs checked.")
SPECS["C12"] = dict(runs=[R("c12_uuid", q=700000, t=30000000)],
    technique="property-based testing: round trip plus mutation of canonical texts against an independent parser (coverage-guided, ASan)",
    note="Canonical texts and generated edits of them in exactly sized memory, through both parsers.")
SPECS["C13"] = dict(runs=[R("c13_byteorder", q=2000000, t=60000000)],
    technique="property-based testing: in-memory byte order, round trip and involution; 16 bit values swept exhaustively",
    note="All 65536 16-bit values are visited many times over; wider values are sampled.")
SPECS["C14"] = dict(runs=[R("c14_fds", q=20000, t=600000)],
    technique="stateful property-based testing of a forked process's descriptor table against a table model (file identity and flags)",
    note="Descriptor tables and calls are generated, each case runs in its own process and the whole table is compared afterwards.")
SPECS["C09"] = dict(runs=[R("c09_resource", q=300000, t=10000000), R("c09_resource", "vte", q=300000, t=10000000)],
    technique="property-based testing: generated objects, method tables and release orders against a recording oracle, in the normal and the table-checking build (coverage-guided, ASan)",
    note="Every kind of library object is made, released and accounted for; forged method tables are presented to every dispatching call of the checking build.")
SPECS["C15"] = dict(runs=[R("c15_trigger", q=1500000, t=60000000)],
    technique="stateful property-based testing against a two-state model (coverage-guided, ASan)",
    note="Signal/register histories with deliveries compared with a model after every call.")
SPECS["C16"] = dict(runs=[R("c16_typed", q=350000, t=14000000)],
    technique="property-based testing: round trip over every kind of stream plus an independent encoder for the wire form (coverage-guided, ASan)",
    note="Generated value sequences through memory, pipe, socket, user-method, buffered and asynchronous streams; bytes on the wire compared with an independent encoder.")
SPECS["C17"] = dict(runs=[R("c17_malformed", q=1000000, t=40000000)],
    technique="fuzzing of the typed readers with structured mutations against an independent decoder (coverage-guided, ASan)",
    note="Valid encodings, mutations, truncations and raw bytes read through memory, user-method and buffered streams; each result compared with an independent decoder.")
SPECS["C18"] = dict(runs=[R("c18_fragment", q=500000, t=20000000)],
    technique="metamorphic property-based testing: injected partial transfers, interruptions and early closing must not change what is transferred (coverage-guided, ASan)",
    note="The kernel's read and write results are generated; results compared with the unfragmented transfer.")
SPECS["C19"] = dict(runs=[R("c19_reader", q=200000, t=8000000)],
    technique="stateful property-based testing of the buffered reader against a byte sequence model (coverage-guided, ASan)",
    note="Interleaved line and byte reads with generated buffer sizes, over generated fragmentations of the source.")
SPECS["C20"] = dict(runs=[R("c20_buffers", q=180000, t=7000000)],
    technique="stateful property-based testing of memory streams against byte vectors (coverage-guided, ASan)",
    note="Histories of reads, writes and snapshots across internal block sizes, with all inapplicable operations.")
SPECS["C21"] = dict(runs=[R("c21_descriptors", q=180000, t=7000000)],
    technique="stateful property-based testing against a queue-of-messages model and the process's descriptor table (coverage-guided, ASan)",
    note="Message and descriptor transfers over real local sockets, including malformed control data; file identity and the whole descriptor table are checked.")
SPECS["C22"] = dict(runs=[R("c22_user", q=900000, t=30000000)],
    technique="property-based testing with recording user methods over all method combinations (coverage-guided, ASan)",
    note="Every call a user method receives and every result passed back is compared with what was asked and answered.")
SPECS["C23"] = dict(runs=[R("c23_context", q=100000, t=4000000), R("c23_context", "plain", q=120000, t=5000000)],
    technique="stateful property-based testing of generated fiber programs with register, floating-point and stack oracles (coverage-guided; ASan and plain builds)",
    note="Every suspended fiber's registers, floating-point control state, alignment and stack contents are re-checked when it resumes.")
SPECS["C24"] = dict(runs=[R("c24_order", q=100000, t=4000000)],
    technique="model-based property testing: generated fiber programs against a run-queue model, step by step (coverage-guided, ASan)",
    note="Each resumption (which fiber, which event, which parameter) is predicted by the model; the last-fiber-stops case runs in a forked process.")
SPECS["C25"] = dict(runs=[R("c25_management", q=100000, t=4000000)],
    technique="model-based property testing: generated lifecycle and shutdown histories against a model (coverage-guided, ASan)",
    note="Each management event, shutdown request and removal is predicted by the model.")
SPECS["C26"] = dict(runs=[R("c26_disciplines", q=100000, t=4000000)],
    technique="model-based property testing: generated discipline sets and yields against a dispatch model (coverage-guided, ASan)",
    note="Each handler call (discipline, event, fiber, parameter) is predicted by the model, together with registration, lookup and release.")
SPECS["C27"] = dict(runs=[R("c27_unexpected", q=25000, t=1500000), R("c27_unexpected", "asanpoll", q=20000, t=1500000)],
    technique="stateful property-based testing: interrupting events injected into generated asynchronous I/O programs, both readiness back ends (coverage-guided, ASan)",
    note="A controller fiber interrupts fibers that sleep in stream I/O; handler calls, results and every byte are checked against what the kernel was given.")
SPECS["C28"] = dict(runs=[R("c28_messages", q=90000, t=4000000)],
    technique="model-based property testing: generated fiber programs against a mailbox model (coverage-guided, ASan)",
    note="Each send, receive and close is predicted by a queue-per-mailbox model at the moment of the call; payload releases and memory are balanced at the end.")
SPECS["C29"] = dict(runs=[R("c29_conditions", q=90000, t=4000000)],
    technique="model-based property testing: generated fiber programs against a wait-queue model (coverage-guided, ASan)",
    note="Who wakes, in which order and with which result is predicted by a queue-per-condition model at the moment of each call.")
SPECS["C30"] = dict(runs=[R("c30_async", q=18000, t=1200000), R("c30_async", "asanpoll", q=15000, t=1200000)],
    technique="stateful property-based testing of generated fiber and peer programs with injected kernel behaviour, both readiness back ends (coverage-guided, ASan)",
    note="Bytes, ends of streams, refusals, accepted peers and resumptions are compared with a log of what the kernel accepted and delivered; peers act only while every fiber sleeps, so a lost wake-up shows as a deadlock and a busy loop as no progress.")
SPECS["C31"] = dict(runs=[R("c31_threads", q=100000, t=6000000), R("c31_threads", "tsan", q=60000, t=3000000, repro=1, attempts=20)],
    technique="property-based testing of generated threaded programs over generated schedules (modelled primitives, replayable), plus free-running programs under ThreadSanitizer",
    note="Scheduled runs serialise the library's pthread calls so that every switch is a generated, shrinkable choice and stuck states are deadlocks; free runs let the real primitives order accesses to plain shared data. Free-running failures may need several attempts to replay.")
SPECS["C32"] = dict(runs=[R("c32_network", q=80000, t=4000000)],
    technique="stateful property-based testing over the loopback network against a connection model, with failing system calls and names (coverage-guided, ASan)",
    note="Connections by name and port must appear at exactly the listener with that address, in order, with their own addresses; options are compared with the kernel's own answers; the descriptor table is compared after every call.")
SPECS["C03"] = dict(runs=[R("c03_oom", q=350000, t=15000000)],
    technique="stateful property-based testing with generated allocation-failure plans against models of every structure (coverage-guided, ASan)",
    note="One, two or a stretch of allocation failures at generated positions; after every failure all structures are compared with their models and the operation is retried with memory. Small bump regions serve as a second, really exhausted source of memory.")
SPECS["C04"] = dict(runs=[R("c04_fiber_oom", q=40000, t=2000000), R("c04_fiber_oom", "asanpoll", q=25000, t=1200000)],
    technique="stateful property-based testing of generated fiber programs with generated allocation, mapping and polling-descriptor failures against models (coverage-guided, ASan, both readiness back ends)",
    note="Fiber programs over messages, conditions, management and stream I/O, and constructor sweeps, with failure plans at generated positions; after each failure mailboxes, waiters, run order and memory balance are compared with the model.")
SPECS["C33"] = dict(runs=[R("c33_sources", q=40000, t=2000000), R("c33_sources", "asanpoll", q=20000, t=1000000)],
    technique="stateful property-based testing with caller-made allocators and a ledger of who gave what to whom (coverage-guided, ASan, both readiness back ends)",
    note="Histories over objects of two to five allocators of the caller's own; each allocation, resize and return is checked against a ledger, blocks are filled with rubbish, moved when resized, and allocators nothing uses are released early.")
SPECS["C34"] = dict(runs=[R("c34_independent", q=40000, t=3000000), R("c34_independent", "asanpoll", q=15000, t=1000000),
                          R("c34_independent", "tsan", q=5000, t=300000, repro=1, attempts=20), R("c34_independent", "tsanpoll", q=3000, t=150000, repro=1, attempts=20)],
    technique="metamorphic property-based testing: generated programs run alone and then interleaved (nested in each other's callbacks and fibers) or in threads under ThreadSanitizer must observe the same",
    note="Each worker's transcript when it runs alone is the oracle for its transcript among others; thread runs add a happens-before race detector. Free-running failures may need several attempts to replay.")
SPECS["C35"] = dict(runs=[R("c35_reclaim", q=2500000, t=100000000)],
    technique="stateful property-based testing with a caller-made allocator that refuses to take blocks back at generated calls (coverage-guided, ASan)",
    note="Objects of 17 kinds are made and released, and container histories run, while reclaim calls fail; statuses, releases of elements, container contents and the ledger of blocks are checked after each call.")
SPECS["C36"] = dict(runs=[R("c36_callback", q=500000, t=20000000)],
    technique="stateful property-based testing of generated fiber programs over a checking, at times refusing user callback (coverage-guided, ASan)",
    note="The callback knows what it must be called with and decides at random whom to resume or whether to refuse; results, states, ownership and release are compared after each call.")
