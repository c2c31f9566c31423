// C34: objects that share nothing do not affect one another.
//
// A case makes two to five workers.  Each is a fixed program over objects of
// its own and writes down everything the library tells it.  What a worker
// writes down when it runs alone must be what it writes down
//  * when the workers' steps are interleaved in a generated order on one
//    thread, steps of one also running inside callbacks and fibers of another;
//  * when each worker runs in a thread of its own (ThreadSanitizer runs).
#include "streams.hpp"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <functional>
#include <memory>
namespace vp {
const char* const PROPERTY = "C34";
const char* const RULE = "a case is two to five workers of up to 40 steps each (containers; strings and identifiers; streams; a scheduler with fibers, mailboxes, conditions, a discipline and asynchronous streams; connections by name), each run alone and then together, interleaved step by step in a generated order with steps nested in each other's callbacks and fibers, or all at once in threads of their own; what each observes must be the same; non-trivial = at least two workers changed places three times or more (or ran in two threads)";
const std::vector<Probe> PROBES;
void setup() {}
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define THREADS 1
#endif
#endif
#ifndef THREADS
#define THREADS 0
#endif
namespace {
struct Op { uint32_t k, a, b; };
struct Wk;
struct It { rc_resource hdr; int id, key; Wk* w; int released; };
std::vector<Wk*>* together; // the workers being interleaved, or null
FILE* const echo = getenv("VP_ECHO") ? fopen(getenv("VP_ECHO"), "w") : nullptr;
int alternations, nested, depth; Wk* last;
// an allocator over a fixed region that gives out the block it got back last
struct Arena {
    rc_resource hdr; void* context; char *at, *end; std::vector<char*>* bin;
    rc_allocator* open(char* r, size_t n);
};
status ar_alloc(rc_allocator* x, void** p, size_t n) {
    Arena* a = (Arena*)x; n = (n + 31) / 16; if (n >= 4096) return ERROR_GENERAL_OUT_OF_MEMORY;
    if (!a->bin[n].empty()) { *p = a->bin[n].back(); a->bin[n].pop_back(); return STATUS_SUCCESS; }
    if ((size_t)(a->end - a->at) < n * 16) return ERROR_GENERAL_OUT_OF_MEMORY;
    *(size_t*)a->at = n; *p = a->at + 16; a->at += n * 16; return STATUS_SUCCESS;
}
status ar_reclaim(rc_allocator* x, void* p) { Arena* a = (Arena*)x; char* c = (char*)p; size_t n = *(size_t*)(c - 16); memset(c, 0xdd, n * 16 - 16); a->bin[n].push_back(c); return STATUS_SUCCESS; }
status ar_realloc(rc_allocator* x, void** p, size_t n) {
    size_t old = *(size_t*)((char*)*p - 16) * 16 - 16; void* q = nullptr; status r = ar_alloc(x, &q, n); if (r) return r;
    memcpy(q, *p, std::min(n, old)); (void)ar_reclaim(x, *p); *p = q; return STATUS_SUCCESS;
}
status ar_control(rc_allocator*, int, void*, size_t) { return ERROR_GENERAL_OUT_OF_MEMORY; }
status ar_release(rc_resource*) { return STATUS_SUCCESS; }
RCPR_VTABLE rc_allocator_vtable ar_vtable = { { &ar_release }, &ar_alloc, &ar_reclaim, &ar_realloc, &ar_control };
rc_allocator* Arena::open(char* r, size_t n) { rc_resource_init(&hdr, &ar_vtable.hdr); context = nullptr; at = r; end = r + n; if (!bin) bin = new std::vector<char*>[4096]; for (int i = 0; i < 4096; i++) bin[i].clear(); return (rc_allocator*)this; }
struct Wk {
    int idx = 0, kind = 0; std::vector<Op> ops; size_t at = 0; std::string t; bool busy = false, finished = false;
    rc_allocator* a = nullptr; int mem = 0; std::deque<It> its;
    virtual ~Wk() {}
    virtual void create() = 0; virtual void exec(const Op&) = 0; virtual void destroy() = 0;
    __attribute__((format(printf, 2, 3))) void tr(const char* f, ...) { char b[160]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); t += b; t += '\n'; if (echo) fprintf(echo, "[%d] %s\n", idx, b), fflush(echo); }
    void bytes(const char* what, const void* p, size_t n) { uint32_t h = 2166136261u; for (size_t i = 0; i < n; i++) h = (h ^ ((const uint8_t*)p)[i]) * 16777619u; tr("%s: %zu bytes %08x", what, n, h); }
    void step() {
        if (together) { if (last && last != this) alternations++; last = this; }
        busy = true; depth += together != nullptr;
        if (at == 0) { make(); create(); }
        else if (at <= ops.size()) { exec(ops[at - 1]); }
        else { destroy(); OK(rc_resource_release(rc_allocator_resource_handle(a))); a = nullptr; finished = true; }
        at++; busy = false; depth -= together != nullptr;
    }
    void make() {
        if (mem == 0) { OK(rc_malloc_allocator_create(&a)); return; }
        // always the same memory, so that what is made later often has the address of something made before
        static char region[5][1 << 21] __attribute__((aligned(64))); static Arena arenas[5];
        if (mem == 1) OK(rc_bump_allocator_create(&a, region[idx], sizeof region[idx])); else a = arenas[idx].open(region[idx], sizeof region[idx]);
    }
    It* item(int key) { its.push_back(It{}); It* i = &its.back(); i->id = (int)its.size() - 1; i->key = key; i->w = this; init(i); return i; }
    void init(It* i);
};
// a place at which another worker may take its next steps
void hook() {
    if (!together || depth > 3) return;
    while (g.chance(1, 4)) {
        std::vector<Wk*> c; for (auto* x : *together) if (!x->busy && !x->finished) c.push_back(x);
        if (c.empty()) return;
        Wk* back = last; nested++; c[g.below(c.size())]->step(); if (last != back) { last = back; alternations++; }
    }
}
status it_release(rc_resource* r) { It* i = (It*)r; i->released++; CHECK(i->released == 1, "an element was released %d times", i->released); i->w->tr("released %d", i->id); hook(); return STATUS_SUCCESS; }
RCPR_VTABLE rc_resource_vtable it_vtable = { &it_release };
void Wk::init(It* i) { rc_resource_init(&i->hdr, &it_vtable); }
rc_resource* res(It* i) { return &i->hdr; }
struct Rnd { uint64_t s; uint32_t operator()(uint32_t n) { s = s * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)((s >> 33) % n); } };

// ---- containers, triggers, integers, stacks, mutexes
struct Cont : Wk {
    rc_list* l[2] = {}; rc_slist* s[2] = {}; rc_queue* q = nullptr; rc_rbtree* m[2] = {}; rc_auto_reset_trigger* tg = nullptr; std::vector<rc_bigint*> big; rc_thread_mutex* mx = nullptr; rc_thread_cond* cv = nullptr; rc_thread_mutex_lock* held = nullptr; int armed = 0;
    static rc_rcpr_comparison_result cmp(void* c, const void* x, const void* y) { Cont* w = (Cont*)c; int a = *(const int*)x, b = *(const int*)y; w->compares++; hook(); return a < b ? RCPR_COMPARE_LT : a > b ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ; }
    static const void* key(void* c, const rc_resource* r) { It* i = (It*)r; CHECK(i->w == (Cont*)c, "a tree was given another tree's context"); return &i->key; }
    static void fire(void* c) { Cont* w = (Cont*)c; w->tr("trigger"); w->armed = 0; hook(); }
    int compares = 0;
    void create() override {
        for (int i = 0; i < 2; i++) { OK(rc_list_create(&l[i], a)); OK(rc_slist_create(&s[i], a)); OK(rc_rbtree_create(&m[i], a, &cmp, &key, this)); }
        OK(rc_queue_create(&q, a)); OK(rc_auto_reset_trigger_create(&tg, a)); if (mem != 1) { OK(rc_thread_mutex_create(&mx, a)); OK(rc_thread_cond_create(&cv, a)); }
    }
    void gone(const char* what, status r, rc_resource* x) { if (r != STATUS_SUCCESS) { tr("%s: %08x", what, (unsigned)r); return; } It* i = (It*)x; tr("%s: %d", what, x ? i->id : -1); if (x) { CHECK(i->w == this, "a container gave out another container's element"); OK(rc_resource_release(x)); } }
    void exec(const Op& o) override {
        int i = o.a & 1; rc_resource* r = nullptr; int k = (int)(o.b % 24);
        switch (o.k % 17) {
        case 0: { It* e = item(k); tr("list %08x", (unsigned)(o.b & 64 ? rc_list_insert_head(l[i], res(e)) : rc_list_append_tail(l[i], res(e)))); break; }
        case 1: gone("list pop", rc_list_pop(l[i], &r), r); break;
        case 2: { It* e = item(k); tr("slist %08x", (unsigned)(o.b & 64 ? rc_slist_insert_head(s[i], res(e)) : rc_slist_append_tail(s[i], res(e)))); break; }
        case 3: gone("slist pop", rc_slist_pop(s[i], &r), r); break;
        case 4: { It* e = item(k); tr("queue %08x", (unsigned)(o.b & 64 ? rc_queue_insert(q, res(e)) : rc_queue_append(q, res(e)))); break; }
        case 5: gone("queue pop", rc_queue_pop(q, &r), r); break;
        case 6: case 7: { It* e = item(k); tr("tree %08x", (unsigned)rc_rbtree_insert(m[i], res(e))); break; }
        case 8: { status x = rc_rbtree_find(&r, m[i], &k); tr("find %08x %d", (unsigned)x, x ? -1 : ((It*)r)->id); break; }
        case 9: { status x = rc_rbtree_delete(&r, m[i], &k); gone("tree delete", x, r); break; }
        case 10: {
            rc_list_node* n = nullptr; std::string z; if (!rc_list_head(&n, l[i])) while (n) { rc_resource* c = nullptr; OK(rc_list_node_child(&c, n)); z += std::to_string(((It*)c)->id) + " "; rc_list_node* y = nullptr; if (rc_list_node_next(&y, n)) break; n = y; }
            tr("list has %zu: %.100s", rc_list_count(l[i]), z.c_str()); break;
        }
        case 11: {
            rc_slist_node* n = nullptr; std::string z; if (!rc_slist_head(&n, s[i])) while (n) { rc_resource* c = nullptr; OK(rc_slist_node_child(&c, n)); z += std::to_string(((It*)c)->id) + " "; rc_slist_node* y = nullptr; if (rc_slist_node_next(&y, n)) break; n = y; }
            tr("slist has %zu: %.100s", rc_slist_count(s[i]), z.c_str()); break;
        }
        case 12: {
            std::string z; rc_rbtree_node *nil = rc_rbtree_nil_node(m[i]), *n = rc_rbtree_root_node(m[i]);
            if (n != nil) for (n = rc_rbtree_minimum_node(m[i], n); n != nil; n = rc_rbtree_successor_node(m[i], n)) z += std::to_string(((It*)rc_rbtree_node_value(m[i], n))->id) + " ";
            tr("tree has %zu: %.100s", rc_rbtree_count(m[i]), z.c_str()); break;
        }
        case 13: switch (o.b % 6) { case 0: tr("clear %08x", (unsigned)rc_list_clear(l[i])); break; case 1: tr("clear %08x", (unsigned)rc_slist_clear(s[i])); break; case 2: tr("clear %08x", (unsigned)rc_rbtree_clear(m[i])); break; case 3: rc_list_swap(l[0], l[1]); break; case 4: rc_slist_swap(s[0], s[1]); break; default: rc_rbtree_swap(m[0], m[1]); } break;
        case 14: switch (o.b % 3) {
            case 0: if (!armed) { status x = rc_auto_reset_trigger_register(tg, &fire, this); tr("register %08x", (unsigned)x); armed = 1; } break;
            case 1: rc_auto_reset_trigger_signal(tg); tr("signal"); break;
            default: rc_auto_reset_trigger_step(tg); tr("step"); } break;
        case 15: if (big.size() < 4) { rc_bigint* b = nullptr; if (big.empty() || (o.b & 1)) OK(rc_bigint_create_zero(&b, a, 64 + o.b % 512)); else OK(rc_bigint_clone(&b, a, big[o.b % big.size()])); big.push_back(b); } else { OK(rc_resource_release(rc_bigint_resource_handle(big.back()))); big.pop_back(); } tr("integers %zu", big.size()); break;
        default:
            if (!mx) break;
            if (held) { if (o.b & 1) tr("wake %08x", (unsigned)(o.b & 2 ? rc_thread_cond_signal_one(held, cv) : rc_thread_cond_signal_all(held, cv))); OK(rc_resource_release(rc_thread_mutex_lock_resource_handle(held))); held = nullptr; tr("unlock"); }
            else { tr("lock %08x", (unsigned)rc_thread_mutex_lock_acquire(&held, mx)); }
        }
        tr("compares %d", compares);
    }
    void destroy() override {
        if (held) OK(rc_resource_release(rc_thread_mutex_lock_resource_handle(held)));
        for (int i = 0; i < 2; i++) { OK(rc_resource_release(rc_list_resource_handle(l[i]))); OK(rc_resource_release(rc_slist_resource_handle(s[i]))); OK(rc_resource_release(rc_rbtree_resource_handle(m[i]))); }
        OK(rc_resource_release(rc_queue_resource_handle(q))); OK(rc_resource_release(rc_auto_reset_trigger_resource_handle(tg)));
        for (auto* b : big) OK(rc_resource_release(rc_bigint_resource_handle(b)));
        if (mx) { OK(rc_resource_release(rc_thread_cond_resource_handle(cv))); OK(rc_resource_release(rc_thread_mutex_resource_handle(mx))); }
        for (auto& i : its) tr("%d: %d", i.id, i.released);
    }
};
// ---- strings and identifiers
bool upper(int c) { return c >= 'A' && c <= 'Z'; }
bool comma(int c) { return c == ',' || c == ';'; }
struct Str : Wk {
    struct Scan { std::string s; rc_string_iterator it; bool open = false, fresh = false; int kind = 0; };
    Scan sc[4]; std::deque<std::string> text;
    std::string gen(uint32_t a) { Rnd r{a}; std::string s; size_t n = r(40); for (size_t i = 0; i < n; i++) s += "ab ,;X Y\tz"[r(10)]; return s; }
    void create() override {}
    void drop(char* p) { OK(rc_allocator_reclaim(a, p)); }
    void exec(const Op& o) override {
        Scan& s = sc[o.b % 4];
        switch (o.k % 9) {
        case 0: s.s = gen(o.a); s.open = s.fresh = true; s.kind = (int)(o.a >> 8) % 3; tr("scan %d", s.kind); break;
        case 1: case 2: case 3: {
            if (!s.open) break;
            const char* w = nullptr; char* arg = s.fresh ? &s.s[0] : nullptr; status r;
            r = s.kind == 0 ? rc_words(&w, &s.it, arg) : rc_multisplit(&w, &s.it, arg, s.fresh ? s.kind == 1 ? upper : comma : nullptr);
            s.fresh = false; if (r == STATUS_SUCCESS) tr("word '%s'", w); else { tr("end %08x", (unsigned)r); s.open = false; }
            break;
        }
        case 4: { std::string x = gen(o.a); const char *l = nullptr, *r = nullptr; status z = rc_split(&l, &r, &x[0], o.b & 1 ? ',' : ' '); if (z) tr("split %08x", (unsigned)z); else tr("split '%s' '%s'", l, r); break; }
        case 5: { std::string x = gen(o.a); char* p = &x[0]; if (o.b & 1) rc_left_trim(p); if (o.b & 2) rc_right_trim(p); if (o.b & 4) rc_trim(p); if (o.b & 8) rc_chomp(p); tr("'%s'", p); break; }
        case 6: { std::string x = gen(o.a); char* c = nullptr; OK(rc_strdup(&c, a, x.c_str())); tr("copy '%s'", c); drop(c); break; }
        case 7: { std::string x = gen(o.a), y = gen(o.b), z = gen(o.a ^ o.b); char* c = nullptr; OK(rc_strcatv(&c, a, x.c_str(), y.c_str(), z.c_str(), (const char*)nullptr)); bytes("joined", c, strlen(c)); drop(c); break; }
        default: { rc_rcpr_uuid u, v; Rnd r{o.a}; for (auto& b : u.data) b = (uint8_t)r(256); char* c = nullptr; OK(rc_rcpr_uuid_to_string(&c, a, &u)); tr("uuid %s", c); status x = rc_rcpr_uuid_parse_string(&v, c); tr("back %08x %d", (unsigned)x, memcmp(&u, &v, sizeof u)); c[o.b % 36] = 'g'; x = rc_rcpr_uuid_parse_string(&v, c); tr("bad %08x", (unsigned)x); drop(c); }
        }
    }
    void destroy() override {}
};

// ---- streams
struct Streams : Wk {
    rc_psock *out = nullptr, *user = nullptr, *ends[2] = {}; rc_psock_br* br = nullptr; Mem mem; std::vector<std::pair<int, uint64_t>> flying[2];
    static status rd(rc_psock* s, void* c, void* d, size_t* n, bool b) { hook(); return mem_read(s, &((Streams*)c)->mem, d, n, b); }
    static status wr(rc_psock* s, void* c, const void* d, size_t* n) { hook(); return mem_write(s, &((Streams*)c)->mem, d, n); }
    static status rel(rc_psock*, void* c) { ((Streams*)c)->tr("stream released"); hook(); return STATUS_SUCCESS; }
    void create() override {
        OK(rc_psock_create_from_buffer(&out, a, nullptr, 0)); make_user();
        int fd[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) fail("harness: no sockets");
        for (int i = 0; i < 2; i++) OK(rc_psock_create_from_descriptor(&ends[i], a, fd[i]));
    }
    void make_user();
    void put(rc_psock* s, int k, uint64_t v) {
        status r = 0;
        switch (k) { case 0: r = rc_psock_write_raw_int16(s, (int16_t)v); break; case 1: r = rc_psock_write_boxed_uint32(s, (uint32_t)v); break; case 2: r = rc_psock_write_raw_uint64(s, v); break; case 3: r = rc_psock_write_boxed_bool(s, v & 1); break; case 4: r = rc_psock_write_raw_int8(s, (int8_t)v); break; case 5: { char b[40]; snprintf(b, sizeof b, "%llx", (unsigned long long)v); r = rc_psock_write_boxed_string(s, b); break; } default: { char b[64]; memset(b, (int)v, sizeof b); r = rc_psock_write_boxed_data(s, b, v % 64); } }
        tr("write %d: %08x", k, (unsigned)r);
    }
    void get(rc_psock* s, int k) {
        status r = 0;
        switch (k) { case 0: { int16_t x = 0; r = rc_psock_read_raw_int16(s, &x); tr("%d", x); break; } case 1: { uint32_t x = 0; r = rc_psock_read_boxed_uint32(s, &x); tr("%u", x); break; } case 2: { uint64_t x = 0; r = rc_psock_read_raw_uint64(s, &x); tr("%llu", (unsigned long long)x); break; } case 3: { bool x = false; r = rc_psock_read_boxed_bool(s, &x); tr("%d", x); break; } case 4: { int8_t x = 0; r = rc_psock_read_raw_int8(s, &x); tr("%d", x); break; }
        case 5: { char* p = nullptr; size_t n = 0; r = rc_psock_read_boxed_string(s, a, &p, &n); if (!r) { tr("'%s'", p); OK(rc_allocator_reclaim(a, p)); } break; }
        default: { void* p = nullptr; size_t n = 0; r = rc_psock_read_boxed_data(s, a, &p, &n); if (!r) { bytes("data", p, n); OK(rc_allocator_reclaim(a, p)); } } }
        tr("read %d: %08x", k, (unsigned)r);
    }
    void exec(const Op& o) override {
        int i = o.a & 1, k = (int)(o.b % 7); uint64_t v = (uint64_t)o.b * 0x9e3779b97f4a7c15ull ^ o.a;
        switch (o.k % 9) {
        case 0: put(out, k, v); break;
        case 1: { void* p = nullptr; size_t n = 0; OK(rc_psock_from_buffer_get_output_buffer(out, a, &p, &n)); bytes("output", p, n); OK(rc_allocator_reclaim(a, p)); break; }
        case 2: case 3: if (flying[i].size() < 20) { put(ends[i], k, v); flying[i].push_back({k, v}); } break;
        case 4: case 5: if (!flying[i].empty()) { get(ends[!i], flying[i][0].first); flying[i].erase(flying[i].begin()); } break;
        case 6: { Rnd r{o.a}; size_t n = r(200); for (size_t j = 0; j < n; j++) mem.q.push_back((uint8_t)(r(9) ? 'a' + r(26) : '\n')); tr("%zu more", n); break; }
        case 7: { char b[64]; size_t n = 16 + o.b % 48; memset(b, 0, sizeof b); status r = rc_psock_br_read_line(b, &n, br); tr("line %08x %zu '%.63s'", (unsigned)r, r ? 0 : n, r ? "" : b); break; }
        default: { rc_psock* s = rc_psock_br_psock_adapter(br); uint8_t b[32]; size_t n = 1 + o.b % 32; if (mem.q.size() < 32) break; status r = rc_psock_read_raw(s, b, &n); if (r) tr("raw %08x", (unsigned)r); else bytes("raw", b, n); }
        }
    }
    void destroy() override {
        release_psock(out); OK(rc_resource_release(rc_psock_br_resource_handle(br))); release_psock(user); release_psock(ends[0]); release_psock(ends[1]);
    }
};
RCPR_VTABLE rc_psock_vtable streams_vtable = { { nullptr }, &Streams::rd, &Streams::wr, nullptr, nullptr, nullptr, nullptr, &Streams::rel };
void Streams::make_user() { OK(rc_psock_create_from_user_methods(&user, a, this, &streams_vtable)); OK(rc_psock_br_create_from_psock(&br, a, user)); }

// ---- a scheduler
const rc_rcpr_uuid OWN = {{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}};
struct Sched : Wk {
    enum { IDLING, WAITING, READING, GONE, BUSY };
    struct Fib { Sched* w; int i; rc_fiber* f = nullptr; rc_mailbox_address box = 0; int state = GONE; rc_psock* s = nullptr; int peer = -1; };
    struct Pay { rc_resource hdr; Sched* w; uint32_t op, v; int from; };
    rc_fiber_scheduler* s = nullptr; rc_fiber_scheduler_discipline *md = nullptr, *cd = nullptr, *own = nullptr; Fib fib[4]; int nf = 0; rc_mailbox_address box = 0; rc_conditional cond[2]; rc_psock* ping = nullptr; int ping_fd = -1; int pays = 0, yields = 0; bool plain = false;
    static status pay_release(rc_resource* r);
    Pay* pay(uint32_t op, uint32_t v, int from);
    static status on_own(void* c, rc_fiber* f, int code, void* p) {
        Sched* w = *(Sched**)c; w->yields++; w->tr("handler %d %d", code, (int)(intptr_t)p); hook();
        return rc_disciplined_fiber_scheduler_set_next_fiber_to_run(w->s, f, &OWN, 5 + code, p);
    }
    static status on_other(void* c, rc_fiber* f, int code, void* p) {
        Sched* w = *(Sched**)c; w->yields++; w->tr("second handler %d", code); hook();
        return rc_disciplined_fiber_scheduler_add_fiber_to_run_queue(w->s, f, &OWN, 50 + code, p);
    }
    static status on_event(void* c, rc_fiber* f, const rc_rcpr_uuid* id, int ev, void*, const rc_rcpr_uuid*, int) { Fib* x = (Fib*)c; CHECK(f == x->f, "another fiber's handler was called"); x->w->tr("fiber %d: event %x %02x", x->i, (unsigned)ev, id->data[0]); hook(); return STATUS_SUCCESS; }
    void post(rc_mailbox_address to, uint32_t op, uint32_t v, int from) {
        rc_message* m = nullptr; OK(rc_message_create(&m, a, from >= 0 ? fib[from].box : box, &pay(op, v, from)->hdr));
        status r = rc_message_send(to, m, md); tr("sent: %08x", (unsigned)r); if (r) OK(rc_resource_release(rc_message_resource_handle(m)));
    }
    static status entry(void* c) { Fib* f = (Fib*)c; f->w->body(*f); return STATUS_SUCCESS; }
    void body(Fib& f) {
        OK(rc_mailbox_create(&f.box, md)); tr("fiber %d starts", f.i);
        for (;;) {
            rc_message* m = nullptr; f.state = IDLING; status r = rc_message_receive(f.box, &m, md); f.state = BUSY;
            if (r) { tr("fiber %d: receive %08x", f.i, (unsigned)r); continue; }
            uint32_t op, v; int from; { Pay* p = (Pay*)rc_message_payload(m, false); CHECK(p->w == this, "a message of another scheduler arrived"); op = p->op; v = p->v; from = p->from; }
            OK(rc_resource_release(rc_message_resource_handle(m)));
            tr("fiber %d: op %u value %u from %d", f.i, op, v, from); hook();
            switch (op) {
            case 0: OK(rc_mailbox_close(f.box, md)); f.state = GONE; tr("fiber %d stops", f.i); return;
            case 1: tr("run %08x", (unsigned)rc_fiber_scheduler_run(s)); break;
            case 2: case 3: { const rc_rcpr_uuid* id = nullptr; int e = 0; void* p = nullptr; r = rc_fiber_discipline_yield(own, (int)op - 2, (void*)(intptr_t)v, &id, &e, &p); tr("yield %08x %d %d %d", (unsigned)r, e, (int)(intptr_t)p, r ? 0 : memcmp(id, &OWN, sizeof OWN)); break; }
            case 4: f.state = WAITING; r = rc_conditional_wait(cond[v & 1], cd); tr("fiber %d: woken %08x", f.i, (unsigned)r); break;
            case 5: { uint32_t x = 0; f.state = READING; r = rc_psock_read_boxed_uint32(f.s, &x); tr("fiber %d: read %08x %u", f.i, (unsigned)r, x); if (awaited && --awaited == 0) ring(); break; }
            case 6: post(box, 9, v, f.i); break;
            case 7: r = rc_psock_write_boxed_uint32(f.s, v); tr("fiber %d: wrote %08x", f.i, (unsigned)r); { uint8_t b[20]; ssize_t n = real_read(f.peer, b, sizeof b); bytes("peer", b, n < 0 ? 0 : (size_t)n); } break;
            default: break;
            }
            hook();
        }
    }
    void feed(Fib& f, uint32_t v) { uint8_t b[12]; rc_psock* p = nullptr; (void)p; uint32_t be = htonl(v); uint32_t tag = htonl(PSOCK_BOXED_TYPE_UINT32); memcpy(b, &tag, 4); memcpy(b + 4, &be, 4); if (real_write(f.peer, b, 8) != 8) fail("harness: no write"); }
    int awaited = 0;
    void ring() { uint8_t b = 7; if (real_write(ping_fd, &b, 1) != 1) fail("harness: no write"); }
    // the main fiber reads a byte; the last of the fibers whose bytes have just come sends it
    void pump(size_t fed) { if (fed) awaited = (int)fed; else ring(); uint8_t b = 0; status r = rc_psock_read_raw_uint8(ping, &b); tr("pump %08x %d", (unsigned)r, b); }
    rc_psock* async(int* peer, rc_fiber* f) {
        int fd[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) fail("harness: no sockets"); *peer = fd[1];
        rc_psock *p = nullptr, *w = nullptr; OK(rc_psock_create_from_descriptor(&p, a, fd[0])); OK(rc_psock_create_wrap_async(&w, a, f, p)); return w;
    }
    void create() override {
        OK(rc_fiber_scheduler_create_with_disciplines(&s, a)); OK(rc_message_discipline_get_or_create(&md, a, s)); OK(rc_condition_discipline_get_or_create(&cd, a, s));
        rc_fiber_scheduler_discipline_callback_fn cb[2] = {&on_own, &on_other}; 
        me = this; OK(rc_fiber_scheduler_discipline_create(&own, &OWN, a, &me, 2, cb)); OK(rc_fiber_scheduler_discipline_add(s, own));
        OK(rc_mailbox_create(&box, md)); for (auto& c : cond) OK(rc_conditional_create(&c, cd));
        rc_fiber* mainf = nullptr; OK(rc_disciplined_fiber_scheduler_main_fiber_get(&mainf, s)); ping = async(&ping_fd, mainf);
    }
    Sched* me;
    void exec(const Op& o) override {
        Fib& f = fib[nf ? o.a % nf : 0]; bool idle = nf && f.state == IDLING;
        switch (o.k % 14) {
        case 0: case 1: if (nf < 4) {
            Fib& n = fib[nf]; n.w = this; n.i = nf++; OK(rc_fiber_create(&n.f, a, s, 262144, &n, &entry)); OK(rc_fiber_unexpected_event_callback_add(n.f, &on_event, &n));
            n.s = async(&n.peer, n.f); OK(rc_fiber_scheduler_add(s, n.f)); tr("added"); tr("main runs %08x", (unsigned)rc_fiber_scheduler_run(s)); } break;
        case 2: case 3: case 4: if (idle) post(f.box, 1 + o.b % 3, o.b >> 8, -1); break;
        case 5: if (idle) post(f.box, 4, o.b, -1); break;
        case 6: tr("notify %08x", (unsigned)(o.b & 2 ? rc_conditional_notify_all(cond[o.b & 1], cd) : rc_conditional_notify_one(cond[o.b & 1], cd))); break;
        case 7: if (idle) { feed(f, o.b); post(f.box, 5, 0, -1); } break;
        case 8: if (idle) { post(f.box, 5, 0, -1); late.push_back(f.i); } break;
        case 9: for (int i : late) feed(fib[i], o.b + (unsigned)i); { size_t n = late.size(); late.clear(); pump(n); } break;
        case 10: if (idle) { post(f.box, 6, o.b, -1); rc_message* m = nullptr; status r = rc_message_receive(box, &m, md); tr("reply %08x", (unsigned)r); if (!r) { Pay* p = (Pay*)rc_message_payload(m, false); tr("from %d value %u", p->from, p->v); CHECK(rc_message_return_address(m) == fib[p->from].box, "a reply has another return address"); OK(rc_resource_release(rc_message_resource_handle(m))); } } break;
        case 11: if (idle) { post(f.box, 7, o.b, -1); } break;
        case 12: if (idle) { rc_fiber_scheduler_discipline* d = nullptr; status r = rc_fiber_scheduler_discipline_find(&d, s, &OWN); tr("find %08x %d", (unsigned)r, d == own); r = rc_disciplined_fiber_scheduler_send_quiesce_request_to_fiber(s, f.f); tr("quiesce %08x", (unsigned)r); } break;
        default: tr("main runs %08x", (unsigned)rc_fiber_scheduler_run(s));
        }
    }
    std::vector<int> late;
    void destroy() override {
        for (auto& c : cond) tr("notify %08x", (unsigned)rc_conditional_notify_all(c, cd));
        for (int i : late) feed(fib[i], 1);
        pump(late.size()); for (int k = 0; k < 8; k++) pump(0);
        for (int i = 0; i < nf; i++) if (fib[i].state == IDLING) post(fib[i].box, 0, 0, -1); else tr("fiber %d still in state %d", i, fib[i].state);
        tr("last run %08x", (unsigned)rc_fiber_scheduler_run(s));
        for (int i = 0; i < nf; i++) { tr("fiber %d ends in %d", i, fib[i].state); release_psock(fib[i].s); close(fib[i].peer); }
        release_psock(ping); close(ping_fd);
        OK(rc_resource_release(rc_fiber_scheduler_resource_handle(s))); tr("payloads %d yields %d", pays, yields);
    }
};
status Sched::pay_release(rc_resource* r) { Pay* p = (Pay*)r; Sched* w = p->w; w->pays--; w->tr("payload %u released", p->v); hook(); return rc_allocator_reclaim(w->a, p); }
RCPR_VTABLE rc_resource_vtable pay_vtable = { &Sched::pay_release };
Sched::Pay* Sched::pay(uint32_t op, uint32_t v, int from) { Pay* p = nullptr; OK(rc_allocator_allocate(a, (void**)&p, sizeof *p)); rc_resource_init(&p->hdr, &pay_vtable); p->w = this; p->op = op; p->v = v; p->from = from; pays++; return p; }

// ---- connections by name
struct Conn : Wk {
    int l = -1; char name[32]; unsigned port = 0; struct Link { rc_psock *c, *s; uint64_t next = 0; }; std::vector<Link> links; rc_psock* lp = nullptr;
    void create() override {
        snprintf(name, sizeof name, "127.0.%d.%d", 1 + idx, 7 * idx + 3); struct sockaddr_in x = {}; x.sin_family = AF_INET; inet_aton(name, &x.sin_addr);
        l = socket(AF_INET, SOCK_STREAM, 0); if (l < 0 || bind(l, (struct sockaddr*)&x, sizeof x) || listen(l, 32)) fail("harness: no listener");
        socklen_t n = sizeof x; getsockname(l, (struct sockaddr*)&x, &n); port = ntohs(x.sin_port); OK(rc_psock_create_from_descriptor(&lp, a, l));
    }
    void cut(Link& k) {
        struct linger lg = {1, 0}; OK(rc_psock_setsockopt(k.s, SOL_SOCKET, SO_LINGER, &lg, sizeof lg)); release_psock(k.s); release_psock(k.c);
    }
    void exec(const Op& o) override {
        switch (o.k % 4) {
        case 0: case 1: {
            if (links.size() > 3) { cut(links[0]); links.erase(links.begin()); tr("cut"); break; }
            Link k{}; status r = rc_psock_create_from_hostname_and_port(&k.c, a, name, port); tr("connect %08x", (unsigned)r); if (r) break;
            int fd = -1; struct sockaddr_in p = {}; socklen_t n = sizeof p; r = rc_psock_accept(lp, &fd, (struct sockaddr*)&p, &n); tr("accept %08x", (unsigned)r); if (r) { release_psock(k.c); break; }
            struct sockaddr_in y = {}; n = sizeof y; getsockname(fd, (struct sockaddr*)&y, &n); tr("to %s %d", y.sin_addr.s_addr == inet_addr(name) ? "the right address" : "another address", ntohs(y.sin_port) == port);
            OK(rc_psock_create_from_descriptor(&k.s, a, fd)); links.push_back(k); break;
        }
        case 2: if (!links.empty()) { Link& k = links[o.a % links.size()]; uint64_t x = 0; status r = rc_psock_write_boxed_uint64(k.c, o.b); status q = r ? r : rc_psock_read_boxed_uint64(k.s, &x); tr("over %08x %08x %llu", (unsigned)r, (unsigned)q, (unsigned long long)x); } break;
        default: { rc_psock* c = nullptr; status r = rc_psock_create_from_hostname_and_port(&c, a, o.a & 1 ? "127.0.0.1.2.3" : "256.1.1.1", port); tr("bad name %08x", (unsigned)r); if (!r) release_psock(c); }
        }
    }
    void destroy() override { for (auto& k : links) cut(k); release_psock(lp); }
};

struct Plan { int kind; int mem; std::vector<Op> ops; };
std::unique_ptr<Wk> start(const Plan& p, int idx) {
    std::unique_ptr<Wk> w;
    switch (p.kind) { case 0: w.reset(new Cont); break; case 1: w.reset(new Str); break; case 2: w.reset(new Streams); break; case 3: w.reset(new Sched); break; default: w.reset(new Conn); }
    w->idx = idx; w->kind = p.kind; w->mem = p.mem; w->ops = p.ops; return w;
}
void differ(const char* how, const Plan& p, int i, const std::string& a, const std::string& b) {
    size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) k++;
    size_t from = k ? a.rfind('\n', k - 1) : std::string::npos; from = from == std::string::npos ? 0 : from + 1;
    auto line = [&](const std::string& s) { return from < s.size() ? s.substr(from, s.find('\n', from) - from) : std::string("(nothing)"); };
    fail("worker %d (%s) observes something else %s: '%s' instead of '%s'", i, (const char*[]){"containers", "strings", "streams", "a scheduler", "connections"}[p.kind], how, line(b).c_str(), line(a).c_str());
}
status on_thread(void* c) { Wk* w = (Wk*)c; while (!w->finished) w->step(); return STATUS_SUCCESS; }
} // namespace
void run_case() {
    together = nullptr; alternations = nested = depth = 0; last = nullptr;
    std::vector<Plan> plans; int n = 2 + (int)g.below(4);
    for (int i = 0; i < n; i++) {
        Plan p; p.kind = i && g.coin() ? plans[g.below(plans.size())].kind : (int)g.pick({4, 2, 3, 6, 1}); p.mem = p.kind < 3 ? (int)g.pick({3, 2, 2}) : g.coin() ? 2 : 0;
        size_t k = 2 + g.below(39); bool same = i && plans[0].kind == p.kind && g.chance(1, 4);
        for (size_t j = 0; j < k; j++) p.ops.push_back(Op{(uint32_t)g.below(256), (uint32_t)g.below(65536), (uint32_t)g.below(65536)});
        if (same) p.ops = plans[0].ops;
        plans.push_back(p);
        g.log("worker %d: %s, %zu steps%s", i, (const char*[]){"containers", "strings", "streams", "a scheduler", "connections"}[p.kind], p.ops.size(), (const char*[]){"", ", bump allocator", ", fixed memory"}[p.mem]);
    }
    std::vector<std::string> alone;
    if (!THREADS) heap.begin();
    for (int i = 0; i < n; i++) { auto w = start(plans[i], i); while (!w->finished) w->step(); alone.push_back(w->t); g.log("alone, worker %d:\n%s", i, w->t.c_str()); }
    if (!THREADS) heap.expect_clean("the workers have run alone");
    std::vector<std::unique_ptr<Wk>> ws; for (int i = 0; i < n; i++) ws.push_back(start(plans[i], i));
    if (THREADS) {
        rc_allocator* a = make_alloc(); std::vector<rc_thread*> ts(n);
        for (int i = 0; i < n; i++) OK(rc_thread_create(&ts[i], a, 1 << 20, ws[i].get(), &on_thread));
        for (int i = 0; i < n; i++) OK(rc_resource_release(rc_thread_resource_handle(ts[i])));
        free_alloc(a); g.nontrivial();
        for (int i = 0; i < n; i++) if (ws[i]->t != alone[i]) differ("when the others run in threads of their own", plans[i], i, alone[i], ws[i]->t);
        return;
    }
    std::vector<Wk*> all; for (auto& w : ws) all.push_back(w.get());
    together = &all;
    for (;;) {
        std::vector<Wk*> c; for (auto* w : all) if (!w->finished) c.push_back(w);
        if (c.empty()) break;
        c[g.below(c.size())]->step();
    }
    together = nullptr;
    for (int i = 0; i < n; i++) if (ws[i]->t != alone[i]) { g.log("together, worker %d:\n%s", i, ws[i]->t.c_str()); differ("when the others' steps come between its own", plans[i], i, alone[i], ws[i]->t); }
    heap.expect_clean("the workers have run together"); heap.end();
    if (alternations >= 3) g.nontrivial();
    if (nested) g.label("nested");
}
} // namespace vp
