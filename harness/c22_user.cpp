// C22: streams built from user methods: every call recorded and compared.
#include "streams.hpp"
namespace vp {
const char* const PROPERTY = "C22";
const char* const RULE = "a case makes 1-3 streams from user methods (each with one of the 32 combinations of optional methods, contexts including NULL) and makes 1-30 calls on them, directly or through a buffered reader: raw, typed and method-table reads and writes, accept, socket options, message and descriptor calls; the user methods record their arguments and answer with generated statuses and sizes; every recorded call and every result is compared with what was asked and answered; non-trivial = at least three user methods of two kinds were called";
const std::vector<Probe> PROBES;
void setup() { sys.idle = [](int) { return false; }; }
struct Call { char what; rc_psock* sock; void* ctx; const void* p1; void* p2; void* p3; size_t n; int i1, i2; bool block; std::vector<uint8_t> d; };
static std::vector<Call> calls; static unsigned what_seen;
struct Answer { status st; size_t take; std::vector<uint8_t> d; int desc; socklen_t sl; };
static std::deque<Answer> answers; // for read and write; last one repeats
static Answer next_answer() { if (answers.empty()) fail("a user method was called once too often"); Answer x = answers.front(); answers.pop_front(); return x; }
static status u_read(rc_psock* s, void* c, void* d, size_t* n, bool block) {
    calls.push_back({'r', s, c, d, n, nullptr, *n, 0, 0, block, {}});
    Answer x = next_answer();
    if (x.st == STATUS_SUCCESS) { size_t k = std::min(*n, x.take); for (size_t i = 0; i < k; i++) ((uint8_t*)d)[i] = x.d[i % x.d.size()]; *n = k; }
    return x.st;
}
static status u_write(rc_psock* s, void* c, const void* d, size_t* n) {
    calls.push_back({'w', s, c, d, n, nullptr, *n, 0, 0, false, std::vector<uint8_t>((const uint8_t*)d, (const uint8_t*)d + *n)});
    Answer x = next_answer();
    if (x.st == STATUS_SUCCESS) *n = std::min(*n, x.take);
    return x.st;
}
static status u_accept(rc_psock* s, void* c, int* d, struct sockaddr* sa, socklen_t* sl) { calls.push_back({'a', s, c, sa, d, sl, *sl, 0, 0, false, {}}); Answer x = next_answer(); if (!x.st) { *d = x.desc; *sl = x.sl; memset(sa, 0x3c, 2); } return x.st; }
static status u_sendmsg(rc_psock* s, void* c, const struct msghdr* m, int f) { calls.push_back({'s', s, c, m, nullptr, nullptr, 0, f, 0, false, {}}); return next_answer().st; }
static status u_recvmsg(rc_psock* s, void* c, struct msghdr* m, size_t* l, int f) { calls.push_back({'m', s, c, m, l, nullptr, *l, f, 0, false, {}}); Answer x = next_answer(); if (!x.st) *l = x.take; return x.st; }
static status u_setopt(rc_psock* s, void* c, int lv, int o, const void* p, socklen_t l) { calls.push_back({'o', s, c, p, nullptr, nullptr, l, lv, o, false, {}}); return next_answer().st; }
static status u_release(rc_psock* s, void* c) { calls.push_back({'x', s, c, nullptr, nullptr, nullptr, 0, 0, 0, false, {}}); return next_answer().st; }
#define V1(i) { { nullptr }, &u_read, &u_write, (i) & 1 ? &u_accept : nullptr, (i) & 2 ? &u_sendmsg : nullptr, (i) & 4 ? &u_recvmsg : nullptr, (i) & 8 ? &u_setopt : nullptr, (i) & 16 ? &u_release : nullptr }
#define V4(i) V1(i), V1(i + 1), V1(i + 2), V1(i + 3)
RCPR_VTABLE rc_psock_vtable user_vtables[32] = { V4(0), V4(4), V4(8), V4(12), V4(16), V4(20), V4(24), V4(28) };
static rc_psock_vtable* vt(rc_psock* s) { const rc_resource_vtable* v = nullptr; OK(rc_resource_vtable_read(&v, rc_psock_resource_handle(s))); return (rc_psock_vtable*)v; }
struct U { rc_psock* s; rc_psock_br* br; int combo; void* ctx; };
static status gen_status() { switch (g.below(4)) { case 0: case 1: return STATUS_SUCCESS; case 2: return (status[]){ERROR_PSOCK_READ_EOF, ERROR_PSOCK_READ_WOULD_BLOCK, ERROR_PSOCK_WRITE_WOULD_BLOCK, ERROR_PSOCK_WRITE_EOF, ERROR_PSOCK_METHOD_UNDEFINED, ERROR_PSOCK_UNSUPPORTED_TYPE, ERROR_GENERAL_OUT_OF_MEMORY}[g.below(7)]; default: { status s = (status)g.u64(); return s ? s : 1; } } }
static void one(size_t at, char what, const U& u) {
    CHECK(calls.size() == at + 1, "%zu user methods were called instead of one", calls.size() - at);
    CHECK(calls[at].what == what, "the user method '%c' was called instead of '%c'", calls[at].what, what);
    CHECK(calls[at].sock == u.s, "the user method was called with another stream");
    CHECK(calls[at].ctx == u.ctx, "the user method was called with another context");
    what_seen |= 1u << (what - 'a');
}
void run_case() {
    heap.begin();
    rc_allocator* a = make_alloc();
    calls.clear(); what_seen = 0; answers.clear();
    std::vector<U> us; char ctxs[4];
    int n = 1 + (int)g.below(3);
    for (int i = 0; i < n; i++) {
        U u{nullptr, nullptr, (int)g.below(32), g.chance(1, 6) ? nullptr : &ctxs[i]};
        OK(rc_psock_create_from_user_methods(&u.s, a, u.ctx, &user_vtables[u.combo]));
        if (g.chance(1, 3)) OK(rc_psock_br_create_from_psock(&u.br, a, u.s));
        CHECK(rc_psock_socket_type(u.s) == PSOCK_SOCKET_TYPE_OTHER, "socket type %d", (int)rc_psock_socket_type(u.s));
        us.push_back(u);
    }
    CHECK(calls.empty(), "creating a stream called a user method");
    int steps = 0;
    while (steps++ < 30 && g.more(12)) {
        U& u = us[g.below(us.size())];
        size_t at = calls.size();
        rc_psock* via = u.br && g.coin() ? rc_psock_br_psock_adapter(u.br) : u.s;
        status st = gen_status();
        switch (g.below(11)) {
        case 0: { // raw read
            size_t ask = 1 + g.below(200), k = ask; uint8_t* b = (uint8_t*)raw_malloc(ask); memset(b, 0xcc, ask);
            Answer x{st, 1 + g.below(ask), g.bytes(1 + g.below(9)), 0, 0}; answers = {x};
            status r = rc_psock_read_raw(u.s, b, &k);
            one(at, 'r', u);
            CHECK(calls[at].p1 == b && calls[at].n == ask && !calls[at].block, "a raw read is passed on with another buffer, size (%zu for %zu) or blocking flag", calls[at].n, ask);
            CHECK(r == st, "the user's read returned %08x, the caller got %08x", st, r);
            if (!st) { CHECK(k == x.take, "the user's read gave %zu bytes, the caller got %zu", x.take, k); for (size_t i = 0; i < ask; i++) CHECK(b[i] == (i < k ? x.d[i % x.d.size()] : 0xcc), "the caller got other bytes"); }
            raw_free(b); g.log("raw read: %08x", r);
            break;
        }
        case 1: { // method table read
            size_t ask = 1 + g.below(200), k = ask; std::vector<uint8_t> b(ask); bool block = g.coin();
            Answer x{st, g.below(ask + 1), g.bytes(1 + g.below(9)), 0, 0}; answers = {x};
            status r = vt(u.s)->read_fn(u.s, nullptr, b.data(), &k, block);
            one(at, 'r', u);
            CHECK(calls[at].p1 == b.data() && calls[at].n == ask && calls[at].block == block, "a read is passed on with another buffer, size or blocking flag");
            CHECK(r == st && (st || k == x.take), "the user's read gave %08x, %zu; the caller got %08x, %zu", st, x.take, r, k);
            break;
        }
        case 2: { // typed read
            Val v, o; v.kind = (int)g.below(BOOLEAN + 1); size_t w = (size_t)width(v.kind);
            bool shrt = !st && w > 1 && g.chance(1, 3);
            Answer x{st, shrt ? g.below(w) : w, g.bytes(8), 0, 0}; answers = {x};
            status r = read_val(u.s, a, v, o);
            one(at, 'r', u);
            CHECK(calls[at].n == w && calls[at].block, "a %s read asks for %zu bytes%s", v.name(), calls[at].n, calls[at].block ? "" : " without blocking");
            if (st) CHECK(r == st, "the user's read returned %08x, the caller got %08x", st, r);
            else if (shrt) CHECK(r != STATUS_SUCCESS, "a %s read succeeded with %zu bytes", v.name(), x.take);
            else {
                uint64_t want = 0; for (size_t i = 0; i < w; i++) want = want << 8 | x.d[i]; if (v.kind == BOOLEAN) want = want != 0;
                CHECK(r == STATUS_SUCCESS && o.n == want, "a %s read gave %08x, %llx", v.name(), r, (unsigned long long)o.n);
            }
            break;
        }
        case 3: { // write, possibly taken in parts
            bool crumbs = g.chance(1, 12); if (crumbs) g.label("hundreds of parts");
            size_t len = crumbs ? 50 + g.below(900) : 1 + g.below(300); Val v; v.kind = DATA; v.d = crumbs ? g.bulk(len) : g.bytes(len);
            answers.clear(); size_t off = 0; status want = STATUS_SUCCESS;
            while (off < len) {
                size_t take = crumbs ? 1 : g.coin() ? len - off : g.below(len - off + 1);
                if (!crumbs && g.chance(1, 6)) want = st ? st : 1;
                answers.push_back({want, take, {}, 0, 0});
                if (want) break;
                if (!take) { want = ERROR_PSOCK_WRITE_INVALID_SIZE; break; }
                off += take;
            }
            std::vector<Answer> plan(answers.begin(), answers.end());
            status r = write_val(via, v);
            g.log("write of %zu bytes in %zu calls: %08x", len, plan.size(), r);
            CHECK(calls.size() == at + plan.size(), "a write of %zu bytes makes %zu calls instead of %zu", len, calls.size() - at, plan.size());
            off = 0;
            for (size_t i = 0; i < plan.size(); i++) {
                Call& c = calls[at + i];
                CHECK(c.what == 'w' && c.sock == u.s && c.ctx == u.ctx, "a write calls something else");
                CHECK(c.n == len - off && !memcmp(c.d.data(), v.d.data() + off, c.n), "a write with %zu bytes left is passed on as %zu", len - off, c.n);
                off += std::min(c.n, plan[i].take);
            }
            CHECK(r == want, "a write that should give %08x gives %08x", want, r);
            what_seen |= 1u << ('w' - 'a');
            break;
        }
        case 4: { // accept
            int d = -7; socklen_t sl = 16 + (socklen_t)g.below(100), sl0 = sl; char sab[128]; memset(sab, 0, sizeof sab); struct sockaddr* sa = (struct sockaddr*)sab;
            Answer x{st, 0, {}, g.coin() ? (int)g.below(1000) : (int)g.u64(), (socklen_t)g.below(100)}; answers = {x};
            status r = rc_psock_accept(via, &d, sa, &sl);
            g.log("accept: %08x", r);
            if (!(u.combo & 1)) { CHECK(r == (status)ERROR_PSOCK_METHOD_UNDEFINED && calls.size() == at && d == -7 && sl == sl0, "accept without such a method gives %08x", r); break; }
            one(at, 'a', u);
            CHECK(calls[at].p1 == sa && calls[at].p2 == &d && calls[at].p3 == &sl && calls[at].n == sl0, "accept is passed on with other arguments");
            CHECK(r == st && (st || (d == x.desc && sl == x.sl)), "the user's accept gave %08x, the caller got %08x", st, r);
            break;
        }
        case 5: { // socket option
            int lv = g.coin() ? (int)g.below(1000) : (int)g.u64(), o = g.coin() ? (int)g.below(1000) : (int)g.u64(); char val[40]; socklen_t l = g.chance(1, 6) ? (socklen_t)g.u64() : (socklen_t)(1 + g.below(40));
            answers = {{st, 0, {}, 0, 0}};
            status r = rc_psock_setsockopt(u.s, lv, o, val, l);
            g.log("setsockopt: %08x", r);
            if (!(u.combo & 8)) { CHECK(r == (status)ERROR_PSOCK_METHOD_UNDEFINED && calls.size() == at, "setsockopt without such a method gives %08x", r); break; }
            one(at, 'o', u);
            CHECK(calls[at].p1 == val && calls[at].n == l && calls[at].i1 == lv && calls[at].i2 == o, "setsockopt is passed on with other arguments");
            CHECK(r == st, "the user's setsockopt returned %08x, the caller got %08x", st, r);
            break;
        }
        case 6: { // sendmsg
            struct msghdr m; memset(&m, 0, sizeof m); int f = g.coin() ? (int)g.below(100) : (int)g.u64();
            answers = {{st, 0, {}, 0, 0}};
            status r = vt(via)->sendmsg_fn(via, nullptr, &m, f);
            g.log("sendmsg: %08x", r);
            if (!(u.combo & 2)) { CHECK(r == (status)ERROR_PSOCK_METHOD_UNDEFINED && calls.size() == at, "sendmsg without such a method gives %08x", r); break; }
            one(at, 's', u);
            CHECK(calls[at].p1 == &m && calls[at].i1 == f && r == st, "sendmsg is passed on with other arguments or status (%08x, %08x)", st, r);
            break;
        }
        case 7: { // recvmsg
            struct msghdr m; memset(&m, 0, sizeof m); int f = g.coin() ? (int)g.below(100) : (int)g.u64(); size_t l = g.below(1000), l0 = l;
            Answer x{st, g.below(1000), {}, 0, 0}; answers = {x};
            status r = vt(via)->recvmsg_fn(via, nullptr, &m, &l, f);
            g.log("recvmsg: %08x", r);
            if (!(u.combo & 4)) { CHECK(r == (status)ERROR_PSOCK_METHOD_UNDEFINED && calls.size() == at && l == l0, "recvmsg without such a method gives %08x", r); break; }
            one(at, 'm', u);
            CHECK(calls[at].p1 == &m && calls[at].p2 == &l && calls[at].n == l0 && calls[at].i1 == f, "recvmsg is passed on with other arguments");
            CHECK(r == st && (st || l == x.take), "the user's recvmsg gave %08x, the caller got %08x", st, r);
            break;
        }
        case 8: { // calls that do not apply to a user stream
            int d = -7; void* p = nullptr; size_t k = 5; status r = 0; rc_psock* w = nullptr;
            answers.clear();
            switch (g.below(6)) {
            case 0: r = rc_psock_write_raw_descriptor(via, 0); break;
            case 1: r = rc_psock_read_raw_descriptor(via, &d); break;
            case 2: r = rc_psock_from_buffer_get_output_buffer(via, a, &p, &k); break;
            case 3: r = rc_psock_read_block(via); break;
            case 4: r = rc_psock_write_block(via); break;
            default: {
                rc_fiber_scheduler* sched = nullptr; rc_fiber* f = nullptr;
                OK(rc_fiber_scheduler_create_with_disciplines(&sched, a));
                OK(rc_disciplined_fiber_scheduler_main_fiber_get(&f, sched));
                r = rc_psock_create_wrap_async(&w, a, f, u.s);
                OK(rc_resource_release(rc_fiber_scheduler_resource_handle(sched)));
            }
            }
            g.log("a call that does not apply: %08x", r);
            CHECK(r == (status)ERROR_PSOCK_UNSUPPORTED_TYPE && calls.size() == at && d == -7 && !p && k == 5 && !w, "a call that does not apply to a user stream gives %08x", r);
            break;
        }
        case 9: { // a data value, given out in parts: all of it, or an error
            if (g.chance(1, 3)) { // a boxed number
                Val v, o; v.boxed = true; v.kind = (int)g.below(BOOLEAN + 1); v.n = g.u64(); if (v.kind == BOOLEAN) v.n &= 1; else if (width(v.kind) < 8) v.n &= (1ull << 8 * width(v.kind)) - 1;
                std::vector<uint8_t> b; encode(b, v); size_t w = b.size() - 4; status bad = STATUS_SUCCESS; bool shrt = false; answers.clear();
                for (int i = 0; i < 2 && !bad && !shrt; i++) { size_t f = i ? w : 4, k = f; if (g.chance(1, 5)) bad = st ? st : 1; else if (g.chance(1, 8)) { k = g.below(f); shrt = true; } answers.push_back({bad, k, {b.begin() + (i ? 4 : 0), b.begin() + (i ? b.size() : 4)}, 0, 0}); }
                size_t plan = answers.size(); status r = read_val(u.s, a, v, o);
                g.log("read of %s in %zu calls: %08x", describe(v).c_str(), plan, r);
                CHECK(calls.size() == at + plan, "reading a boxed number makes %zu calls instead of %zu", calls.size() - at, plan);
                for (size_t i = at; i < calls.size(); i++) CHECK(calls[i].what == 'r' && calls[i].sock == u.s && calls[i].ctx == u.ctx && calls[i].block, "a read calls something else");
                if (bad) CHECK(r == bad, "the user's read returned %08x, the caller got %08x", bad, r);
                else if (shrt) CHECK(r != STATUS_SUCCESS, "a boxed number was read from too few bytes");
                else { CHECK(r == STATUS_SUCCESS, "reading a boxed number gives %08x", r); check_equal(v, o); }
                what_seen |= 1u << ('r' - 'a');
                break;
            }
            bool crumbs = g.chance(1, 8); if (crumbs) g.label("hundreds of parts");
            size_t len = crumbs ? 50 + g.below(900) : 1 + g.below(120); bool boxed = !crumbs && g.coin(), text = boxed && g.coin(); std::vector<uint8_t> want = crumbs ? g.bulk(len) : g.bytes(len), head;
            if (text) for (auto& b : want) if (!b) b = 1;
            answers.clear(); bool whole = true; status bad = STATUS_SUCCESS;
            if (boxed) { Val v; v.kind = text ? BSTRING : DATA; v.boxed = true; v.d = want; encode(head, v); head.resize(head.size() - len); // each field of the head comes whole
                size_t w = sizeof(uint32_t); for (size_t i = 0; i < head.size(); i += w) { if (g.chance(1, 10)) { bad = st ? st : 1; answers.push_back({bad, 0, {}, 0, 0}); break; } answers.push_back({STATUS_SUCCESS, w, {head.begin() + i, head.begin() + std::min(head.size(), i + w)}, 0, 0}); } }
            for (size_t off = 0; off < len && !bad;) {
                if (!crumbs && g.chance(1, 12)) { bad = st ? st : 1; answers.push_back({bad, 0, {}, 0, 0}); break; }
                size_t k = crumbs ? 1 : g.coin() ? len - off : g.below(len - off + 1); if (!k || (boxed && k < len - off)) whole = false;
                answers.push_back({STATUS_SUCCESS, k, std::vector<uint8_t>(want.begin() + off, want.begin() + off + (k ? k : 1)), 0, 0}); off += k; if (!k) break;
            }
            size_t plan = answers.size(); for (int i = 0; i < 4; i++) answers.push_back({STATUS_SUCCESS, 0, {0}, 0, 0});
            Val v, o; v.kind = text ? BSTRING : DATA; v.boxed = boxed; v.d = want;
            status r = read_val(u.s, a, v, o);
            g.log("read of %zu bytes in %zu parts: %08x", len, plan, r);
            CHECK(calls.size() > at, "a read calls nothing");
            for (size_t i = at; i < calls.size(); i++) CHECK(calls[i].what == 'r' && calls[i].sock == u.s && calls[i].ctx == u.ctx && calls[i].block, "a read calls something else");
            if (r == STATUS_SUCCESS) check_equal(v, o); else CHECK(!whole || bad, "a read that got every byte gives %08x", r);
            if (bad && whole) CHECK(r == bad, "the user's read returned %08x, the caller got %08x", bad, r);
            what_seen |= 1u << ('r' - 'a'); g.label("data in parts");
            break;
        }
        default: { // several typed writes: a boxed value arrives as its bytes
            Val v = gen_val(60); std::vector<uint8_t> want, got; encode(want, v);
            answers.clear(); for (int i = 0; i < 8; i++) answers.push_back({STATUS_SUCCESS, (size_t)-1, {}, 0, 0});
            status r = write_val(via, v);
            CHECK(r == STATUS_SUCCESS, "writing %s gives %08x", describe(v).c_str(), r);
            for (size_t i = at; i < calls.size(); i++) { CHECK(calls[i].what == 'w' && calls[i].sock == u.s && calls[i].ctx == u.ctx, "a write calls something else"); got.insert(got.end(), calls[i].d.begin(), calls[i].d.end()); }
            CHECK(got == want, "the user's write got other bytes for %s", describe(v).c_str());
        }
        }
    }
    size_t methods = calls.size();
    for (auto& u : us) {
        if (u.br) { answers.clear(); size_t at = calls.size(); OK(rc_resource_release(rc_psock_br_resource_handle(u.br))); CHECK(calls.size() == at, "releasing the reader called a method of the stream"); }
        status st = gen_status(); size_t at = calls.size();
        answers = {{st, 0, {}, 0, 0}};
        rc_psock* s = u.s;
        status r = rc_resource_release(rc_psock_resource_handle(s));
        if (!(u.combo & 16)) CHECK(r == STATUS_SUCCESS && calls.size() == at, "release without such a method gives %08x", r);
        else { one(at, 'x', u); CHECK(r == st, "the user's release returned %08x, the caller got %08x", st, r); }
    }
    if (methods >= 3 && __builtin_popcount(what_seen & ~(1u << ('x' - 'a'))) >= 2) g.nontrivial();
    free_alloc(a);
    heap.expect_clean("after the case");
    heap.end();
}
} // namespace vp
