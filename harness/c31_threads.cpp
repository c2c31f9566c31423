// C31: threads, mutexes and condition variables.
// WRAPS: pthread_create pthread_join pthread_detach pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock
// WRAPS: pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait
// WRAPS: pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
//
// Two ways of running the same generated programs:
//  * scheduled: the pthread calls of the library are replaced by a model in
//    which exactly one thread runs at a time and every switch between threads
//    is a generated choice, so a schedule is part of the case, can be replayed
//    and shrunk, and a state in which nothing can run is a deadlock;
//  * free running, under ThreadSanitizer, where the real primitives must order
//    every access to the shared data.
#include "vp.hpp"
#include "rc.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <errno.h>
#include <unistd.h>
#include <map>
#include <string>
#include <memory>
#include <atomic>
#include <algorithm>
using namespace vp;
const char* const vp::PROPERTY = "C31";
const char* const vp::RULE = "at least two threads ran and at least one lock was contended or one condition wait slept (scheduled runs), or at least two threads shared a mutex (free runs)";
const std::vector<Probe> vp::PROBES = {};
void vp::setup() {}

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define FREE_RUN 1
#endif
#endif
#ifndef FREE_RUN
#define FREE_RUN 0
#endif

extern "C" {
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);
int __real_pthread_detach(pthread_t);
int __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*);
int __real_pthread_mutex_destroy(pthread_mutex_t*);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*);
int __real_pthread_cond_destroy(pthread_cond_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
}

// ------------------------------------------------------------ the model
enum St { READY, ON_MUTEX, ON_COND, ON_JOIN, QUIESCE, DONE };
struct Task {
    St st = READY; const void* obj = nullptr; bool woken = false; int target = -1;
    sem_t sem; pthread_t th{}; bool joined = false, detached = false;
    void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
    size_t stack = 0;
};
struct Mtx { int owner = -1; int depth = 0; int type = PTHREAD_MUTEX_DEFAULT; };
struct Sim {
    bool on = false;
    std::vector<Task*> tasks;
    std::map<const void*, Mtx> mtx;
    std::map<const void*, int> conds;   // value: sleepers
    int cur = 0;
    unsigned sw = 3;          // one in sw points switches
    int spurious = 0, inject = 0;
    uint64_t contended = 0, slept = 0, switches = 0;
    int last_injected = 0;
};
static Sim& S = *new Sim;
static thread_local int self = 0;

static bool runnable(int i) {
    Task* t = S.tasks[i];
    switch (t->st) {
    case READY: return true;
    case ON_MUTEX: { auto it = S.mtx.find(t->obj); return it == S.mtx.end() || it->second.owner < 0; }
    case ON_COND: return t->woken;
    case ON_JOIN: return S.tasks[t->target]->st == DONE;
    default: return false;
    }
}
static const char* stname(St s) {
    static const char* n[] = {"ready", "waiting for a lock", "asleep on a condition", "joining a thread", "waiting", "finished"};
    return n[s];
}
// chooses the next task; `stay` when the current one may go on.
static int choose(bool stay) {
    std::vector<int> c;
    for (size_t i = 0; i < S.tasks.size(); i++) if ((int)i != S.cur && runnable((int)i)) c.push_back((int)i);
    if (stay && (c.empty() || g.below(S.sw) != S.sw - 1)) {
        // now and then a sleeper wakes for no reason.
        return S.cur;
    }
    if (S.spurious > 0 && g.chance(1, 6)) {
        std::vector<int> z;
        for (size_t i = 0; i < S.tasks.size(); i++) if (S.tasks[i]->st == ON_COND && !S.tasks[i]->woken) z.push_back((int)i);
        if (!z.empty()) { int w = z[g.below(z.size())]; S.spurious--; S.tasks[w]->woken = true; g.log("   (task %d wakes spuriously)", w); g.label("spurious wake-up"); if (w != S.cur) c.push_back(w); }
    }
    if (c.empty() && stay) return S.cur;
    if (c.empty() && runnable(S.cur)) return S.cur;
    if (c.empty()) for (size_t i = 0; i < S.tasks.size(); i++) if (S.tasks[i]->st == QUIESCE) return (int)i;
    if (c.empty()) {
        std::string d;
        for (size_t i = 0; i < S.tasks.size(); i++) if (S.tasks[i]->st != DONE) d += " task " + std::to_string(i) + " " + stname(S.tasks[i]->st) + ";";
        fail("deadlock:%s", d.c_str());
    }
    return c[g.below(c.size())];
}
static void go(int next, bool ending) {
    int me = S.cur;
    if (next == me) return;
    S.switches++;
    S.cur = next;
    g.log("   -> task %d", next);
    sem_t* mine = &S.tasks[me]->sem;
    sem_post(&S.tasks[next]->sem);
    if (!ending) { while (sem_wait(mine) != 0) {} }
}
static void point() { if (S.on) go(choose(true), false); }
static void block(St st, const void* obj) {
    Task* t = S.tasks[S.cur];
    t->st = st; t->obj = obj; t->woken = false;
    int me = S.cur;
    for (;;) {
        go(choose(false), false);
        if (S.cur != me) fail("harness: wrong task running");
        if (st == QUIESCE || runnable(me)) break;
    }
    t->st = READY;
}
static int injected(const char* what, int err) {
    if (S.inject <= 0 || !g.chance(1, 8)) return 0;
    S.inject--; S.last_injected = err;
    g.log("   (%s fails)", what); g.label("failing primitive");
    return err;
}
static void take(const void* m) {
    Mtx& x = S.mtx[m];
    if (x.owner == self && x.type == PTHREAD_MUTEX_RECURSIVE) { x.depth++; return; }
    while (S.mtx[m].owner >= 0) { S.contended++; block(ON_MUTEX, m); }
    S.mtx[m].owner = self; S.mtx[m].depth = 1;
}
static int give(const void* m) {
    Mtx& x = S.mtx[m];
    if (x.owner != self && x.type != PTHREAD_MUTEX_DEFAULT) return EPERM;
    if (--x.depth <= 0) { x.owner = -1; x.depth = 0; }
    return 0;
}
static void* task_main(void* p) {
    int id = (int)(intptr_t)p;
    Task* t = S.tasks[id];
    while (sem_wait(&t->sem) != 0) {}
    self = id;
    t->ret = t->fn(t->arg);
    t->st = DONE;
    go(choose(false), true);
    return t->ret;
}
static bool managed(const void* m) { return S.on && S.mtx.count(m); }
static int next_create_fails = 0, next_init_fails = 0, init_failed = 0;

extern "C" {
int __wrap_pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    if (!S.on) {
        if (next_create_fails) { int e = next_create_fails; next_create_fails = 0; return e; }
        return __real_pthread_create(th, at, fn, arg);
    }
    point();
    if (next_create_fails) { int e = next_create_fails; next_create_fails = 0; return e; }
    Task* t = new Task;
    sem_init(&t->sem, 0, 0);
    t->fn = fn; t->arg = arg;
    int det = PTHREAD_CREATE_JOINABLE;
    if (at) { pthread_attr_getstacksize(at, &t->stack); pthread_attr_getdetachstate(at, &det); }
    int id = (int)S.tasks.size();
    S.tasks.push_back(t);
    t->detached = det == PTHREAD_CREATE_DETACHED;
    pthread_attr_t ra; pthread_attr_init(&ra);
    pthread_attr_setstacksize(&ra, std::max<size_t>(t->stack, 1 << 18));
    int r = __real_pthread_create(&t->th, &ra, task_main, (void*)(intptr_t)id);
    pthread_attr_destroy(&ra);
    if (r != 0) { fail("harness: cannot create a thread: %d", r); }
    *th = t->th;
    point();
    return 0;
}
static int find_task(pthread_t th) {
    for (size_t i = S.tasks.size(); i-- > 0;) if (!S.tasks[i]->joined && i > 0 && pthread_equal(S.tasks[i]->th, th)) return (int)i;
    return -1;
}
int __wrap_pthread_join(pthread_t th, void** ret) {
    if (!S.on) return __real_pthread_join(th, ret);
    point();
    int i = find_task(th);
    if (i < 0) return ESRCH;
    if (S.tasks[i]->detached) return EINVAL;
    if (S.tasks[i]->st != DONE) { S.tasks[S.cur]->target = i; block(ON_JOIN, nullptr); }
    S.tasks[i]->joined = true;
    int r = __real_pthread_join(th, nullptr);
    if (ret) *ret = S.tasks[i]->ret;
    point();
    return r;
}
int __wrap_pthread_detach(pthread_t th) {
    if (!S.on) return __real_pthread_detach(th);
    int i = find_task(th);
    if (i < 0) return ESRCH;
    S.tasks[i]->detached = true;
    return 0;
}
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    if (next_init_fails) { next_init_fails = 0; init_failed = 1; return ENOMEM; }
    if (!S.on) return __real_pthread_mutex_init(m, a);
    int r = __real_pthread_mutex_init(m, a);
    if (r) return r;
    Mtx x; if (a) pthread_mutexattr_gettype(a, &x.type);
    S.mtx[m] = x;
    return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!managed(m)) return __real_pthread_mutex_destroy(m);
    point();
    if (S.mtx[m].owner >= 0) return EBUSY;
    S.mtx.erase(m);
    return __real_pthread_mutex_destroy(m);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!managed(m)) return __real_pthread_mutex_lock(m);
    if (int e = injected("locking", EAGAIN)) return e;
    point();
    take(m);
    point();
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!managed(m)) return __real_pthread_mutex_trylock(m);
    point();
    if (S.mtx[m].owner >= 0) return EBUSY;
    take(m);
    point();
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!managed(m)) return __real_pthread_mutex_unlock(m);
    if (int e = injected("unlocking", EPERM)) return e;
    point();
    int r = give(m);
    point();
    return r;
}
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
    if (next_init_fails) { next_init_fails = 0; init_failed = 1; return ENOMEM; }
    int r = __real_pthread_cond_init(c, a);
    if (r == 0 && S.on) S.conds[c] = 0;
    return r;
}
int __wrap_pthread_cond_destroy(pthread_cond_t* c) {
    if (!S.on || !S.conds.count(c)) return __real_pthread_cond_destroy(c);
    point();
    if (S.conds[c] > 0) fail("a condition variable was destroyed while a thread sleeps on it");
    S.conds.erase(c);
    return __real_pthread_cond_destroy(c);
}
static int sim_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (int e = injected("waiting", EINVAL)) return e;
    point();
    if (!S.mtx.count(m)) fail("a thread waits on a condition with something that is not a mutex");
    // releasing the mutex and falling asleep are one step.
    int r = give(m);
    if (r) return r;
    S.conds[c]++; S.slept++;
    block(ON_COND, c);
    S.conds[c]--;
    take(m);
    point();
    return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!S.on || !S.conds.count(c)) return __real_pthread_cond_wait(c, m);
    return sim_wait(c, m);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (!S.on || !S.conds.count(c)) return __real_pthread_cond_timedwait(c, m, ts);
    return sim_wait(c, m);
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
    if (!S.on || !S.conds.count(c)) return __real_pthread_cond_signal(c);
    if (int e = injected("signalling", EINVAL)) return e;
    point();
    std::vector<int> z;
    for (size_t i = 0; i < S.tasks.size(); i++) if (S.tasks[i]->st == ON_COND && S.tasks[i]->obj == c && !S.tasks[i]->woken) z.push_back((int)i);
    if (!z.empty()) S.tasks[z[g.below(z.size())]]->woken = true;
    point();
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
    if (!S.on || !S.conds.count(c)) return __real_pthread_cond_broadcast(c);
    if (int e = injected("signalling all", EINVAL)) return e;
    point();
    for (auto t : S.tasks) if (t->st == ON_COND && t->obj == c) t->woken = true;
    point();
    return 0;
}
}

// ------------------------------------------------------------ programs
enum Kind { CRIT, NEST, TAKE, POST, GENWAIT, GENBUMP, PAUSE, SPAWN, JOIN };
struct Script;
struct Op { Kind k; int a = 0, b = 0, n = 0; bool all = false; Script* child = nullptr; };
struct Script { int id = 0; std::vector<Op> ops; int64_t ret = 0; size_t stack = 0; };
struct Cell {               // what one mutex protects (plain data on purpose)
    rc_thread_mutex* m = nullptr;
    rc_thread_cond* tok = nullptr; rc_thread_cond* genc = nullptr;
    int holder = -1;
    uint64_t count = 0, gen = 0;
    int64_t tokens = 0;
    int takers = 0, genners = 0;     // sleeping threads, by reason
    std::vector<uint64_t> seen;      // generations the sleepers started from
};
struct Run {
    Script* s; int started = 0, finished = 0; rc_thread* th = nullptr; bool joined = false;
    std::vector<std::pair<int, uint64_t>> did;   // (cell, increments)
    size_t slot = 0;
};
static std::vector<Cell>* cells;
static std::vector<Run*>* runs;
static rc_allocator* A;
static std::atomic<int> live_threads{0};

static void pause_here(int n) { if (S.on) { while (n-- > 0) point(); } else { while (n-- > 0) sched_yield(); } }
static rc_thread_mutex_lock* lock(int who, Cell& c) {
    rc_thread_mutex_lock* l = nullptr;
    for (;;) {
        if (S.on) S.last_injected = 0;
        status st = rc_thread_mutex_lock_acquire(&l, c.m);
        if (S.on && S.last_injected) {
            CHECK(st != STATUS_SUCCESS, "acquiring a lock reported success though the lock could not be taken");
            CHECK(l == nullptr, "a failed acquire returned a lock");
            continue;
        }
        CHECK(st == STATUS_SUCCESS, "acquiring a lock failed with %d", st);
        break;
    }
    CHECK(l, "acquire returned no lock");
    CHECK(c.holder == -1, "thread %d got the lock of mutex %d while thread %d held it", who, (int)(&c - cells->data()), c.holder);
    c.holder = who;
    return l;
}
static void unlock(int who, Cell& c, rc_thread_mutex_lock* l) {
    CHECK(c.holder == who, "thread %d holds the lock, but mutex %d was used by thread %d meanwhile", who, (int)(&c - cells->data()), c.holder);
    c.holder = -1;
    for (;;) {
        if (S.on) S.last_injected = 0;
        status st = rc_resource_release(rc_thread_mutex_lock_resource_handle(l));
        if (S.on && S.last_injected) {
            CHECK(st != STATUS_SUCCESS, "releasing a lock reported success though it failed");
            continue;
        }
        CHECK(st == STATUS_SUCCESS, "releasing a lock failed with %d", st);
        break;
    }
}
static void signal(Cell& c, rc_thread_mutex_lock* l, rc_thread_cond* cond, bool all) {
    for (;;) {
        if (S.on) S.last_injected = 0;
        status st = all ? rc_thread_cond_signal_all(l, cond) : rc_thread_cond_signal_one(l, cond);
        if (S.on && S.last_injected) { CHECK(st != STATUS_SUCCESS, "a failed signal reported success"); continue; }
        CHECK(st == STATUS_SUCCESS, "signalling failed with %d", st);
        return;
    }
}
static void wait(int who, Cell& c, rc_thread_mutex_lock*& l, rc_thread_cond* cond) {
    CHECK(c.holder == who, "thread %d lost its lock", who);
    if (S.on) S.last_injected = 0;
    c.holder = -1;
    // what the sleeper may not do is checked by everyone else through `holder`.
    rc_thread_mutex_lock* before = l;
    status st = rc_thread_cond_wait(&l, cond);
    if (S.on && S.last_injected == EINVAL) {
        CHECK(st != STATUS_SUCCESS, "a failed wait reported success");
        CHECK(l == before, "a failed wait changed the lock pointer");
        CHECK(c.holder == -1, "the lock was given away by a failed wait");
        c.holder = who;
        return;
    }
    CHECK(st == STATUS_SUCCESS, "waiting on a condition failed with %d", st);
    CHECK(l, "the wait returned no lock");
    CHECK(c.holder == -1, "thread %d returned from a wait while thread %d held the lock", who, c.holder);
    c.holder = who;
}
static status thread_body(void* ctx);
static Run* spawn(int who, Script* s) {
    Run* r = (*runs)[s->id];

    if (S.on) g.log("task %d: thread %d created by %d", self, s->id, who);
    rc_thread* th = nullptr;
    live_threads++;
    status st = rc_thread_create(&th, A, s->stack, r, thread_body);
    CHECK(st == STATUS_SUCCESS, "creating a thread failed with %d", st);
    CHECK(th, "no thread was returned");
    r->th = th;
    return r;
}
static void join(int who, Run* r) {
    if (S.on) g.log("task %d: thread %d released by %d", self, r->s->id, who);
    status st = rc_resource_release(rc_thread_resource_handle(r->th));
    CHECK(r->started == 1, "thread %d's function ran %d times", r->s->id, r->started);
    CHECK(r->finished == 1, "releasing thread %d did not wait for its function to end", r->s->id);
    CHECK(st == (status)r->s->ret, "releasing thread %d returned %d, its function returned %d", r->s->id, st, (int)(status)r->s->ret);
    r->joined = true;
}
static void perform(int who, Run* r, const Script& s) {
    std::vector<Run*> kids;
    for (auto& op : s.ops) {
        Cell& c = (*cells)[op.a];
        switch (op.k) {
        case CRIT: {
            auto* l = lock(who, c);
            for (int i = 0; i < op.n; i++) {
                uint64_t v = c.count;
                pause_here(op.b);
                CHECK(c.count == v, "data of mutex %d changed under thread %d's lock", op.a, who);
                c.count = v + 1;
            }
            r->did.push_back({op.a, (uint64_t)op.n});
            unlock(who, c, l);
            break;
        }
        case NEST: {
            Cell& d = (*cells)[op.b];
            auto* l1 = lock(who, c);
            pause_here(1);
            auto* l2 = lock(who, d);
            uint64_t v = c.count, w = d.count;
            pause_here(1);
            c.count = v + 1; d.count = w + 1;
            r->did.push_back({op.a, 1}); r->did.push_back({op.b, 1});
            if (op.all) { unlock(who, c, l1); pause_here(1); unlock(who, d, l2); }
            else { unlock(who, d, l2); unlock(who, c, l1); }
            break;
        }
        case TAKE: {
            auto* l = lock(who, c);
            while (c.tokens == 0) { c.takers++; wait(who, c, l, c.tok); c.takers--; }
            c.tokens--;
            c.count++; r->did.push_back({op.a, 1});
            unlock(who, c, l);
            break;
        }
        case POST: {
            auto* l = lock(who, c);
            c.tokens += op.n;
            if (op.all) signal(c, l, c.tok, true);
            else for (int i = 0; i < op.n; i++) signal(c, l, c.tok, false);
            pause_here(op.b);
            unlock(who, c, l);
            break;
        }
        case GENWAIT: {
            auto* l = lock(who, c);
            uint64_t g0 = c.gen;
            while (c.gen == g0) { c.genners++; c.seen.push_back(g0); wait(who, c, l, c.genc); c.genners--; c.seen.erase(std::find(c.seen.begin(), c.seen.end(), g0)); }
            unlock(who, c, l);
            break;
        }
        case GENBUMP: {
            auto* l = lock(who, c);
            c.gen++;
            signal(c, l, c.genc, true);
            pause_here(op.b);
            unlock(who, c, l);
            break;
        }
        case PAUSE: pause_here(op.n); break;
        case SPAWN: kids.push_back(spawn(who, op.child)); break;
        case JOIN: if (!kids.empty()) { join(who, kids.back()); kids.pop_back(); } break;
        }
    }
    for (auto k : kids) join(who, k);
}
static status thread_body(void* ctx) {
    Run* r = (Run*)ctx;
    r->started++;
    if (S.on) {
        CHECK(std::find(runs->begin(), runs->end(), r) != runs->end(), "a thread function received a foreign context");
        CHECK(S.tasks[self]->stack >= r->s->stack, "a thread got a stack of %zu bytes instead of %zu", S.tasks[self]->stack, r->s->stack);
    }
    perform(r->s->id, r, *r->s);
    r->finished++;
    live_threads--;
    return (status)r->s->ret;
}

static void gen_script(std::vector<std::unique_ptr<Script>>& all, Script* s, int depth, int nm, int& budget) {
    s->stack = (size_t)16384 * (1 + g.below(16));
#if FREE_RUN
    s->stack += 262144;
#endif
    switch (g.below(3)) { case 0: s->ret = 0; break; case 1: s->ret = g.below(8); break; default: s->ret = (int32_t)g.u64(); }
    // the fiber runtime and the thread code report small positive codes too
    if (g.chance(1, 6)) s->ret = ERROR_THREAD_JOIN;
    while (g.more(5) && s->ops.size() < 16) {
        Op op; op.a = (int)g.below(nm);
        op.k = (Kind)g.pick({6, nm > 1 ? 2u : 0u, 4, 4, 2, 2, 2, depth < 2 && budget > 0 ? 2u : 0u, 1});
        op.n = 1 + (int)g.below(3); op.b = (int)g.below(3); op.all = g.coin();
        if (op.k == NEST) { op.a = (int)g.below(nm - 1); op.b = op.a + 1 + (int)g.below(nm - 1 - op.a); }
        if (op.k == SPAWN) {
            all.emplace_back(new Script); op.child = all.back().get(); op.child->id = (int)all.size() - 1; budget--;
            gen_script(all, op.child, depth + 1, nm, budget);
        }
        s->ops.push_back(op);
    }
}
static const char* kname[] = {"crit", "nest", "take", "post", "genwait", "genbump", "pause", "spawn", "join"};

static void failing_creators() {
    // invalid stack sizes and failing primitives: failure, nothing kept.
    size_t before = heap.live();
    static Run dummy{}; static Script ds; dummy.s = &ds; dummy.started = dummy.finished = 0;
    switch (g.below(4)) {
    case 0: {
        rc_thread* th = nullptr; size_t sz = 1 + g.below(16383);
        g.log("thread with a stack of %zu bytes", sz);
        status st = rc_thread_create(&th, A, sz, &dummy, thread_body);
        CHECK(st != STATUS_SUCCESS && th == nullptr, "a thread with a stack of %zu bytes was created (%d)", sz, st);
        break;
    }
    case 1: {
        rc_thread* th = nullptr; next_create_fails = EAGAIN;
        g.log("thread creation fails");
        status st = rc_thread_create(&th, A, 65536, &dummy, thread_body);
        CHECK(next_create_fails == 0, "no thread creation was attempted");
        CHECK(st != STATUS_SUCCESS && th == nullptr, "a thread that could not be created was returned (%d)", st);
        break;
    }
    case 2: {
        rc_thread_mutex* m = nullptr; next_init_fails = 1; init_failed = 0;
        g.log("mutex creation fails");
        status st = rc_thread_mutex_create(&m, A);
        next_init_fails = 0;
        if (init_failed) CHECK(st != STATUS_SUCCESS && m == nullptr, "a mutex that could not be initialised was returned (%d)", st);
        else { CHECK(st == STATUS_SUCCESS, "mutex creation failed with %d", st); CHECK(rc_resource_release(rc_thread_mutex_resource_handle(m)) == STATUS_SUCCESS, "mutex release failed"); }
        break;
    }
    default: {
        rc_thread_cond* m = nullptr; next_init_fails = 1; init_failed = 0;
        g.log("condition creation fails");
        status st = rc_thread_cond_create(&m, A);
        next_init_fails = 0;
        if (init_failed) CHECK(st != STATUS_SUCCESS && m == nullptr, "a condition that could not be initialised was returned (%d)", st);
        else { CHECK(st == STATUS_SUCCESS, "condition creation failed with %d", st); CHECK(rc_resource_release(rc_thread_cond_resource_handle(m)) == STATUS_SUCCESS, "condition release failed"); }
    }
    }
    if (!FREE_RUN) CHECK(heap.live() == before, "a failed creation kept %zd block(s)", (ssize_t)(heap.live() - before));
    CHECK(dummy.started == 0, "the function of a thread that could not be created ran");
}

void vp::run_case() {
    if (!FREE_RUN) heap.begin();
    S.on = false; S.tasks.clear(); S.mtx.clear(); S.conds.clear();
    S.contended = S.slept = S.switches = 0; self = 0; live_threads = 0;
    S.inject = 0; S.spurious = 0;
    next_create_fails = next_init_fails = 0;
    CHECK(rc_malloc_allocator_create(&A) == STATUS_SUCCESS, "allocator");
    int nm = 1 + (int)g.below(3), nt = 1 + (int)g.below(4);
    std::vector<Cell> cs(nm); cells = &cs;
    std::vector<std::unique_ptr<Script>> scripts;
    int budget = 3;
    std::vector<Script*> top;
    for (int i = 0; i < nt; i++) {
        scripts.emplace_back(new Script); Script* s = scripts.back().get(); s->id = (int)scripts.size() - 1; top.push_back(s);
        gen_script(scripts, s, 0, nm, budget);
    }
    std::vector<std::unique_ptr<Run>> rs; std::vector<Run*> rp;
    for (auto& s : scripts) {
        rs.emplace_back(new Run); rs.back()->s = s.get(); rp.push_back(rs.back().get());
        std::string d;
        for (auto& o : s->ops) { d += std::string(" ") + kname[o.k] + "(" + std::to_string(o.a) + "," + std::to_string(o.k == SPAWN ? o.child->id : o.b) + "," + std::to_string(o.n) + (o.all ? ",all" : "") + ")"; }
        g.log("thread %d returns %d stack %zu:%s", s->id, (int)(status)s->ret, s->stack, d.c_str());
    }
    runs = &rp;
    Run mainrun; Script ms; ms.id = -2; mainrun.s = &ms;
    if (!FREE_RUN) {
        Task* t0 = new Task; sem_init(&t0->sem, 0, 0); S.tasks.push_back(t0); S.cur = 0;
        S.sw = 1 + (unsigned)g.below(5);
        S.spurious = g.chance(1, 4) ? 1 + (int)g.below(3) : 0;
        S.on = true;
    }
    if (g.chance(1, 5)) failing_creators();
    for (auto& c : cs) {
        CHECK(rc_thread_mutex_create(&c.m, A) == STATUS_SUCCESS && c.m, "mutex creation failed");
        CHECK(rc_thread_cond_create(&c.tok, A) == STATUS_SUCCESS && c.tok, "condition creation failed");
        CHECK(rc_thread_cond_create(&c.genc, A) == STATUS_SUCCESS && c.genc, "condition creation failed");
    }
    if (!FREE_RUN) S.inject = g.chance(1, 6) ? 1 + (int)g.below(3) : 0;
    for (auto s : top) spawn(-2, s);
    const int WHO = -2;
    if (!FREE_RUN) {
        // let everyone run until nobody can, look for sleepers that should be
        // awake, then provide what the rest is waiting for.
        for (;;) {
            bool quiet = !g.chance(1, 3);
            if (!quiet) point();
            else {
                block(QUIESCE, nullptr);
                for (int i = 0; i < nm; i++) {
                    Cell& c = cs[i];
                    CHECK(c.tokens == 0 || c.takers == 0, "%d thread(s) sleep on mutex %d's condition though %lld token(s) were signalled", c.takers, i, (long long)c.tokens);
                    for (auto s : c.seen) CHECK(s == c.gen, "a thread still sleeps on mutex %d's condition after signal-all", i);
                }
                g.log("quiescent");
            }
            bool any = false;
            for (int i = 0; i < nm; i++) {
                Cell& c = cs[i];
                if (!c.takers && !c.genners) continue;
                any = true;
                auto* l = lock(WHO, c);
                int k = c.takers; bool all = g.coin();
                if (k) { if (!all) k = 1 + (int)g.below(k); c.tokens += k; if (all) signal(c, l, c.tok, true); else for (int j = 0; j < k; j++) signal(c, l, c.tok, false); }
                if (c.genners) { c.gen++; signal(c, l, c.genc, true); }
                g.log("main posts %d on %d%s", k, i, c.genners ? " and bumps" : "");
                unlock(WHO, c, l);
            }
            if (!any) {
                bool busy = false;
                for (size_t i = 1; i < S.tasks.size(); i++) if (S.tasks[i]->st != DONE) busy = true;
                if (!busy) break;
                if (quiet) break;           // joining tells who is stuck
            }
        }
    } else {
        for (int round = 0; live_threads.load() > 0; round++) {
            for (auto& c : cs) {
                auto* l = lock(WHO, c);
                int k = c.takers;
                c.tokens += k;
                if (round & 1) { if (k) signal(c, l, c.tok, true); } else for (int j = 0; j < k; j++) signal(c, l, c.tok, false);
                if (c.genners) { c.gen++; signal(c, l, c.genc, true); }
                unlock(WHO, c, l);
            }
            sched_yield();
        }
    }
    std::vector<Script*> order = top;
    while (!order.empty()) { size_t i = g.below(order.size()); join(WHO, rp[order[i]->id]); order.erase(order.begin() + i); }
    if (!FREE_RUN) for (size_t i = 1; i < S.tasks.size(); i++) {
        CHECK(S.tasks[i]->st == DONE, "a thread is still running after every thread was released");
        CHECK(S.tasks[i]->joined, "a finished thread was never joined");
    }
    if (!FREE_RUN) CHECK(S.tasks.size() == 1 + (size_t)std::count_if(rp.begin(), rp.end(), [](Run* r) { return r->th; }), "the number of threads that ran is wrong");
    std::vector<uint64_t> want(nm, 0);
    for (auto r : rp) for (auto& d : r->did) want[d.first] += d.second;
    for (int i = 0; i < nm; i++) CHECK(cs[i].count == want[i], "mutex %d: %llu increments were made, %llu are visible", i, (unsigned long long)want[i], (unsigned long long)cs[i].count);
    for (auto& c : cs) {
        S.inject = 0;
        CHECK(rc_resource_release(rc_thread_cond_resource_handle(c.tok)) == STATUS_SUCCESS, "releasing a condition failed");
        CHECK(rc_resource_release(rc_thread_cond_resource_handle(c.genc)) == STATUS_SUCCESS, "releasing a condition failed");
        CHECK(rc_resource_release(rc_thread_mutex_resource_handle(c.m)) == STATUS_SUCCESS, "releasing a mutex failed");
    }
    if (rp.size() >= 2) {
        if (FREE_RUN) g.nontrivial();
        else if (S.contended || S.slept) g.nontrivial();
    }
    if (S.contended) g.label("contended lock");
    if (S.slept) g.label("slept on a condition");
    if (rp.size() > (size_t)nt) g.label("nested threads");
    CHECK(rc_resource_release(rc_allocator_resource_handle(A)) == STATUS_SUCCESS, "allocator release");
    for (auto t : S.tasks) { sem_destroy(&t->sem); delete t; }
    S.tasks.clear();
    S.on = false;
    if (!FREE_RUN) { heap.expect_clean("end"); heap.end(); }
}
