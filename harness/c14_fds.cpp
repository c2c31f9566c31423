// C14: descriptor utilities, each case in a process of its own.
#include "rc.hpp"
#include <map>
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
namespace vp {
const char* const PROPERTY = "C14";
const char* const RULE = "a case lays out a descriptor table (1-8 distinct files at generated numbers, up to numbers above 1023, standard descriptors open or not) in a forked process, runs 1-3 descriptor utilities on it (with bad arguments, repeated numbers and thresholds inside, below and above the table) and compares the whole table, by file identity and flags, with a model; non-trivial = a call that moved, set or closed at least one of two or more open descriptors, or data passed over a created pair";
const std::vector<Probe> PROBES;
void setup() {}

static const int TOP = 1400;
struct File { uint64_t ino; int fl; };
typedef std::map<int, uint64_t> Table;
static Table snap() {
    Table t;
    for (int i = 0; i < TOP; i++) { struct stat st; if (fstat(i, &st) == 0) t[i] = ((uint64_t)st.st_dev << 40) ^ st.st_ino; }
    return t;
}
static int shut_on_exec(const Table& t) { for (auto& x : t) if (fcntl(x.first, F_GETFD) & FD_CLOEXEC) return x.first; return -1; }
static std::string show(const Table& t) { std::string s; for (auto& x : t) { s += std::to_string(x.first) + ":" + std::to_string(x.second & 0xffffff) + " "; } return s; }
static void same(const Table& got, const Table& want, const char* op) {
    if (got != want) fail("after %s the descriptor table is {%s} instead of {%s}", op, show(got).c_str(), show(want).c_str());
}
static int gen_fd(int top) { switch (g.below(4)) { case 0: return (int)g.below(12); case 1: return (int)g.below(40); case 2: return (int)(1015 + g.below(20)); default: return (int)g.below(top); } }

struct Op { int kind; int threshold; std::vector<int> idx; std::vector<int> raw; int fd; std::vector<std::pair<int,int>> pairs; int domain, type, proto; bool bad; int badkind; bool nb; int start; };
struct Plan { std::vector<int> nums; bool std[3]; int limit; std::vector<Op> ops; bool direct; };
// both calling forms: the imported one and the exported function itself
static bool direct_form;

static status move_n(int th, std::vector<int*> p) {
    p.resize(9, nullptr);
    return direct_form ? RCPR_SYM(socket_utility_move_descriptors)(th, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], nullptr) : rc_socket_utility_move_descriptors(th, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], nullptr);
}
static status set_n(std::vector<int> a) { // flat list ended by -1
    while (a.size() < 20) a.push_back(-1);
    if (direct_form) return RCPR_SYM(socket_utility_setfds)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], -1);
    return rc_socket_utility_setfds(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], -1);
}
static void close_real(int fd) { close(fd); }

static void child(const Plan& P) {
    direct_form = P.direct;
    // only the planned descriptors stay open
    struct rlimit rl = {(rlim_t)P.limit, (rlim_t)P.limit};
    for (int i = 0; i < 4096; i++) close_real(i);
    setrlimit(RLIMIT_NOFILE, &rl);
    std::vector<int> all = P.nums;
    for (int i = 0; i < 3; i++) if (P.std[i]) all.push_back(i);
    std::sort(all.rbegin(), all.rend());
    for (int n : all) {
        int f = memfd_create("x", 0);
        if (f < 0) _exit(0);
        if (f != n) { if (dup2(f, n) != n) { _exit(0); } close_real(f); }
    }
    Table model = snap();
    std::vector<int> vars = P.nums;
    for (auto& o : P.ops) {
        bool some = shut_on_exec(model) >= 0;
        struct After { bool on; ~After() noexcept(false) { if (!on) return; int x = shut_on_exec(snap()); if (x >= 0) fail("descriptor %d would now be closed when a program is started", x); } } after{(o.kind == 0 || o.kind == 1) && !some};
        switch (o.kind) {
        case 0: { // move
            std::vector<int> v; std::vector<int*> p;
            int badat = -1;
            for (size_t k = 0; k < o.idx.size(); k++) v.push_back(vars[o.idx[k]]);
            if (o.bad) { badat = (int)(o.start % v.size()); int none = 1399; while (model.count(none)) none--; v[badat] = o.badkind ? -1 - o.start : none; }
            std::vector<int> old = v;
            for (auto& x : v) p.push_back(&x);
            std::string d; for (int x : v) d += std::to_string(x) + " ";
            status s = move_n(o.threshold, p);
            Table now = snap();
            if (o.threshold < 0) { CHECK(s == ERROR_GENERAL_INVALID_ARGUMENTS, "moving to %d returned %08x", o.threshold, s); CHECK(v == old, "a refused move changed the caller's variables"); same(now, model, "a refused move"); break; }
            bool nofit = o.threshold + (int)v.size() + (int)model.size() >= P.limit;
            size_t done = v.size();
            if (badat >= 0) done = badat;
            if (badat < 0 && !nofit) CHECK(s == STATUS_SUCCESS, "moving {%s} to %d and above failed with %08x", d.c_str(), o.threshold, s);
            if (badat >= 0) { CHECK(s != STATUS_SUCCESS, "moving a bad descriptor succeeded"); if (o.badkind && !nofit) CHECK(s == ERROR_GENERAL_INVALID_ARGUMENTS, "moving descriptor %d returned %08x", v[badat], s); }
            if (nofit && s != STATUS_SUCCESS && badat < 0) { // which ones moved is up to the call, but nothing may be lost
                Table want = model; for (int x : old) want.erase(x);
                for (size_t k = 0; k < v.size(); k++) { CHECK(now.count(v[k]) && now[v[k]] == model[old[k]], "a failed move lost descriptor %d", old[k]); want[v[k]] = now[v[k]]; }
                same(now, want, "a failed move");
                model = now; for (size_t k = 0; k < v.size(); k++) vars[o.idx[k]] = v[k];
                break;
            }
            Table want = model;
            for (size_t k = 0; k < done; k++) want.erase(old[k]);
            for (size_t k = 0; k < v.size(); k++) {
                if (k < done) {
                    CHECK(v[k] >= o.threshold, "descriptor %d moved to %d, below %d", old[k], v[k], o.threshold);
                    CHECK(now.count(v[k]) && now[v[k]] == model[old[k]], "moving {%s} to %d and above: descriptor %d, now %d, is not open on its file: {%s}", d.c_str(), o.threshold, old[k], v[k], show(now).c_str());
                    want[v[k]] = model[old[k]];
                    vars[o.idx[k]] = v[k];
                } else CHECK(v[k] == old[k], "a descriptor behind the failing one was changed");
            }
            CHECK(want.size() == model.size(), "two moved descriptors share a number");
            same(now, want, "moving descriptors");
            model = now;
            break; }
        case 1: { // set
            std::vector<int> flat; Table want = model; status ws = STATUS_SUCCESS; bool stop = false;
            std::string d;
            for (auto& pr : o.pairs) {
                int cur = pr.first >= 0 ? vars[pr.first] : pr.first, map = pr.second;
                flat.push_back(cur); flat.push_back(map); d += std::to_string(cur) + "->" + std::to_string(map) + " ";
                if (stop) continue;
                if (cur < 0) { stop = true; if (flat.size() == 2) ws = ERROR_GENERAL_INVALID_ARGUMENTS; continue; }
                if (map < 0) { stop = true; ws = ERROR_GENERAL_INVALID_ARGUMENTS; continue; }
                if (!want.count(cur) || map >= P.limit) { stop = true; ws = ERROR_SOCKET_UTILITIES_DUP2_FAILURE; continue; }
                uint64_t f = want[cur]; if (cur != map) want.erase(cur); want[map] = f;
            }
            status s = set_n(flat);
            CHECK(s == ws, "setfds %s returned %08x instead of %08x", d.c_str(), s, ws);
            Table now = snap();
            same(now, want, ("setfds " + d).c_str());
            model = now;
            for (auto& x : vars) { (void)x; }
            // the variables no longer say where things are
            vars.clear(); for (auto& x : now) vars.push_back(x.first);
            if (vars.empty()) _exit(0);
            while (vars.size() < P.nums.size()) vars.push_back(vars[0]);
            if (&o != &P.ops.back()) _exit(0);
            break; }
        case 2: { OK(rc_socket_utility_close_standard_fds()); Table want = model; for (int i = 0; i < 3; i++) want.erase(i); same(snap(), want, "closing the standard descriptors"); model = want;
            for (int x : vars) if (!model.count(x)) _exit(0); // nothing left to name
            break; }
        case 3: {
            OK(rc_socket_utility_close_other_fds(o.fd));
            Table want; for (auto& x : model) if (x.first <= o.fd) want.insert(x);
            same(snap(), want, ("closing all above " + std::to_string(o.fd)).c_str());
            model = want;
            if (&o != &P.ops.back()) _exit(0);
            break; }
        case 4: { // socket pair
            int l = -7, r = -7;
            status s = rc_socket_utility_socketpair(o.domain, o.type, o.proto, &l, &r);
            if (o.bad) { CHECK(s == ERROR_SOCKET_UTILITIES_SOCKETPAIR_FAILURE, "an impossible socket pair returned %08x", s); same(snap(), model, "a failed socketpair"); break; }
            if (s != STATUS_SUCCESS && model.size() + 2 > (size_t)P.limit - 2) { same(snap(), model, "a failed socketpair"); break; }
            CHECK(s == STATUS_SUCCESS, "socketpair failed with %08x", s);
            CHECK(l != r && !model.count(l) && !model.count(r) && fcntl(l, F_GETFD) >= 0 && fcntl(r, F_GETFD) >= 0, "socketpair gave %d and %d", l, r);
            int base = o.type & 0xf;
            for (int e : {l, r}) {
                int ty = 0; socklen_t len = sizeof ty; getsockopt(e, SOL_SOCKET, SO_TYPE, &ty, &len);
                CHECK(ty == base, "a socket pair end has type %d, not %d", ty, base);
                int dm = 0; len = sizeof dm; getsockopt(e, SOL_SOCKET, SO_DOMAIN, &dm, &len);
                CHECK(dm == o.domain, "a socket pair end has domain %d", dm);
                CHECK(((fcntl(e, F_GETFL) & O_NONBLOCK) != 0) == ((o.type & SOCK_NONBLOCK) != 0), "wrong blocking mode");
            }
            char b[16];
            CHECK(send(l, "left", 4, MSG_NOSIGNAL) == 4 && recv(r, b, 16, 0) == 4 && !memcmp(b, "left", 4), "left to right does not work");
            CHECK(send(r, "right", 5, MSG_NOSIGNAL) == 5 && recv(l, b, 16, 0) == 5 && !memcmp(b, "right", 5), "right to left does not work");
            if (o.nb) {
                for (int e : {l, r}) {
                    int other = e == l ? r : l;
                    int before = fcntl(e, F_GETFL), obefore = fcntl(other, F_GETFL), cl = fcntl(e, F_GETFD);
                    OK(rc_socket_utility_set_nonblock(e));
                    CHECK(fcntl(e, F_GETFL) == (before | O_NONBLOCK), "set_nonblock changed the flags from %x to %x", before, fcntl(e, F_GETFL));
                    CHECK(fcntl(e, F_GETFD) == cl && fcntl(other, F_GETFL) == obefore, "set_nonblock changed something else");
                    CHECK(recv(e, b, 16, 0) < 0 && (errno == EAGAIN), "a read on a non-blocking socket did not report it would block");
                    if (!o.start) break;
                }
            }
            close_real(l); close_real(r);
            same(snap(), model, "closing the pair");
            break; }
        default: { // non-blocking flags on a file, or a bad descriptor
            if (o.bad) { int none = 1399; while (model.count(none)) none--; status s = rc_socket_utility_set_nonblock(o.badkind ? none : -1); CHECK(s == ERROR_SOCKET_UTILITIES_SET_NONBLOCK_FAILURE, "set_nonblock on a bad descriptor returned %08x", s); same(snap(), model, "set_nonblock"); break; }
            int e = vars[0];
            if (!model.count(e)) break;
            if (o.start) fcntl(e, F_SETFL, O_APPEND);
            std::map<int, std::pair<int,int>> fl; for (auto& x : model) fl[x.first] = {fcntl(x.first, F_GETFL), fcntl(x.first, F_GETFD)};
            OK(rc_socket_utility_set_nonblock(e));
            if (o.nb) OK(rc_socket_utility_set_nonblock(e));
            same(snap(), model, "set_nonblock");
            for (auto& x : model) {
                int want = fl[x.first].first | (x.first == e ? O_NONBLOCK : 0);
                CHECK(fcntl(x.first, F_GETFL) == want && fcntl(x.first, F_GETFD) == fl[x.first].second, "set_nonblock(%d) changed the flags of %d from %x to %x", e, x.first, fl[x.first].first, fcntl(x.first, F_GETFL));
            }
        }
        }
    }
    _exit(0);
}

void run_case() {
    Plan P;
    P.limit = g.chance(1, 5) ? 64 : 1400;
    P.direct = g.coin();
    size_t n = 1 + g.below(8);
    for (int i = 0; i < 3; i++) P.std[i] = !g.chance(1, 4);
    // sometimes the standard descriptors take part
    if (g.chance(1, 4)) { int f = (int)g.below(3); P.std[f] = false; P.nums.push_back(f); }
    for (size_t i = 0; i < n; i++) {
        int f = 3 + gen_fd(P.limit - 60);
        if (f >= P.limit - 20) f = 3 + f % (P.limit - 24);
        if (std::find(P.nums.begin(), P.nums.end(), f) == P.nums.end()) P.nums.push_back(f);
    }
    n = P.nums.size();
    size_t nops = 1 + g.below(3); bool nt = false;
    std::string desc; for (int f : P.nums) desc += std::to_string(f) + " ";
    g.log("open: %s std %d%d%d limit %d", desc.c_str(), P.std[0], P.std[1], P.std[2], P.limit);
    for (size_t k = 0; k < nops; k++) {
        Op o{}; o.kind = (int)g.pick({8, 6, 1, 3, 3, 2}); o.start = (int)g.below(2); o.nb = g.coin(); o.badkind = (int)g.below(2);
        switch (o.kind) {
        case 0: {
            o.threshold = g.chance(1, 12) ? -1 - (int)g.below(3) : g.coin() ? P.nums[g.below(n)] + (int)g.range(-2, 2) : gen_fd(P.limit);
            if (o.threshold < 0 && !g.chance(1, 3)) o.threshold = 3;
            o.bad = g.chance(1, 8);
            if (o.bad && o.threshold + 30 >= P.limit) o.threshold = 3;
            std::vector<int> order(n); for (size_t i = 0; i < n; i++) order[i] = (int)i;
            for (size_t i = n; i > 1; i--) std::swap(order[i - 1], order[g.below(i)]);
            order.resize(1 + g.below(std::min<size_t>(n, 8)));
            o.idx = order;
            if (n > 1) nt = true;
            g.log("move %zu to %d%s", order.size(), o.threshold, o.bad ? ", one of them bad" : "");
            break; }
        case 1: {
            std::vector<int> order(n); for (size_t i = 0; i < n; i++) order[i] = (int)i;
            for (size_t i = n; i > 1; i--) std::swap(order[i - 1], order[g.below(i)]);
            size_t m = 1 + g.below(std::min<size_t>(n, 8)); bool neg = g.chance(1, 10);
            std::vector<int> used;
            for (size_t i = 0; i < m; i++) {
                int map; int tries = 0;
                // a target that a later pair still needs is outside the contract
                do { map = g.chance(1, 6) ? P.nums[order[i]] : g.coin() ? (int)g.below(8) : gen_fd(P.limit + 30); tries++; }
                while (tries < 20 && std::any_of(order.begin() + i + 1, order.begin() + m, [&](int j) { return P.nums[j] == map; }));
                if (tries >= 20) map = P.nums[order[i]];
                o.pairs.push_back({order[i], map});
            }
            if (neg) { if (g.coin()) o.pairs.insert(o.pairs.begin() + g.below(m), {-1, 5}); else o.pairs[g.below(m)].second = -1; }
            if (n > 1) nt = true;
            // later calls would need to know where things went
            g.log("setfds of %zu pairs", o.pairs.size());
            k = nops;
            break; }
        case 2: g.log("close standard"); nt = true; break;
        case 3: o.fd = g.coin() ? P.nums[g.below(n)] + (int)g.range(-1, 1) : gen_fd(P.limit) - 1; g.log("close above %d", o.fd); if (n > 1) nt = true; k = nops; break;
        case 4:
            o.domain = AF_UNIX; { int ty[3] = {SOCK_STREAM, SOCK_DGRAM, SOCK_SEQPACKET}; o.type = ty[g.below(3)]; }
            if (g.chance(1, 4)) o.type |= SOCK_NONBLOCK;
            if (g.chance(1, 6)) { o.bad = true; if (g.coin()) o.domain = AF_INET, o.type = SOCK_STREAM; else o.type = 0xa; }
            else nt = true;
            g.log("socketpair %d %x", o.domain, o.type);
            break;
        default: o.bad = g.chance(1, 4); g.log("set_nonblock%s", o.bad ? " on a bad descriptor" : "");
        }
        P.ops.push_back(o);
    }
    if (nt) g.nontrivial();
    pid_t p = fork();
    if (p < 0) fail("fork failed");
    if (p == 0) child(P);
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) _exit(77);
    fail("the process using the descriptor utilities ended with status %x (memory error or signal)", st);
}
} // namespace vp
