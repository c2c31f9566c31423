// C32: connecting, listening, accepting, socket options and socket types over
// the loopback network.
// WRAPS: gethostbyname gethostbyname2 gethostbyname_r gethostbyname2_r getaddrinfo socket connect bind listen getsockopt setsockopt
#include "streams.hpp"
#include <arpa/inet.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <stddef.h>
#include <memory>
extern "C" {
struct hostent* __real_gethostbyname(const char*);
struct hostent* __real_gethostbyname2(const char*, int);
int __real_gethostbyname_r(const char*, struct hostent*, char*, size_t, struct hostent**, int*);
int __real_gethostbyname2_r(const char*, int, struct hostent*, char*, size_t, struct hostent**, int*);
int __real_getaddrinfo(const char*, const char*, const struct addrinfo*, struct addrinfo**);
int __real_socket(int, int, int); int __real_connect(int, const struct sockaddr*, socklen_t);
int __real_bind(int, const struct sockaddr*, socklen_t); int __real_listen(int, int);
int __real_getsockopt(int, int, int, void*, socklen_t*); int __real_setsockopt(int, int, int, const void*, socklen_t);
}
namespace vp {
const char* const PROPERTY = "C32";
const char* const RULE = "a case opens 1-3 listeners (made by the library or handed to it) on generated loopback addresses of both internet families and local names, makes 1-20 connections by name and port or raw, accepts them with address buffers of any size, moves bytes both ways, sets generated options compared with the kernel's own answer, and makes system calls and names fail; the whole descriptor table is compared after each step; non-trivial = at least two connections were made and accepted, or a generated failure was reported";
const std::vector<Probe> PROBES;

// ---- names and failing calls
struct Host { std::string name, literal; };
static std::vector<Host> hosts;
static const char* translate(const char* n, bool* missing) {
    *missing = false;
    if (!n) return n;
    for (auto& h : hosts) if (h.name == n) return h.literal.c_str();
    std::string s = n;
    if (s.size() > 5 && s.compare(s.size() - 5, 5, ".none") == 0) *missing = true;
    return n;
}
enum { F_SOCKET, F_CONNECT, F_BIND, F_LISTEN, F_GETSOCKOPT, F_SETSOCKOPT, F_ACCEPT, F_N };
static int inj[F_N]; static bool used[F_N]; static bool lib;   // failures only hit calls made by the library
static bool hit(int k) { if (lib && inj[k]) { errno = inj[k]; used[k] = true; return true; } return false; }
}
using namespace vp;
extern "C" {
struct hostent* __wrap_gethostbyname(const char* n) { bool m; n = translate(n, &m); if (m) { h_errno = HOST_NOT_FOUND; return nullptr; } return __real_gethostbyname(n); }
struct hostent* __wrap_gethostbyname2(const char* n, int f) { bool m; n = translate(n, &m); if (m) { h_errno = HOST_NOT_FOUND; return nullptr; } return __real_gethostbyname2(n, f); }
int __wrap_gethostbyname_r(const char* n, struct hostent* h, char* b, size_t s, struct hostent** r, int* e) { bool m; n = translate(n, &m); if (m) { *r = nullptr; *e = HOST_NOT_FOUND; return 0; } return __real_gethostbyname_r(n, h, b, s, r, e); }
int __wrap_gethostbyname2_r(const char* n, int f, struct hostent* h, char* b, size_t s, struct hostent** r, int* e) { bool m; n = translate(n, &m); if (m) { *r = nullptr; *e = HOST_NOT_FOUND; return 0; } return __real_gethostbyname2_r(n, f, h, b, s, r, e); }
int __wrap_getaddrinfo(const char* n, const char* s, const struct addrinfo* h, struct addrinfo** r) { bool m; n = translate(n, &m); if (m) return EAI_NONAME; return __real_getaddrinfo(n, s, h, r); }
int __wrap_socket(int a, int b, int c) { return hit(F_SOCKET) ? -1 : __real_socket(a, b, c); }
int __wrap_connect(int a, const struct sockaddr* b, socklen_t c) { return hit(F_CONNECT) ? -1 : __real_connect(a, b, c); }
int __wrap_bind(int a, const struct sockaddr* b, socklen_t c) { return hit(F_BIND) ? -1 : __real_bind(a, b, c); }
int __wrap_listen(int a, int b) { return hit(F_LISTEN) ? -1 : __real_listen(a, b); }
int __wrap_getsockopt(int a, int b, int c, void* d, socklen_t* e) { return hit(F_GETSOCKOPT) ? -1 : __real_getsockopt(a, b, c, d, e); }
int __wrap_setsockopt(int a, int b, int c, const void* d, socklen_t e) { return hit(F_SETSOCKOPT) ? -1 : __real_setsockopt(a, b, c, d, e); }
}
namespace vp {
static int hacc(int fd, void* a, void* l) { if (hit(F_ACCEPT)) return -1; return real_accept(fd, a, l); }
static bool have6;
void setup() {
    sys.accept = hacc;
    int s = __real_socket(AF_INET6, SOCK_STREAM, 0);
    struct sockaddr_in6 a; memset(&a, 0, sizeof a); a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback;
    have6 = s >= 0 && __real_bind(s, (struct sockaddr*)&a, sizeof a) == 0;
    if (s >= 0) close(s);
}
struct InLib { InLib() { lib = true; } ~InLib() { lib = false; } };

// ---- the descriptor table
static const int TOP = 640; static int top = 200;
static std::vector<ino_t> table() { std::vector<ino_t> t(TOP); struct stat st; for (int i = 0; i < top; i++) t[i] = fstat(i, &st) ? 0 : st.st_ino ? st.st_ino : 1; return t; }
static std::vector<ino_t> want;
static void same(const char* op) {
    auto t = table();
    for (int i = 0; i < top; i++) if (t[i] != want[i]) fail("%s: descriptor %d was %s", op, i, !want[i] ? "leaked" : !t[i] ? "closed" : "replaced");
}
// exactly one new descriptor; returns it.
static int fresh(const char* op) {
    auto t = table(); int n = -1;
    for (int i = 0; i < top; i++) if (t[i] != want[i]) {
        if (want[i]) fail("%s: descriptor %d was %s", op, i, t[i] ? "replaced" : "closed");
        if (n >= 0) fail("%s: more than one descriptor was opened (%d and %d)", op, n, i);
        n = i;
    }
    if (n < 0) fail("%s: no descriptor was opened", op);
    want = t;
    return n;
}
static void gone(int fd) { want[fd] = 0; }
static void mine() { want = table(); }      // the harness itself opened or closed something

// ---- addresses
struct Addr { struct sockaddr_storage ss; socklen_t len = 0; int fam() const { return ss.ss_family; } };
static bool eq(const Addr& a, const Addr& b) { return a.len == b.len && !memcmp(&a.ss, &b.ss, a.len); }
static Addr v4(uint32_t ip, int port) { Addr a; memset(&a.ss, 0, sizeof a.ss); auto* s = (struct sockaddr_in*)&a.ss; s->sin_family = AF_INET; s->sin_addr.s_addr = htonl(ip); s->sin_port = htons((uint16_t)port); a.len = sizeof *s; return a; }
static Addr v6(int port) { Addr a; memset(&a.ss, 0, sizeof a.ss); auto* s = (struct sockaddr_in6*)&a.ss; s->sin6_family = AF_INET6; s->sin6_addr = in6addr_loopback; s->sin6_port = htons((uint16_t)port); a.len = sizeof *s; return a; }
static Addr local(const std::string& n) { Addr a; memset(&a.ss, 0, sizeof a.ss); auto* s = (struct sockaddr_un*)&a.ss; s->sun_family = AF_UNIX; memcpy(s->sun_path + 1, n.data(), n.size()); a.len = (socklen_t)(offsetof(struct sockaddr_un, sun_path) + 1 + n.size()); return a; }
static std::string show(const Addr& a) {
    char b[128];
    if (a.fam() == AF_INET) { auto* s = (struct sockaddr_in*)&a.ss; inet_ntop(AF_INET, &s->sin_addr, b, sizeof b); return std::string(b) + ":" + std::to_string(ntohs(s->sin_port)); }
    if (a.fam() == AF_INET6) { auto* s = (struct sockaddr_in6*)&a.ss; inet_ntop(AF_INET6, &s->sin6_addr, b, sizeof b); return "[" + std::string(b) + "]:" + std::to_string(ntohs(s->sin6_port)); }
    return "local name";
}
static Addr name_of(int fd, bool peer) { Addr a; memset(&a.ss, 0, sizeof a.ss); a.len = sizeof a.ss; int r = peer ? getpeername(fd, (struct sockaddr*)&a.ss, &a.len) : getsockname(fd, (struct sockaddr*)&a.ss, &a.len); if (r) fail("descriptor %d is not a connected or bound socket (%d)", fd, errno); return a; }
static int port_of(const Addr& a) { return a.fam() == AF_INET ? ntohs(((struct sockaddr_in*)&a.ss)->sin_port) : ntohs(((struct sockaddr_in6*)&a.ss)->sin6_port); }
static uint32_t ip_of(const Addr& a) { return ntohl(((struct sockaddr_in*)&a.ss)->sin_addr.s_addr); }
static uint64_t counter;

struct Conn { rc_psock* s = nullptr; int fd = -1; bool conn = false; Addr self; };   // one end
struct Pair { Conn c, a; bool accepted = false; };
struct Listener { Addr at; rc_psock* s = nullptr; int fd = -1; bool own = false; std::vector<Pair*> pending; };

static void hard_close(int fd) { struct linger l = {1, 0}; __real_setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
static int raw_socket(int fam, int type) { int s = __real_socket(fam, type, 0); if (s < 0) fail("harness: socket (%d)", errno); return s; }

static std::string spell(const Addr& a, int how) {
    char b[160];
    if (a.fam() == AF_INET6) {
        switch (how % 4) {
        case 0: return "::1";
        case 1: return "0:0:0:0:0:0:0:1";
        case 2: hosts.push_back({"six" + std::to_string(hosts.size()) + ".test", "::1"}); return hosts.back().name;
        default: return "0000:0000:0000:0000:0000:0000:0000:0001";
        }
    }
    uint32_t ip = ip_of(a);
    std::string lit = std::to_string(ip >> 24) + "." + std::to_string((ip >> 16) & 255) + "." + std::to_string((ip >> 8) & 255) + "." + std::to_string(ip & 255);
    switch (how % 6) {
    case 1: snprintf(b, sizeof b, "%u.%u.%u", ip >> 24, (ip >> 16) & 255, ip & 65535); return b;
    case 2: snprintf(b, sizeof b, "%u", ip); return b;
    case 4: hosts.push_back({"host" + std::to_string(hosts.size()) + ".test", lit}); return hosts.back().name;
    case 5: if (ip == 0x7f000001) return "localhost"; return lit;
    default: return lit;
    }
}
// bytes both ways over an established connection
static void exchange(Conn& x, Conn& y) {
    for (int dir = 0; dir < 2; dir++) {
        Conn& f = dir ? y : x; Conn& t = dir ? x : y;
        auto d = g.bulk(1 + g.size(3000)); std::vector<uint8_t> r(d.size());
        if (f.s) { InLib l; status st = rc_psock_write_raw_data(f.s, d.data(), d.size()); CHECK(st == STATUS_SUCCESS, "writing gave %d", st); }
        else if (send(f.fd, d.data(), d.size(), MSG_NOSIGNAL) != (ssize_t)d.size()) fail("harness: send (%d)", errno);
        size_t got = 0;
        while (got < r.size()) {
            size_t n = r.size() - got;
            if (t.s) { InLib l; status st = rc_psock_read_raw(t.s, r.data() + got, &n); CHECK(st == STATUS_SUCCESS && n > 0, "reading sent bytes failed with %d", st); }
            else { ssize_t k = recv(t.fd, r.data() + got, n, 0); CHECK(k > 0, "bytes written to a stream did not arrive (%zd)", k); n = (size_t)k; }
            got += n;
        }
        CHECK(r == d, "bytes changed on the way");
    }
    g.label("bytes moved both ways");
}
struct Opt { const char* name; int level, opt; int kind; }; // kind 0 int, 1 linger, 2 timeval
static const Opt OPTS[] = {
    {"SO_KEEPALIVE", SOL_SOCKET, SO_KEEPALIVE, 0}, {"SO_REUSEADDR", SOL_SOCKET, SO_REUSEADDR, 0}, {"SO_RCVBUF", SOL_SOCKET, SO_RCVBUF, 0},
    {"SO_SNDBUF", SOL_SOCKET, SO_SNDBUF, 0}, {"SO_OOBINLINE", SOL_SOCKET, SO_OOBINLINE, 0}, {"SO_DONTROUTE", SOL_SOCKET, SO_DONTROUTE, 0},
    {"SO_RCVLOWAT", SOL_SOCKET, SO_RCVLOWAT, 0}, {"SO_LINGER", SOL_SOCKET, SO_LINGER, 1}, {"SO_RCVTIMEO", SOL_SOCKET, SO_RCVTIMEO, 2},
    {"SO_SNDTIMEO", SOL_SOCKET, SO_SNDTIMEO, 2}, {"TCP_NODELAY", IPPROTO_TCP, TCP_NODELAY, 0}, {"TCP_KEEPIDLE", IPPROTO_TCP, TCP_KEEPIDLE, 0},
    {"IP_TTL", IPPROTO_IP, IP_TTL, 0}, {"IPV6_V6ONLY", IPPROTO_IPV6, IPV6_V6ONLY, 0}, {"SO_ERROR", SOL_SOCKET, SO_ERROR, 0}, {"nonsense", 4711, 3, 0} };
static std::string snapshot(int fd) {
    std::string s;
    for (auto& o : OPTS) { char b[32]; memset(b, 0, sizeof b); socklen_t l = sizeof b; int r = __real_getsockopt(fd, o.level, o.opt, b, &l); s += std::to_string(r) + ":"; if (r == 0) s.append(b, l); s += ";"; }
    return s;
}
// sets one option through the stream and then the same one directly, which must
// be accepted or refused alike and change nothing any more.
static void option(rc_psock* s, int fd) {
    const Opt& o = OPTS[g.below(sizeof OPTS / sizeof *OPTS)];
    char buf[32]; memset(buf, 0, sizeof buf); socklen_t len;
    if (o.kind == 1) { struct linger v = {(int)g.below(2), (int)g.below(5)}; memcpy(buf, &v, sizeof v); len = sizeof v; }
    else if (o.kind == 2) { struct timeval v = {(time_t)(1 + g.below(100)), (suseconds_t)(4000 * g.below(200))}; if (g.chance(1, 8)) v.tv_usec = 2000000; memcpy(buf, &v, sizeof v); len = sizeof v; }
    else { int v; switch (g.below(4)) { case 0: v = 0; break; case 1: v = 1; break; case 2: v = (int)g.below(70000); break; default: v = (int)g.u64(); }
        // keep the buffers large enough for the bytes moved later
        if (o.opt == SO_RCVLOWAT && o.level == SOL_SOCKET) v = 1;
        if ((o.opt == SO_RCVBUF || o.opt == SO_SNDBUF) && o.level == SOL_SOCKET) v = 16384 + (int)g.below(50000);
        if (o.opt == IP_TTL && o.level == IPPROTO_IP) v = 1 + (int)g.below(300);
        memcpy(buf, &v, 4); len = 4; }
    bool shortlen = g.chance(1, 8); if (shortlen) len = (socklen_t)g.below(len);
    std::string before = snapshot(fd);
    if (g.chance(1, 8)) inj[F_SETSOCKOPT] = g.coin() ? ENOBUFS : EINVAL;
    status st; { InLib l; used[F_SETSOCKOPT] = false; st = rc_psock_setsockopt(s, o.level, o.opt, buf, len); }
    bool failed = used[F_SETSOCKOPT];
    inj[F_SETSOCKOPT] = 0;
    g.log("option %s (%u bytes) -> %d%s", o.name, len, st, failed ? " (made to fail)" : "");
    if (failed) { CHECK(st == ERROR_PSOCK_SETSOCKOPT, "a failing setsockopt was reported as %d", st); CHECK(snapshot(fd) == before, "a failed setsockopt changed the descriptor"); g.nontrivial(); }
    else {
        std::string after = snapshot(fd);
        int r = __real_setsockopt(fd, o.level, o.opt, buf, len);
        CHECK((r == 0) == (st == STATUS_SUCCESS), "option %s: the kernel says %d (%d), the stream %d", o.name, r, errno, st);
        if (r) { CHECK(st == ERROR_PSOCK_SETSOCKOPT, "a refused option was reported as %d", st); CHECK(after == before, "a refused option changed the descriptor"); }
        else { CHECK(after == snapshot(fd), "option %s did not take the effect a direct call has", o.name); if (after != before) g.label("option changed"); }
    }
}

static void types(rc_allocator* a) {
    // socket types of arbitrary descriptors
    static const struct { int fam, type; } K[] = {{AF_INET, SOCK_STREAM}, {AF_INET, SOCK_DGRAM}, {AF_UNIX, SOCK_STREAM}, {AF_UNIX, SOCK_DGRAM}, {AF_UNIX, SOCK_SEQPACKET}, {AF_INET6, SOCK_STREAM}, {AF_INET6, SOCK_DGRAM}, {0, 0}, {0, 1}};
    auto& k = K[g.below(9)]; int fd; int p[2];
    if (k.fam == 0) { if (k.type) { fd = memfd_create("x", 0); } else { if (pipe(p)) fail("harness: pipe"); fd = p[0]; close(p[1]); } }
    else { fd = __real_socket(k.fam, k.type, 0); if (fd < 0) return; }
    mine();
    if (k.fam && g.chance(1, 8)) inj[F_GETSOCKOPT] = ENOMEM;
    used[F_GETSOCKOPT] = false;
    rc_psock* s = nullptr; status st; { InLib l; st = rc_psock_create_from_descriptor(&s, a, fd); }
    inj[F_GETSOCKOPT] = 0;
    CHECK(st == STATUS_SUCCESS && s, "a stream over a descriptor could not be made (%d)", st);
    int w = k.fam == 0 ? 3 : k.type == SOCK_STREAM ? 1 : k.type == SOCK_DGRAM ? 2 : 3;
    if (used[F_GETSOCKOPT]) w = 3;
    CHECK((int)rc_psock_socket_type(s) == w, "socket type %d reported for a descriptor of type %d", (int)rc_psock_socket_type(s), w);
    same("making a stream");
    if (k.fam && g.coin()) option(s, fd);
    // a descriptor that does not listen
    if (g.coin()) {
        int desc = -7; struct sockaddr_storage ss; memset(&ss, 0x5a, sizeof ss); auto keep = ss; socklen_t l = sizeof ss;
        { InLib x; st = rc_psock_accept(s, &desc, (struct sockaddr*)&ss, &l); }
        CHECK(st == ERROR_PSOCK_ACCEPT_GENERAL || st == ERROR_PSOCK_ACCEPT_WOULD_BLOCK, "accepting on something that does not listen gave %d", st);
        CHECK(desc == -7 && l == sizeof ss && !memcmp(&ss, &keep, sizeof ss), "a failed accept changed its outputs");
        same("a failed accept");
    }
    { InLib x; release_psock(s); }
    gone(fd); same("releasing a stream");
    g.label("socket types");
}

void run_case() {
    NoStdin zero(g.chance(1, 8));
    bool crowded = g.chance(1, 24); top = crowded ? TOP : 200; Crowded high(crowded);
    heap.begin();
    hosts.clear(); lib = false;
    for (int i = 0; i < F_N; i++) inj[i] = 0, used[i] = false;
    rc_allocator* a = make_alloc();
    counter++;
    mine();
    auto empty = want;
    uint32_t pid = (uint32_t)getpid();
    uint32_t ipa = (127u << 24) | ((1 + (pid & 63)) << 16) | (((pid >> 6) & 255) << 8) | (1 + counter % 250), ipb = ipa ^ (64u << 16);
    int pa = 3000 + (int)(pid % 32) * 900 + (int)((counter / 2) * 2 % 900), pb = pa ^ 1;
    int low = pa;
    if (g.chance(1, 3)) { pa = 33000 + (int)(pid % 32) * 1000 + (int)((counter / 2) * 2 % 1000); pb = pa ^ 1; }
    std::vector<Listener*> ls; std::vector<std::unique_ptr<Listener>> lown; std::vector<std::unique_ptr<Pair>> pown;
    std::vector<Addr> pool = {v4(ipa, pa), v4(ipa, pb), v4(ipb, pa), v4(0x7f000001, low)};
    if (g.chance(1, 8)) pool[1] = v4(ipa, 65535 - (int)g.below(3));
    if (have6) { pool.push_back(v6(pa)); pool.push_back(v6(pb)); }
    pool.push_back(local("vp32-" + std::to_string(pid) + "-" + std::to_string(counter)));
    int made = 0, accepted = 0;
    auto listener_at = [&](const Addr& x) -> Listener* { for (auto l : ls) if (eq(l->at, x)) return l; return nullptr; };
    auto add_listener = [&]() {
        Addr at = pool[g.below(pool.size())];
        bool foreign = g.chance(1, 12);
        if (foreign) at = v4(0xc6336401 /* 198.51.100.1 */, pa);
        bool bylib = g.chance(2, 3);
        auto* l = new Listener; lown.emplace_back(l); l->at = at;
        if (!bylib && !foreign) {
            if (listener_at(at)) return;
            int fd = raw_socket(at.fam(), SOCK_STREAM);
            if (__real_bind(fd, (struct sockaddr*)&at.ss, at.len) || __real_listen(fd, 32)) { close(fd); g.label("address busy"); return; }
            if (g.coin()) fcntl(fd, F_SETFL, O_NONBLOCK);
            mine();
            l->fd = fd; l->own = true;
            { InLib x; l->s = fd_psock(a, fd); }
            same("making a stream");
            g.log("listener %zu on %s (handed over)", ls.size(), show(at).c_str());
            ls.push_back(l);
            return;
        }
        int k = g.chance(1, 6) ? (int)g.below(4) : -1;
        if (k == 0) inj[F_SOCKET] = EMFILE; else if (k == 1) inj[F_BIND] = EACCES; else if (k == 2) inj[F_LISTEN] = EADDRINUSE;
        used[F_SOCKET] = used[F_BIND] = used[F_LISTEN] = false;
        bool oom = k == 3; if (oom) heap.arm_nth(g.below(2));
        rc_psock* s = nullptr; status st;
        std::vector<uint8_t> exact((uint8_t*)&at.ss, (uint8_t*)&at.ss + at.len);
        struct sockaddr* tight = (struct sockaddr*)raw_malloc(at.len); memcpy(tight, exact.data(), at.len);
        { InLib x; st = rc_psock_create_from_listen_address(&s, a, tight, at.len); }
        CHECK(!memcmp(tight, exact.data(), at.len), "the given address was changed"); raw_free(tight);
        bool oomed = oom && heap.hits(); heap.disarm();
        inj[F_SOCKET] = inj[F_BIND] = inj[F_LISTEN] = 0;
        g.log("listen on %s -> %d%s", show(at).c_str(), st, used[F_SOCKET] || used[F_BIND] || used[F_LISTEN] || oomed ? " (made to fail)" : "");
        if (used[F_SOCKET] || used[F_BIND] || used[F_LISTEN] || oomed) {
            status w = oomed ? ERROR_GENERAL_OUT_OF_MEMORY : used[F_SOCKET] ? ERROR_PSOCK_CREATE_FROM_ADDRESS_SOCKET_CREATE : used[F_BIND] ? ERROR_PSOCK_CREATE_FROM_ADDRESS_BIND : ERROR_PSOCK_CREATE_FROM_ADDRESS_LISTEN;
            CHECK(st == w, "a listener that could not be made gave %d instead of %d", st, w);
            CHECK(!s, "a failed call returned a stream");
            same("a failed listen"); g.nontrivial(); g.label("failing listen");
            return;
        }
        if (st != STATUS_SUCCESS) {
            CHECK(!s, "a failed call returned a stream");
            same("a failed listen");
            // would the address have been available?
            int fd = raw_socket(at.fam(), SOCK_STREAM);
            bool can = __real_bind(fd, (struct sockaddr*)&at.ss, at.len) == 0 && __real_listen(fd, 32) == 0;
            close(fd);
            // another process's outgoing connection may have used the port for a moment
            for (int k = 0; can && k < 4; k++) {
                rc_psock* s2 = nullptr; InLib x; usleep(1000);
                if (rc_psock_create_from_listen_address(&s2, a, (struct sockaddr*)&at.ss, at.len) == STATUS_SUCCESS) { can = false; release_psock(s2); }
            }
            CHECK(!can, "listening on %s failed with %d though the address is available", show(at).c_str(), st);
            CHECK(st == ERROR_PSOCK_CREATE_FROM_ADDRESS_BIND, "an address that cannot be bound was reported as %d", st);
            g.nontrivial(); g.label("address cannot be bound");
            return;
        }
        CHECK(!foreign && !listener_at(at), "listening on %s succeeded though the address is not available", show(at).c_str());
        CHECK(s, "no stream was returned");
        l->fd = fresh("listen"); l->s = s;
        CHECK(eq(name_of(l->fd, false), at), "the listener is bound to %s instead of %s", show(name_of(l->fd, false)).c_str(), show(at).c_str());
        int v = 0; socklen_t vl = 4; __real_getsockopt(l->fd, SOL_SOCKET, SO_ACCEPTCONN, &v, &vl);
        CHECK(v == 1, "the descriptor does not listen");
        CHECK((int)rc_psock_socket_type(s) == 1, "a listening stream reports type %d", (int)rc_psock_socket_type(s));
        ls.push_back(l);
        g.label("listening");
    };
    add_listener();
    if (g.coin()) add_listener();
    if (g.chance(1, 3)) add_listener();
    auto raw_connect = [&](Listener* l) {
        if (l->pending.size() > 16) return;
        auto* p = new Pair; pown.emplace_back(p);
        int fd = raw_socket(l->at.fam(), SOCK_STREAM);
        if (l->at.fam() == AF_UNIX && g.coin()) { Addr n = local("vp32c-" + std::to_string(pid) + "-" + std::to_string(counter) + "-" + std::string(g.below(60), 'x') + std::to_string(pown.size())); if (__real_bind(fd, (struct sockaddr*)&n.ss, n.len)) fail("harness: bind (%d)", errno); }
        if (__real_connect(fd, (struct sockaddr*)&l->at.ss, l->at.len)) fail("harness: connect to %s (%d)", show(l->at).c_str(), errno);
        mine();
        hard_close(fd);
        p->c.fd = fd; p->c.conn = true; p->c.self = name_of(fd, false); l->pending.push_back(p); made++;
        g.log("raw connection to %s", show(l->at).c_str());
    };
    auto lib_connect = [&]() {
        size_t n4 = have6 ? 6 : 4;
        Addr to = pool[g.below(n4)];
        if (!ls.empty() && g.chance(2, 3)) { auto* l = ls[g.below(ls.size())]; if (l->at.fam() != AF_UNIX) to = l->at; }
        Listener* l = listener_at(to);
        if (l && l->pending.size() > 16) return;
        std::string host = spell(to, (int)g.below(12)); unsigned port = (unsigned)port_of(to);
        bool missing = g.chance(1, 10), wide = !missing && g.chance(1, 14);
        if (missing) host = g.coin() ? "nowhere.none" : "a.b.none";
        if (wide) port += 65536u * (1 + (unsigned)g.below(65535));
        int k = g.chance(1, 7) ? (int)g.below(3) : -1;
        if (k == 0) inj[F_SOCKET] = g.coin() ? EMFILE : EAFNOSUPPORT;
        else if (k == 1) { static const int E[] = {ETIMEDOUT, ENETUNREACH, EADDRNOTAVAIL, ECONNREFUSED}; inj[F_CONNECT] = E[g.below(4)]; }
        used[F_SOCKET] = used[F_CONNECT] = false;
        if (k == 2) heap.arm_nth(g.below(2));
        rc_psock* s = nullptr; status st;
        { InLib x; st = rc_psock_create_from_hostname_and_port(&s, a, host.c_str(), port); }
        bool oomed = k == 2 && heap.hits(); heap.disarm();
        inj[F_SOCKET] = inj[F_CONNECT] = 0;
        g.log("connect to %s port %u (%s) -> %d%s", host.c_str(), port, show(to).c_str(), st, used[F_SOCKET] || used[F_CONNECT] || oomed ? " (made to fail)" : "");
        if (st != STATUS_SUCCESS) {
            CHECK(!s, "a failed call returned a stream");
            same("a failed connect");
        }
        if (wide) { CHECK(st != STATUS_SUCCESS, "a connection to port %u was made", port); g.label("impossible port"); return; }
        if (missing) { CHECK(st == ERROR_PSOCK_HOSTNAME_LOOKUP_FAILURE, "an unknown name was reported as %d", st); g.nontrivial(); g.label("unknown name"); return; }
        if (used[F_SOCKET]) { CHECK(st == ERROR_PSOCK_SOCKET_CREATE, "a socket that could not be made was reported as %d", st); g.nontrivial(); g.label("failing connect"); return; }
        if (used[F_CONNECT]) { CHECK(st == ERROR_PSOCK_CONNECTION_REFUSED, "a connection that could not be made was reported as %d", st); g.nontrivial(); g.label("failing connect"); return; }
        if (oomed) {
            CHECK(st == ERROR_GENERAL_OUT_OF_MEMORY, "out of memory was reported as %d", st);
            g.nontrivial(); g.label("failing connect");
            // a connection may have been made and closed again
            if (l) { int fl = fcntl(l->fd, F_GETFL); fcntl(l->fd, F_SETFL, fl | O_NONBLOCK);
                for (;;) { if (!l->pending.empty()) break; int fd = real_accept(l->fd, nullptr, nullptr); if (fd < 0) break; hard_close(fd); close(fd); }
                if (!l->pending.empty()) { // drain in order
                    std::vector<int> fds; for (;;) { int fd = real_accept(l->fd, nullptr, nullptr); if (fd < 0) break; fds.push_back(fd); }
                    for (int fd : fds) { hard_close(fd); close(fd); }
                    for (auto p : l->pending) if (p->c.s) { InLib x; release_psock(p->c.s); p->c.s = nullptr; p->c.fd = -1; } else { close(p->c.fd); p->c.fd = -1; }
                    l->pending.clear();
                }
                fcntl(l->fd, F_SETFL, fl); mine(); }
            return;
        }
        if (!l && st == STATUS_SUCCESS) { // the kernel may connect a socket to itself
            int fd = fresh("connect");
            CHECK(eq(name_of(fd, true), to) && eq(name_of(fd, true), name_of(fd, false)), "connecting to %s, where nobody listens, succeeded", show(to).c_str());
            hard_close(fd); { InLib z; release_psock(s); } gone(fd); same("releasing a stream"); g.label("connected to itself"); return;
        }
        if (!l) { CHECK(st == ERROR_PSOCK_CONNECTION_REFUSED, "connecting to %s, where nobody listens, gave %d", show(to).c_str(), st); g.label("refused"); g.nontrivial(); return; }
        CHECK(st == STATUS_SUCCESS && s, "connecting to a listener at %s gave %d", show(to).c_str(), st);
        auto* p = new Pair; pown.emplace_back(p);
        p->c.s = s; p->c.fd = fresh("connect"); p->c.conn = true; made++;
        hard_close(p->c.fd);
        CHECK(eq(name_of(p->c.fd, true), to), "the stream is connected to %s instead of %s", show(name_of(p->c.fd, true)).c_str(), show(to).c_str());
        CHECK((int)rc_psock_socket_type(s) == 1, "a connected stream reports type %d", (int)rc_psock_socket_type(s));
        p->c.self = name_of(p->c.fd, false);
        l->pending.push_back(p);
        g.label("connected by name");
    };
    auto accept_one = [&](Listener* l) {
        bool err = g.chance(1, 8);
        int fl = fcntl(l->fd, F_GETFL); bool nb = fl & O_NONBLOCK;
        if (l->pending.empty() && !nb && !err) { if (g.coin()) return; fcntl(l->fd, F_SETFL, fl | O_NONBLOCK); nb = true; }
        struct sockaddr_storage ss; memset(&ss, 0x5a, sizeof ss); auto keep = ss;
        socklen_t cap = g.chance(1, 4) ? (socklen_t)(1 + g.below(sizeof ss - 1)) : sizeof ss, len = cap;
        int desc = -7; status st;
        static const int E[] = {ECONNABORTED, EMFILE, EPERM, EAGAIN};
        int e = err ? E[g.below(4)] : 0;
        inj[F_ACCEPT] = e; used[F_ACCEPT] = false;
        { InLib x; st = rc_psock_accept(l->s, &desc, (struct sockaddr*)&ss, &len); }
        inj[F_ACCEPT] = 0;
        g.log("accept on %s (%u bytes for the address, %zu waiting) -> %d%s", show(l->at).c_str(), cap, l->pending.size(), st, used[F_ACCEPT] ? " (made to fail)" : "");
        if (used[F_ACCEPT] || l->pending.empty()) {
            status w = used[F_ACCEPT] && e != EAGAIN ? ERROR_PSOCK_ACCEPT_GENERAL : ERROR_PSOCK_ACCEPT_WOULD_BLOCK;
            CHECK(st == w, "an accept that cannot succeed gave %d instead of %d", st, w);
            CHECK(desc == -7 && len == cap && !memcmp(&ss, &keep, sizeof ss), "a failed accept changed its outputs");
            same("a failed accept"); g.label("failing accept");
            if (!(fl & O_NONBLOCK)) fcntl(l->fd, F_SETFL, fl);
            return;
        }
        if (!(fl & O_NONBLOCK)) fcntl(l->fd, F_SETFL, fl);
        CHECK(st == STATUS_SUCCESS, "accepting a waiting connection gave %d", st);
        int f = fresh("accept");
        CHECK(desc == f, "accept returned descriptor %d, the new one is %d", desc, f);
        Pair* p = l->pending.front(); l->pending.erase(l->pending.begin());
        const Addr& w = p->c.self;
        CHECK(len == w.len, "the peer's address is said to be %u bytes long instead of %u", len, w.len);
        CHECK(!memcmp(&ss, &w.ss, std::min(cap, len)), "accept gave another peer's address");
        if (cap < sizeof ss) CHECK(!memcmp((char*)&ss + cap, (char*)&keep + cap, sizeof ss - cap), "accept wrote behind the address buffer");
        if (w.fam() != AF_UNIX) { CHECK(eq(name_of(desc, true), w), "the accepted descriptor is connected to somebody else"); CHECK(eq(name_of(desc, false), l->at), "the accepted descriptor has another address"); }
        CHECK(!(fcntl(desc, F_GETFL) & O_NONBLOCK), "the accepted descriptor does not block");
        hard_close(desc);
        p->a.fd = desc; p->accepted = true; accepted++;
        if (g.chance(2, 3)) { InLib x; p->a.s = fd_psock(a, desc); CHECK((int)rc_psock_socket_type(p->a.s) == 1, "wrong type"); }
        same("making a stream");
        exchange(p->c, p->a);
    };
    int n = 2 + (int)g.below(24);
    bool drop = empty[0] && g.chance(1, 4); // number 0 becomes free later
    for (int i = 0; i < n; i++) {
        if (drop && g.chance(1, 4)) { drop = false; close(0); mine(); g.label("number 0 free later"); }
        Listener* l = ls.empty() ? nullptr : ls[g.below(ls.size())];
        std::vector<Pair*> live; for (auto& p : pown) if (p->accepted && p->c.fd >= 0 && p->a.fd >= 0) live.push_back(p.get());
        switch (g.pick({6, 3, 8, 3, 2, 2, 1, 1})) {
        case 0: lib_connect(); break;
        case 1: if (l) raw_connect(l); break;
        case 2: if (l) accept_one(l); break;
        case 3: if (!live.empty()) { auto p = live[g.below(live.size())]; exchange(p->c, p->a); } break;
        case 4: if (!live.empty()) { auto p = live[g.below(live.size())]; Conn& c = g.coin() && p->a.s ? p->a : p->c; if (c.s) { option(c.s, c.fd); hard_close(c.fd); struct timeval tv = {0, 0}; __real_setsockopt(c.fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); __real_setsockopt(c.fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv); } } break;
        case 5: if (!live.empty()) { // one end ends
            auto p = live[g.below(live.size())]; bool side = g.coin(); Conn& x = side ? p->a : p->c; Conn& y = side ? p->c : p->a;
            struct linger off = {0, 0}; __real_setsockopt(x.fd, SOL_SOCKET, SO_LINGER, &off, sizeof off);
            if (x.s) { { InLib z; release_psock(x.s); } x.s = nullptr; gone(x.fd); same("releasing a stream"); } else { close(x.fd); mine(); }
            x.fd = -1;
            uint8_t b; size_t one = 1;
            if (y.s) { InLib z; status st = rc_psock_read_raw(y.s, &b, &one); CHECK(st == ERROR_PSOCK_READ_EOF || (st == STATUS_SUCCESS && one == 0), "reading after the peer ended gave %d and %zu bytes", st, one); }
            else CHECK(recv(y.fd, &b, 1, 0) == 0, "releasing a stream did not end the connection");
            if (y.s) { { InLib z; release_psock(y.s); } y.s = nullptr; gone(y.fd); same("releasing a stream"); } else { close(y.fd); mine(); }
            y.fd = -1;
            g.label("ended");
        } break;
        case 6: types(a); break;
        default: if (ls.size() < 5) add_listener(); break;
        }
    }
    // every connection that was made is waiting at the listener it was made to.
    for (auto l : ls) while (!l->pending.empty()) accept_one(l);
    for (auto& p : pown) for (Conn* c : {&p->c, &p->a}) if (c->fd >= 0) {
        hard_close(c->fd);
        if (c->s) { { InLib z; release_psock(c->s); } gone(c->fd); same("releasing a stream"); } else { close(c->fd); gone(c->fd); }
    }
    for (auto l : ls) {
        // nobody else is waiting
        int fl = fcntl(l->fd, F_GETFL); fcntl(l->fd, F_SETFL, fl | O_NONBLOCK);
        int x = real_accept(l->fd, nullptr, nullptr);
        if (x >= 0) { close(x); fail("%s received a connection nobody made to it", show(l->at).c_str()); }
        fcntl(l->fd, F_SETFL, fl);
        { InLib z; release_psock(l->s); }
        gone(l->fd); same("releasing a listener");
    }
    if (made >= 2 && accepted >= 2) g.nontrivial();
    if (empty[0] && !want[0]) { if (open("/dev/null", O_RDONLY) != 0) fail("harness: no standard input"); mine(); }
    CHECK(want == empty, "harness: table");
    OK(rc_resource_release(rc_allocator_resource_handle(a)));
    heap.expect_clean("end"); heap.end();
}
} // namespace vp
