// C21: descriptor passing and message transfer over local datagram sockets.
#include "streams.hpp"
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/un.h>
namespace vp {
const char* const PROPERTY = "C21";
const char* const RULE = "a case makes a local socket pair (datagram, at times stream, sequenced or a pipe; plain or asynchronous; at times behind a buffered reader), sends 1-16 messages over it (descriptors of memory files, typed and raw data, sendmsg messages of several parts, forged messages carrying none, several or other control data), receives them in order by matching or wrong calls, with system-call failures and an exhausted descriptor table injected, and compares files, bytes and the whole descriptor table; non-trivial = at least one descriptor arrived and at least two messages were sent";
const std::vector<Probe> PROBES;
static const int TOP = 96;
static std::vector<ino_t> table() { std::vector<ino_t> t(TOP); struct stat st; for (int i = 0; i < TOP; i++) t[i] = fstat(i, &st) ? 0 : st.st_ino ? st.st_ino : 1; return t; }
static void same(const std::vector<ino_t>& want, const char* op) {
    auto t = table();
    for (int i = 0; i < TOP; i++) if (t[i] != want[i]) fail("%s %s descriptor %d", op, !want[i] ? "leaked" : !t[i] ? "closed" : "replaced", i);
}
struct Msg { int kind; int file = -1; std::vector<uint8_t> d; Val v; }; // 0 descriptor 1 data 2 several descriptors 3 other control data
static std::function<void()> later; // what the peer does once every fiber sleeps
static bool idle(int) { if (!later) return false; auto f = later; later = nullptr; f(); return true; }
static int err_send, err_recv;
static ssize_t hs(int fd, const void* m, int f) { if (err_send) { errno = err_send; err_send = 0; return -1; } return real_sendmsg(fd, m, f); }
static ssize_t hrc(int fd, void* m, int f) { if (err_recv) { errno = err_recv; err_recv = 0; return -1; } return real_recvmsg(fd, m, f); }
void setup() { sys.idle = idle; sys.sendmsg = hs; sys.recvmsg = hrc; }

static void raw_send(int fd, const std::vector<uint8_t>& d, const std::vector<int>& fds, bool creds) {
    struct msghdr m; memset(&m, 0, sizeof m);
    struct iovec iov = {(void*)d.data(), d.size()};
    char buf[256]; memset(buf, 0, sizeof buf);
    m.msg_iov = &iov; m.msg_iovlen = 1;
    size_t len = 0;
    struct cmsghdr* cm = (struct cmsghdr*)buf;
    if (creds) {
        struct ucred { pid_t p; uid_t u; gid_t g; } c = {getpid(), getuid(), getgid()};
        cm->cmsg_level = SOL_SOCKET; cm->cmsg_type = 2 /*SCM_CREDENTIALS*/; cm->cmsg_len = CMSG_LEN(sizeof c); memcpy(CMSG_DATA(cm), &c, sizeof c);
        len += CMSG_SPACE(sizeof c); cm = (struct cmsghdr*)(buf + len);
    }
    if (fds.size()) {
        cm->cmsg_level = SOL_SOCKET; cm->cmsg_type = SCM_RIGHTS; cm->cmsg_len = CMSG_LEN(4 * fds.size()); memcpy(CMSG_DATA(cm), fds.data(), 4 * fds.size());
        len += CMSG_SPACE(4 * fds.size());
    }
    if (len) { m.msg_control = buf; m.msg_controllen = len; }
    if (real_sendmsg(fd, &m, 0) < 0) fail("harness: sendmsg failed (%d)", errno);
}
static rc_psock_vtable* vt(rc_psock* s) { const rc_resource_vtable* v = nullptr; OK(rc_resource_vtable_read(&v, rc_psock_resource_handle(s))); return (rc_psock_vtable*)v; }

void run_case() {
    NoStdin zero(g.chance(1, 8));
    heap.begin();
    rc_allocator* a = make_alloc();
    later = nullptr; err_send = err_recv = 0;
    auto empty = table();
    int type = (int)g.pick({10, 2, 1, 1}); // dgram stream seqpacket pipe
    bool async = g.chance(1, 3), passcred = g.chance(1, 12);
    int wf, rf;
    if (type == 3) make_pair(&wf, &rf, true);
    else { int p[2]; if (socketpair(AF_UNIX, type == 0 ? SOCK_DGRAM : type == 1 ? SOCK_STREAM : SOCK_SEQPACKET, 0, p)) fail("harness: no sockets"); wf = p[0]; rf = p[1]; }
    int one = 1;
    if (passcred && type == 0) setsockopt(rf, SOL_SOCKET, SO_PASSCRED, &one, sizeof one);
    bool high = g.chance(1, 6); if (high) g.label("high numbers"); // descriptor numbers that need more than one byte
    std::vector<int> files; int nf = 1 + (int)g.below(4);
    for (int i = 0; i < nf; i++) { int f = memfd_create("f", 0); if (f < 0) fail("harness: memfd"); if (high) { int h = fcntl(f, F_DUPFD, (int[]){200, 250, 1000, 4000}[g.below(4)] + (int)g.below(100)); if (h < 0) fail("harness: no high descriptor"); close(f); f = h; } files.push_back(f); }
    rc_fiber_scheduler* sched = nullptr; rc_psock* w = fd_psock(a, wf); rc_psock* r = fd_psock(a, rf);
    if (async) {
        g.label("async");
        rc_fiber* f = nullptr;
        OK(rc_fiber_scheduler_create_with_disciplines(&sched, a));
        OK(rc_disciplined_fiber_scheduler_main_fiber_get(&f, sched));
        OK(rc_psock_create_wrap_async(&w, a, f, w)); OK(rc_psock_create_wrap_async(&r, a, f, r));
    }
    rc_psock_br* br = nullptr;
    int want_type = type == 0 ? PSOCK_SOCKET_TYPE_DATAGRAM : type == 1 ? PSOCK_SOCKET_TYPE_STREAM : PSOCK_SOCKET_TYPE_OTHER;
    CHECK(rc_psock_socket_type(w) == want_type && rc_psock_socket_type(r) == want_type, "socket type %d reported for kind %d", (int)rc_psock_socket_type(r), type);
    bool late = empty[0] && g.chance(1, 6); // received descriptors may get number 0
    if (late) { close(0); g.label("number 0 free later"); }
    auto base = table();
    unsigned sent = 0, arrived = 0;
    if (type != 0) {
        for (int i = 0; i < 3; i++) {
            int d = -7; rc_psock* s = r; if (g.chance(1, 4)) { if (!br) OK(rc_psock_br_create_from_psock(&br, a, r)); s = rc_psock_br_psock_adapter(br); }
            status x = g.coin() ? rc_psock_write_raw_descriptor(g.coin() ? w : s, files[0]) : rc_psock_read_raw_descriptor(s, &d);
            g.log("descriptor call on socket kind %d: %08x", type, x);
            CHECK(x == (status)ERROR_PSOCK_UNSUPPORTED_TYPE, "passing a descriptor over socket kind %d gives %08x", type, x);
            CHECK(d == -7, "a refused call changed the caller's descriptor");
            same(base, "a refused call");
        }
        g.label("unsupported");
    } else {
        std::deque<Msg> q;
        while (sent < 16 && (sent < 1 || g.more(12))) {
            bool recv = !q.empty() && (q.size() >= 6 || g.coin());
            bool sleeping = false;
            if (!recv) {
                Msg m; m.kind = (int)g.pick({5, 3, 1, 1}); m.file = (int)g.below(nf);
                if (m.kind == 1) { m.v = gen_val(3000); m.v.boxed = false; if (m.v.kind == BSTRING) m.v.kind = DATA; if (m.v.kind == DATA && m.v.d.empty()) m.v.d.push_back(1); encode(m.d, m.v); }
                else m.d = g.bytes(1 + g.below(g.chance(1, 4) ? 300 : 3));
                std::vector<int> fds;
                if (m.kind == 0) fds = {files[m.file]};
                if (m.kind == 2) { fds = {files[m.file]}; int k = 1 + (int)g.below(3); while (k--) fds.push_back(files[g.below(nf)]); }
                bool creds = m.kind == 3;
                bool forged = m.kind >= 2 || g.chance(1, 4);
                if (async && q.empty() && g.chance(1, 2)) { // the peer sends it only once the receiver sleeps
                    auto d = m.d; later = [=] { raw_send(wf, d, fds, creds); };
                    sleeping = recv = true; g.log("the peer will send a message of kind %d", m.kind);
                } else if (forged) { raw_send(wf, m.d, fds, creds); g.log("forged message of kind %d, file %d", m.kind, m.file); }
                else if (m.kind == 0) {
                    if (g.chance(1, 10)) { // a descriptor that can't be sent, or a failing call
                        bool bad = g.coin(); if (!bad) err_send = (int[]){EPERM, ENOBUFS, ETOOMANYREFS, ECONNREFUSED}[g.below(4)];
                        status x = rc_psock_write_raw_descriptor(w, bad ? (g.coin() ? -1 : 15000) : files[m.file]);
                        g.log("failing descriptor send: %08x", x);
                        CHECK(x != STATUS_SUCCESS, "sending a descriptor succeeded although the call failed");
                        same(base, "a failed send"); g.label("failed send");
                        continue;
                    }
                    status x = rc_psock_write_raw_descriptor(w, files[m.file]);
                    g.log("descriptor of file %d sent: %08x", m.file, x);
                    CHECK(x == STATUS_SUCCESS, "sending a descriptor gives %08x", x);
                    m.d = {0};
                } else if (g.coin()) {
                    status x = write_val(w, m.v);
                    g.log("%s sent: %08x", describe(m.v).c_str(), x);
                    CHECK(x == STATUS_SUCCESS, "sending %s gives %08x", describe(m.v).c_str(), x);
                } else { // several parts
                    size_t cut = g.below(m.d.size() + 1);
                    struct iovec iov[2] = {{m.d.data(), cut}, {m.d.data() + cut, m.d.size() - cut}};
                    struct msghdr mh; memset(&mh, 0, sizeof mh); mh.msg_iov = iov; mh.msg_iovlen = 2;
                    status x = vt(w)->sendmsg_fn(w, nullptr, &mh, 0);
                    g.log("message of %zu bytes sent: %08x", m.d.size(), x);
                    CHECK(x == STATUS_SUCCESS, "sendmsg gives %08x", x);
                }
                same(base, "a send"); sent++;
                q.push_back(m);
                if (!sleeping) continue;
            }
            // receive the first message
            Msg m = q.front();
            bool starve = g.chance(1, 12) && !sleeping, failcall = g.chance(1, 12) && !sleeping;
            struct rlimit rl, keep; getrlimit(RLIMIT_NOFILE, &keep);
            if (failcall) {
                int d = -7; err_recv = (int[]){EIO, ENOMEM, ENOTCONN, EBADF}[g.below(4)];
                status x = rc_psock_read_raw_descriptor(r, &d);
                g.log("failing descriptor receive: %08x", x);
                CHECK(x == (status)ERROR_PSOCK_RECVMSG_FAILED, "receiving a descriptor with a failing call gives %08x", x);
                same(base, "a failed receive"); g.label("failed receive");
                continue;
            }
            q.pop_front();
            size_t how = m.kind == 1 ? g.pick({1, 6, 4, 3, (unsigned)(!async && m.d.size() < 8) * 2}) : g.pick({8, 0, 1, 3});
            if (how == 0) {
                int d = g.coin() ? -7 : g.coin() ? (int)g.below(TOP) : files[0];
                if (starve) { rl = keep; int lowest = 0; while (base[lowest]) lowest++; rl.rlim_cur = (rlim_t)lowest; setrlimit(RLIMIT_NOFILE, &rl); }
                status x = rc_psock_read_raw_descriptor(r, &d);
                if (starve) setrlimit(RLIMIT_NOFILE, &keep);
                g.log("descriptor received from a message of kind %d%s: %08x %d", m.kind, starve ? " with a full table" : "", x, d);
                bool must = m.kind == 0 && !starve && !passcred, may = (m.kind == 0 || m.kind == 2) && !starve;
                if (must) CHECK(x == STATUS_SUCCESS, "receiving a descriptor gives %08x", x);
                if (!may) CHECK(x != STATUS_SUCCESS, "receiving a descriptor succeeded on a message %s", m.kind == 1 ? "of data" : "without a usable one");
                if (!may && !starve) CHECK(x == (status)ERROR_PSOCK_READ_GENERAL, "a message without a descriptor is reported as %08x", x);
                if (x == STATUS_SUCCESS) {
                    struct stat s1, s2;
                    CHECK(d >= 0 && d < TOP && !base[d] && !fstat(d, &s1) && !fstat(files[m.file], &s2), "the received descriptor %d is not a new open one", d);
                    CHECK(s1.st_ino == s2.st_ino, "the received descriptor is for another file");
                    off_t o = (off_t)g.below(100000);
                    lseek(files[m.file], o, SEEK_SET);
                    CHECK(lseek(d, 0, SEEK_CUR) == o, "the received descriptor is not a duplicate of the one sent");
                    close(d); arrived++;
                } else g.label("no descriptor");
                same(base, "receiving a descriptor");
            } else if (how == 1) {
                Val o; status x = read_val(r, a, m.v, o);
                g.log("%s received: %08x", describe(m.v).c_str(), x);
                CHECK(x == STATUS_SUCCESS, "receiving %s gives %08x", describe(m.v).c_str(), x);
                check_equal(m.v, o);
            } else if (how == 2) {
                size_t ask = 1 + g.below(4000), k = ask; std::vector<uint8_t> b(ask);
                if (sleeping) { auto f = later; later = nullptr; f(); }
                status x = rc_psock_read_raw(r, b.data(), &k);
                g.log("raw read of %zu: %08x %zu", ask, x, k);
                CHECK(x == STATUS_SUCCESS && (async ? k >= std::min(ask, m.d.size()) : k == std::min(ask, m.d.size())), "a raw read of %zu from a message of %zu bytes gives %08x, %zu", ask, m.d.size(), x, k);
                CHECK(!memcmp(b.data(), m.d.data(), std::min(ask, m.d.size())), "a raw read gave other bytes");
                if (async) while (k > m.d.size() || (k > 0 && q.size())) { // an asynchronous read goes on with further messages
                    size_t got = std::min(ask, m.d.size()); std::vector<uint8_t> all(b.begin(), b.begin() + k); size_t at = got;
                    while (at < k) { CHECK(q.size(), "a raw read gave bytes nobody sent"); Msg n = q.front(); q.pop_front(); size_t l = std::min(k - at, n.d.size()); CHECK(!memcmp(all.data() + at, n.d.data(), l), "a raw read gave other bytes"); at += l; }
                    break;
                }
            } else if (how == 4) { // an integer is read that is longer than the message
                uint64_t x64 = 7; status x = rc_psock_read_raw_uint64(r, &x64);
                g.log("uint64 read from a message of %zu bytes: %08x", m.d.size(), x);
                CHECK(x != STATUS_SUCCESS && x64 == 7, "an integer was read from a message of %zu bytes: %08x", m.d.size(), x);
                g.label("short message");
            } else {
                size_t c1 = g.below(3000), c2 = 1 + g.below(3000); std::vector<uint8_t> b1(c1 + 1), b2(c2);
                struct iovec iov[2] = {{b1.data(), c1}, {b2.data(), c2}};
                struct msghdr mh; memset(&mh, 0, sizeof mh); mh.msg_iov = iov; mh.msg_iovlen = 2; size_t len = 0x5a5a;
                status x = vt(r)->recvmsg_fn(r, nullptr, &mh, &len, 0);
                g.log("recvmsg of %zu+%zu: %08x %zu", c1, c2, x, len);
                size_t w2 = std::min(c1 + c2, m.d.size());
                CHECK(x == STATUS_SUCCESS && len == w2, "receiving a message of %zu bytes gives %08x, %zu", m.d.size(), x, len);
                std::vector<uint8_t> got(b1.begin(), b1.begin() + std::min(c1, w2)); if (w2 > c1) got.insert(got.end(), b2.begin(), b2.begin() + (w2 - c1));
                CHECK(!memcmp(got.data(), m.d.data(), w2), "a message arrived with other bytes");
            }
            same(base, "a receive");
        }
        g.label("datagram");
        if (!async) { // nothing left over, nothing lost
            while (q.size()) { std::vector<uint8_t> b(4096); size_t k = b.size(); status x = rc_psock_read_raw(r, b.data(), &k); CHECK(x == STATUS_SUCCESS && k == q.front().d.size() && !memcmp(b.data(), q.front().d.data(), k), "message left in the queue reads as %08x, %zu bytes", x, k); q.pop_front(); }
            fcntl(rf, F_SETFL, O_NONBLOCK);
        } else while (q.size()) q.pop_front();
        if (!async) {
            int d = -7; status x = rc_psock_read_raw_descriptor(r, &d);
            CHECK(x == (status)ERROR_PSOCK_READ_WOULD_BLOCK, "receiving a descriptor from an empty queue gives %08x", x);
        }
    }
    later = nullptr;
    if (br) OK(rc_resource_release(rc_psock_br_resource_handle(br)));
    same(base, "the calls");
    release_psock(w); release_psock(r);
    if (sched) OK(rc_resource_release(rc_fiber_scheduler_resource_handle(sched)));
    for (int f : files) close(f);
    if (late && open("/dev/null", O_RDONLY) != 0) fail("harness: no standard input");
    same(empty, "releasing the streams");
    if (arrived && sent >= 2) g.nontrivial();
    free_alloc(a);
    heap.expect_clean("after the case");
    heap.end();
}
} // namespace vp
