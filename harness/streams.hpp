// Streams for the harnesses: user-method streams over a byte queue, pipes,
// socket pairs, asynchronous pairs.
#pragma once
#include "typed.hpp"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/socket.h>
namespace vp {
struct Mem {
    std::deque<uint8_t> q;
    int released = 0;
    bool eof = true;          // nothing more will ever come
    size_t piece = (size_t)-1; // most bytes a non-blocking read hands out
};
inline status mem_read(rc_psock*, void* ctx, void* data, size_t* size, bool block) {
    Mem* m = (Mem*)ctx;
    size_t n = std::min(*size, m->q.size());
    if (!block && n > m->piece) n = m->piece;
    if (!n && *size) { if (m->eof) { return ERROR_PSOCK_READ_EOF; } return ERROR_PSOCK_READ_WOULD_BLOCK; }
    for (size_t i = 0; i < n; i++) ((uint8_t*)data)[i] = m->q[i];
    m->q.erase(m->q.begin(), m->q.begin() + n);
    *size = n;
    return STATUS_SUCCESS;
}
inline status mem_write(rc_psock*, void* ctx, const void* data, size_t* size) {
    Mem* m = (Mem*)ctx;
    m->q.insert(m->q.end(), (const uint8_t*)data, (const uint8_t*)data + *size);
    return STATUS_SUCCESS;
}
inline status mem_release(rc_psock*, void* ctx) { ((Mem*)ctx)->released++; return STATUS_SUCCESS; }
RCPR_VTABLE rc_psock_vtable mem_vtable = { { nullptr }, &mem_read, &mem_write, nullptr, nullptr, nullptr, nullptr, &mem_release };

inline void release_psock(rc_psock* s) { OK(rc_resource_release(rc_psock_resource_handle(s))); }
inline rc_psock* fd_psock(rc_allocator* a, int fd) { rc_psock* s = nullptr; OK(rc_psock_create_from_descriptor(&s, a, fd)); CHECK(s, "no psock"); return s; }
inline void make_pair(int* l, int* r, bool pipes) {
    int p[2];
    if (pipes ? pipe(p) : socketpair(AF_UNIX, SOCK_STREAM, 0, p)) fail("harness: no descriptors");
    *l = p[1]; *r = p[0];
}
// the caller's view of one scheduler fiber
typedef std::function<void()> Body;
inline status body_entry(void* ctx) { (*(Body*)ctx)(); return STATUS_SUCCESS; }
} // namespace vp
