// Typed values: generation, the documented wire form (encoded independently of
// the library), and the library's matching write and read calls.
#pragma once
#include "rc.hpp"
#include <functional>
#include <string>
namespace vp {
// other fibers allocate while this one reads
inline bool shared_heap = false;
// memory comes from a bump region, not from the heap
inline bool region_heap = false;
enum Kind { I64, U64, I32, U32, I16, U16, I8, U8, BOOLEAN, DATA, NRAW, BSTRING = NRAW, NKINDS };
struct Val {
    int kind = I64; bool boxed = false; uint64_t n = 0; std::vector<uint8_t> d;
    const char* name() const {
        static const char* r[] = {"int64", "uint64", "int32", "uint32", "int16", "uint16", "int8", "uint8", "bool", "data", "string"};
        return r[kind];
    }
};
inline int width(int k) { static const int w[] = {8, 8, 4, 4, 2, 2, 1, 1, 1}; return w[k]; }
inline uint32_t tag_of(int k) { static const uint32_t t[] = {0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x22, 0x20}; return t[k]; }
inline void put_be(std::vector<uint8_t>& o, uint64_t v, int w) { while (w--) o.push_back((uint8_t)(v >> (8 * w))); }
inline void encode(std::vector<uint8_t>& o, const Val& v) {
    if (v.boxed) put_be(o, tag_of(v.kind), 4);
    if (v.kind == DATA || v.kind == BSTRING) {
        if (v.boxed) put_be(o, v.d.size(), 4);
        o.insert(o.end(), v.d.begin(), v.d.end());
    } else put_be(o, v.n, width(v.kind));
}
inline Val gen_val(size_t maxdata) {
    Val v; v.boxed = g.coin();
    v.kind = (int)g.below(v.boxed ? NKINDS : NRAW);
    if (v.kind == DATA || v.kind == BSTRING) {
        size_t n = g.size(maxdata);
        v.d = n > 64 ? g.bulk(n) : g.bytes(n);
        if (v.kind == BSTRING) for (auto& c : v.d) if (!c) c = 'z';
    } else if (v.kind == BOOLEAN) v.n = g.coin();
    else { v.n = g.u64(); if (width(v.kind) < 8) v.n &= (1ull << (8 * width(v.kind))) - 1; }
    return v;
}
inline std::string describe(const Val& v) {
    char b[96];
    if (v.kind == DATA || v.kind == BSTRING) snprintf(b, sizeof b, "%s %s of %zu", v.boxed ? "boxed" : "raw", v.name(), v.d.size());
    else snprintf(b, sizeof b, "%s %s 0x%llx", v.boxed ? "boxed" : "raw", v.name(), (unsigned long long)v.n);
    return b;
}
inline status write_val(rc_psock* s, const Val& v) {
    const uint8_t zero = 0;
    const void* d = v.d.empty() ? &zero : v.d.data();
    if (v.boxed) switch (v.kind) {
        case I64: return rc_psock_write_boxed_int64(s, (int64_t)v.n);
        case U64: return rc_psock_write_boxed_uint64(s, v.n);
        case I32: return rc_psock_write_boxed_int32(s, (int32_t)v.n);
        case U32: return rc_psock_write_boxed_uint32(s, (uint32_t)v.n);
        case I16: return rc_psock_write_boxed_int16(s, (int16_t)v.n);
        case U16: return rc_psock_write_boxed_uint16(s, (uint16_t)v.n);
        case I8: return rc_psock_write_boxed_int8(s, (int8_t)v.n);
        case U8: return rc_psock_write_boxed_uint8(s, (uint8_t)v.n);
        case BOOLEAN: return rc_psock_write_boxed_bool(s, v.n);
        case DATA: return rc_psock_write_boxed_data(s, d, v.d.size());
        default: { std::string t(v.d.begin(), v.d.end()); return rc_psock_write_boxed_string(s, t.c_str()); }
    }
    switch (v.kind) {
        case I64: return rc_psock_write_raw_int64(s, (int64_t)v.n);
        case U64: return rc_psock_write_raw_uint64(s, v.n);
        case I32: return rc_psock_write_raw_int32(s, (int32_t)v.n);
        case U32: return rc_psock_write_raw_uint32(s, (uint32_t)v.n);
        case I16: return rc_psock_write_raw_int16(s, (int16_t)v.n);
        case U16: return rc_psock_write_raw_uint16(s, (uint16_t)v.n);
        case I8: return rc_psock_write_raw_int8(s, (int8_t)v.n);
        case U8: return rc_psock_write_raw_uint8(s, (uint8_t)v.n);
        case BOOLEAN: return rc_psock_write_raw_bool(s, v.n);
        default: return rc_psock_write_raw_data(s, d, v.d.size());
    }
}
// reads a value of the kind of `v` (and, for raw data, its size); the result is
// put in `out`.  Outputs are preset, and must be as preset after a failure.
inline status read_val(rc_psock* s, rc_allocator* a, const Val& v, Val& out) {
    out = Val{}; out.kind = v.kind; out.boxed = v.boxed;
    status r;
    uint64_t pre = 0x5a5a5a5a5a5a5a5aull;
    uint64_t u = pre;
    bool b = g.tracing; const bool b0 = b;
#define RD(T, f) { T x; memcpy(&x, &pre, sizeof x); r = f(s, &x); if (r == STATUS_SUCCESS) out.n = (uint64_t)x & (sizeof x == 8 ? ~0ull : (1ull << (8 * sizeof x % 64)) - 1); else { T y; memcpy(&y, &pre, sizeof y); CHECK(x == y, "a failed read of %s changed the caller's variable", describe(v).c_str()); } return r; }
    (void)u;
    if (v.kind == BOOLEAN) {
        r = v.boxed ? rc_psock_read_boxed_bool(s, &b) : rc_psock_read_raw_bool(s, &b);
        if (r == STATUS_SUCCESS) out.n = b; else CHECK(b == b0, "a failed read of a bool changed the caller's variable");
        return r;
    }
    if (v.kind == DATA || v.kind == BSTRING) {
        void* p = nullptr; size_t n = v.d.size();
        size_t live = heap.live();
        if (!v.boxed) r = rc_psock_read_raw_data(s, a, &p, n);
        else {
            n = 0x5a5a;
            r = v.kind == DATA ? rc_psock_read_boxed_data(s, a, &p, &n) : rc_psock_read_boxed_string(s, a, (char**)&p, &n);
        }
        if (r != STATUS_SUCCESS) {
            CHECK(!p, "a failed read of %s handed out a buffer", describe(v).c_str());
            CHECK(shared_heap || heap.live() == live, "a failed read of %s leaked memory", describe(v).c_str());
            CHECK(!v.boxed || n == 0x5a5a, "a failed read of %s changed the size", describe(v).c_str());
            return r;
        }
        CHECK(p && (region_heap || heap.owns(p)), "a read of %s gave no buffer", describe(v).c_str());
        CHECK(region_heap || heap.block_size(p) >= n + (v.kind == BSTRING), "the buffer of %s is smaller than its size", describe(v).c_str());
        if (v.kind == BSTRING) CHECK(((char*)p)[n] == 0, "a string is not terminated");
        out.d.assign((uint8_t*)p, (uint8_t*)p + n);
        OK(rc_allocator_reclaim(a, p));
        return r;
    }
    if (v.boxed) switch (v.kind) {
        case I64: RD(int64_t, rc_psock_read_boxed_int64)
        case U64: RD(uint64_t, rc_psock_read_boxed_uint64)
        case I32: RD(int32_t, rc_psock_read_boxed_int32)
        case U32: RD(uint32_t, rc_psock_read_boxed_uint32)
        case I16: RD(int16_t, rc_psock_read_boxed_int16)
        case U16: RD(uint16_t, rc_psock_read_boxed_uint16)
        case I8: RD(int8_t, rc_psock_read_boxed_int8)
        default: RD(uint8_t, rc_psock_read_boxed_uint8)
    }
    switch (v.kind) {
        case I64: RD(int64_t, rc_psock_read_raw_int64)
        case U64: RD(uint64_t, rc_psock_read_raw_uint64)
        case I32: RD(int32_t, rc_psock_read_raw_int32)
        case U32: RD(uint32_t, rc_psock_read_raw_uint32)
        case I16: RD(int16_t, rc_psock_read_raw_int16)
        case U16: RD(uint16_t, rc_psock_read_raw_uint16)
        case I8: RD(int8_t, rc_psock_read_raw_int8)
        default: RD(uint8_t, rc_psock_read_raw_uint8)
    }
#undef RD
}
inline void check_equal(const Val& want, const Val& got) {
    CHECK(want.n == got.n && want.d == got.d, "wrote %s, read back %s%s", describe(want).c_str(), describe(got).c_str(), want.d.size() == got.d.size() && want.d != got.d ? " with other contents" : "");
}
} // namespace vp
