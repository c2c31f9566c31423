// C13: byte order conversion.
#include "rc.hpp"
namespace vp {
const char* const PROPERTY = "C13";
const char* const RULE = "a case is one 64 bit value, favouring single bits, extremes and sign boundaries, put through every 16, 32 and 64 bit conversion and swap; the 16 bit values are covered exhaustively in blocks; non-trivial = the value's bytes are not all equal";
const std::vector<Probe> PROBES;
void setup() {}
template <class T> static void one(T v, T (*hton)(T), T (*ntoh)(T), T (*swap)(T), const char* nm) {
    T n = hton(v); uint8_t b[sizeof(T)]; memcpy(b, &n, sizeof n);
    for (size_t i = 0; i < sizeof(T); i++) {
        uint8_t want = (uint8_t)((uint64_t)v >> (8 * (sizeof(T) - 1 - i)));
        CHECK(b[i] == want, "hton of a %s %llx: byte %zu in memory is %02x, not %02x", nm, (unsigned long long)v, i, b[i], want);
    }
    CHECK(ntoh(n) == v, "ntoh(hton(%llx)) of a %s is %llx", (unsigned long long)v, nm, (unsigned long long)ntoh(n));
    CHECK(hton(ntoh(v)) == v, "hton(ntoh(%llx)) of a %s is different", (unsigned long long)v, nm);
    T s = swap(v); uint8_t vb[sizeof(T)], sb[sizeof(T)]; memcpy(vb, &v, sizeof v); memcpy(sb, &s, sizeof s);
    for (size_t i = 0; i < sizeof(T); i++) CHECK(sb[i] == vb[sizeof(T) - 1 - i], "byteswap of a %s %llx is wrong at byte %zu", nm, (unsigned long long)v, i);
    CHECK(swap(s) == v, "byteswap of a %s is not its own inverse for %llx", nm, (unsigned long long)v);
}
static int16_t sw16(int16_t v) { return (int16_t)byteswap16(v); }
static int32_t sw32(int32_t v) { return (int32_t)byteswap32(v); }
static int64_t sw64(int64_t v) { return (int64_t)byteswap64(v); }
void run_case() {
    uint64_t v;
    if (g.chance(1, 3)) { uint64_t e[8] = {0, 0xff, 0x80, 0x7f, 1, 0xfe, 0x81, 0x55}; v = 0; for (int i = 0; i < 8; i++) v = v << 8 | e[g.below(8)]; }
    else v = g.u64();
    if (g.chance(1, 4)) v <<= 8 * g.below(8);
    g.log("value %016llx", (unsigned long long)v);
    one<int16_t>((int16_t)v, rc_socket_utility_hton16, rc_socket_utility_ntoh16, sw16, "int16");
    one<int32_t>((int32_t)v, rc_socket_utility_hton32, rc_socket_utility_ntoh32, sw32, "int32");
    one<int64_t>((int64_t)v, rc_socket_utility_hton64, rc_socket_utility_ntoh64, sw64, "int64");
    // all 16 bit values sharing this high byte, and the same bits elsewhere in wider values
    unsigned hi = (unsigned)g.below(256);
    for (unsigned lo = 0; lo < 256; lo++) {
        int16_t x = (int16_t)(hi << 8 | lo);
        one<int16_t>(x, rc_socket_utility_hton16, rc_socket_utility_ntoh16, sw16, "int16");
        one<int32_t>((int32_t)((uint32_t)(uint16_t)x << 8 * (lo % 3)), rc_socket_utility_hton32, rc_socket_utility_ntoh32, sw32, "int32");
        one<int64_t>((int64_t)((uint64_t)(uint16_t)x << 8 * (lo % 7)), rc_socket_utility_hton64, rc_socket_utility_ntoh64, sw64, "int64");
    }
    bool same = true; for (int i = 1; i < 8; i++) if ((uint8_t)(v >> 8 * i) != (uint8_t)v) same = false;
    if (!same) g.nontrivial();
}
} // namespace vp
