// C12: UUID text.
#include "rc.hpp"
namespace vp {
const char* const PROPERTY = "C12";
const char* const RULE = "a case parses and formats one UUID: canonical text in random case, or that text with generated edits (replaced, inserted, removed or swapped characters, wrong lengths, early terminators, bytes above 127), through both parsers, in exactly sized memory; non-trivial = an edited text, or a mixed-case text";
const std::vector<Probe> PROBES;
void setup() {}
static bool hexv(uint8_t c, int& v) {
    if (c >= '0' && c <= '9') v = c - '0'; else if (c >= 'a' && c <= 'f') v = c - 'a' + 10; else if (c >= 'A' && c <= 'F') v = c - 'A' + 10; else return false;
    return true;
}
static bool model(const std::vector<uint8_t>& t, uint8_t* out) {
    if (t.size() != 36) return false;
    size_t k = 0;
    for (size_t i = 0; i < 36;) {
        if (i == 8 || i == 13 || i == 18 || i == 23) { if (t[i] != '-') return false; i++; continue; }
        int a, b; if (!hexv(t[i], a) || !hexv(t[i + 1], b)) return false;
        out[k++] = (uint8_t)(a * 16 + b); i += 2;
    }
    return true;
}
static uint8_t oddchar() {
    switch (g.below(6)) {
    case 0: { const char* s = "/:@G`g-_ {}xX\n\t+"; return (uint8_t)s[g.below(16)]; }
    case 1: return (uint8_t)(128 + g.below(128));
    case 2: { const char* s = "0123456789abcdefABCDEF"; return (uint8_t)(s[g.below(22)] | (g.coin() ? 0x80 : 0)); }
    case 3: return (uint8_t)(1 + g.below(31));
    case 4: return (uint8_t)'-';
    default: return (uint8_t)g.below(256);
    }
}
static void parse(const std::vector<uint8_t>& t, bool raw, size_t length) {
    // raw: exactly t.size() bytes readable, length passed; otherwise t plus a terminator
    uint8_t want[16]; bool good;
    std::vector<uint8_t> eff = t;
    if (raw) { eff.resize(std::min(length, t.size())); good = length == 36 && t.size() >= 36 && model(eff, want); }
    else {
        size_t z = 0; while (z < eff.size() && eff[z]) z++;
        eff.resize(z); good = model(eff, want);
    }
    size_t n = raw ? t.size() : t.size() + 1;
    char* mem = (char*)raw_malloc(n ? n : 1);
    for (size_t i = 0; i < t.size(); i++) mem[i] = (char)t[i];
    if (!raw) mem[t.size()] = 0;
    uint8_t* box = (uint8_t*)raw_malloc(48); memset(box, 0x5e, 48);
    rc_rcpr_uuid* u = (rc_rcpr_uuid*)(box + 16);
    uint8_t before[16]; for (int i = 0; i < 16; i++) before[i] = u->data[i] = (uint8_t)(0x90 + i);
    status s = raw ? rc_rcpr_uuid_parse_raw_string(u, mem, length) : rc_rcpr_uuid_parse_string(u, mem);
    std::string shown; for (uint8_t c : t) { char b[8]; snprintf(b, sizeof b, c > 32 && c < 127 ? "%c" : "\\x%02x", c); shown += b; }
    if (good) {
        CHECK(s == STATUS_SUCCESS, "canonical text %s refused with %08x", shown.c_str(), s);
        for (int i = 0; i < 16; i++) CHECK(u->data[i] == want[i], "text %s: byte %d is %02x, not %02x", shown.c_str(), i, u->data[i], want[i]);
    } else {
        CHECK(s == ERROR_UUID_PARSING_FAILED, "text %s (length %zu) gave %08x instead of the parse failure", shown.c_str(), length, s);
        CHECK(!memcmp(u->data, before, 16), "refusing text %s changed the caller's UUID", shown.c_str());
    }
    for (int i = 0; i < 16; i++) CHECK(box[i] == 0x5e && box[32 + i] == 0x5e, "parsing %s wrote outside the UUID", shown.c_str());
    for (size_t i = 0; i < t.size(); i++) CHECK((uint8_t)mem[i] == t[i], "parsing changed its input");
    raw_free(mem); raw_free(box);
}
void run_case() {
    heap.begin();
    rc_allocator* a = make_alloc();
    rc_rcpr_uuid u;
    if (g.coin()) { auto b = g.bytes(16); memcpy(u.data, b.data(), 16); }
    else { for (int i = 0; i < 16; i++) u.data[i] = g.coin() ? (uint8_t)(i * 16 + 15 - i) : (uint8_t)(g.below(4) * 0x55); }
    rc_rcpr_uuid copy = u;
    char* str = (char*)1;
    OK(rc_rcpr_uuid_to_string(&str, a, &u));
    CHECK(heap.owns(str) && heap.block_size(str) >= 37, "the text is not a block of the given allocator of 37 bytes or more");
    char want[37]; { char* p = want; for (int i = 0; i < 16; i++) { if (i == 4 || i == 6 || i == 8 || i == 10) *p++ = '-'; p += sprintf(p, "%02x", u.data[i]); } *p = 0; }
    CHECK(!memcmp(str, want, 37), "formatted as %.40s instead of %s", str, want);
    CHECK(!memcmp(&u, &copy, 16), "formatting changed the UUID");
    rc_rcpr_uuid back; memset(&back, 0xee, 16);
    OK(rc_rcpr_uuid_parse_string(&back, str));
    CHECK(!memcmp(&back, &u, 16), "parsing %s does not give the UUID back", str);
    g.log("uuid %s", want);
    if (g.chance(1, 4)) {
        heap.arm_nth(0);
        char* s2 = (char*)1;
        status s = rc_rcpr_uuid_to_string(&s2, a, &u);
        heap.disarm();
        CHECK(s == ERROR_GENERAL_OUT_OF_MEMORY && s2 == nullptr, "formatting without memory returned %08x and %p", s, s2);
    }
    std::vector<uint8_t> t(str, str + 36);
    OK(rc_allocator_reclaim(a, str));
    free_alloc(a);
    heap.expect_clean("formatting");
    heap.end();
    bool nt = false;
    if (g.coin()) for (auto& c : t) if (c >= 'a' && c <= 'f' && g.coin()) { c -= 32; nt = true; }
    parse(t, false, 36); parse(t, true, 36);
    size_t edits = 1 + g.below(3);
    for (size_t e = 0; e < edits; e++) {
        size_t at = t.empty() ? 0 : g.below(t.size());
        switch (g.below(8)) {
        case 0: case 1: case 2: if (!t.empty()) t[at] = oddchar(); break;
        case 3: t.insert(t.begin() + at, oddchar()); break;
        case 4: if (!t.empty()) t.erase(t.begin() + at); break;
        case 5: t.resize(g.below(40), (uint8_t)"-0aF "[g.below(5)]); break;
        case 6: if (!t.empty()) std::swap(t[at], t[g.below(t.size())]); break;
        default: t.push_back(oddchar());
        }
        nt = true;
        parse(t, false, 36);
        parse(t, true, t.size());
        if (t.size() == 36) g.label("edited, 36 long");
    }
    // the raw parser with a length other than what lies there
    if (t.size() > 36) parse(t, true, 36);
    if (!t.empty()) parse(t, true, g.below(t.size() + 1));
    if (g.chance(1, 8)) {
        rc_rcpr_uuid x; memset(&x, 7, 16);
        CHECK(rc_rcpr_uuid_parse_string(&x, nullptr) == ERROR_UUID_PARSING_FAILED, "a null text was not refused");
        CHECK(rc_rcpr_uuid_parse_raw_string(&x, nullptr, 36) == ERROR_UUID_PARSING_FAILED, "a null text was not refused");
        for (int i = 0; i < 16; i++) CHECK(x.data[i] == 7, "refusing a null text changed the UUID");
    }
    if (nt) g.nontrivial();
}
} // namespace vp
