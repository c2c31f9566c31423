// C10: trimming, splitting, words, prefixes and suffixes.
#include "rc.hpp"
namespace vp {
const char* const PROPERTY = "C10";
const char* const RULE = "a case applies the string functions to generated strings (mostly whitespace, delimiters and a few letters, any byte 1-255, length 0 to several hundred, sometimes runs of one kind of up to 65 thousand) in exactly sized memory between guard bytes, compared with direct definitions; non-trivial = a string containing both separators and other characters, or equal-prefix comparisons";
const std::vector<Probe> PROBES;
void setup() {}
static const char WS[] = " \t\n\v\f\r";
static bool ws(uint8_t c) { return c == ' ' || (c >= 9 && c <= 13); }
static std::string gen_str() {
    size_t n = g.chance(1, 60) ? g.size(9000) : g.size(40);
    std::string s;
    int style = (int)g.below(4);
    for (size_t i = 0; i < n; i++) {
        unsigned k;
        switch (style) {
        case 0: k = (unsigned)g.below(3); break;
        case 1: k = (unsigned)g.below(6); break;
        case 2: k = g.chance(1, 4) ? 1 : 0; break;
        default: k = g.chance(1, 4) ? 0 : 1;
        }
        if (k == 1) s += WS[g.below(6)];
        else if (k == 5) s += (char)(1 + g.below(255));
        else if (k == 4) { const char* near = "\x08\x0e\x1f!\x7f\x80\x85\xa0\xff,"; s += near[g.below(10)]; }
        else s += (char)("abc,:"[g.below(5)]);
    }
    if (g.chance(1, 60)) { // a long run somewhere
        size_t k = g.chance(1, 20) ? 65500 + g.below(100) : 200 + g.below(800); char c = g.coin() ? WS[g.below(6)] : (char)(1 + g.below(255));
        s.insert(g.coin() ? s.size() : g.below(s.size() + 1), k, c);
    }
    return s;
}
struct Buf { // exact-size block with guards inside it
    char* raw; size_t n; char* s; std::string orig;
    Buf(const std::string& t, bool exact) : orig(t) {
        size_t pre = exact ? 0 : 16, post = exact ? 0 : 16;
        n = pre + t.size() + 1 + post; raw = (char*)raw_malloc(n); memset(raw, 0x6b, n); s = raw + pre; memcpy(s, t.c_str(), t.size() + 1);
        pre_ = pre; post_ = post;
    }
    size_t pre_, post_;
    void guards(const char* what) {
        for (size_t i = 0; i < pre_; i++) CHECK(raw[i] == 0x6b, "%s wrote before the string", what);
        for (size_t i = 0; i < post_; i++) CHECK(raw[n - post_ + i] == 0x6b, "%s wrote behind the terminator", what);
    }
    ~Buf() { raw_free(raw); }
};
static std::string show(const std::string& s) {
    std::string o = "\""; for (unsigned char c : s.substr(0, 120)) { char b[8]; if (c >= 32 && c < 127) { o += (char)c; } else { snprintf(b, sizeof b, "\\x%02x", c); o += b; } } return o + "\"";
}
static bool table[256];
static bool tok(int c) { return table[(uint8_t)c]; }
static bool mixed(const std::string& s) { bool a = false, b = false; for (unsigned char c : s) (ws(c) ? a : b) = true; return a && b; }

static std::vector<std::string> runs(const std::string& s, bool (*sep)(uint8_t)) {
    std::vector<std::string> v; std::string cur;
    for (unsigned char c : s) { if (sep(c)) { if (!cur.empty()) v.push_back(cur); cur.clear(); } else cur += (char)c; }
    if (!cur.empty()) v.push_back(cur);
    return v;
}
static bool tsep(uint8_t c) { return table[c]; }

struct Scan { Buf* b; rc_string_iterator* it; std::vector<std::string> want; size_t at; bool started; bool words; };

void run_case() {
    bool exact = g.coin();
    std::string s = gen_str();
    if (mixed(s)) g.nontrivial();
    g.log("string %s", show(s).c_str());
    switch (g.below(6)) {
    case 0: { // trims
        std::string l = s, r; { size_t i = 0; while (i < l.size() && ws(l[i])) i++; l = l.substr(i); }
        r = s; while (!r.empty() && ws(r.back())) r.pop_back();
        std::string t = r; { size_t i = 0; while (i < t.size() && ws(t[i])) i++; t = t.substr(i); }
        { Buf b(s, exact); rc_left_trim(b.s); CHECK(l == b.s, "left_trim(%s) gives %s", show(s).c_str(), show(b.s).c_str()); b.guards("left_trim"); }
        { Buf b(s, exact); rc_right_trim(b.s); CHECK(r == b.s, "right_trim(%s) gives %s", show(s).c_str(), show(b.s).c_str()); b.guards("right_trim"); }
        { Buf b(s, exact); rc_trim(b.s); CHECK(t == b.s, "trim(%s) gives %s", show(s).c_str(), show(b.s).c_str()); b.guards("trim");
          rc_trim(b.s); CHECK(t == b.s, "trimming a trimmed string changed it to %s", show(b.s).c_str()); }
        break; }
    case 1: { // chomp, whitespace class
        std::string c = s; if (!c.empty()) c.pop_back();
        Buf b(s, exact); rc_chomp(b.s); CHECK(c == b.s, "chomp(%s) gives %s", show(s).c_str(), show(b.s).c_str()); b.guards("chomp");
        for (int ch = -128; ch < 256; ch++) CHECK(rc_is_whitespace(ch) == (ch >= 0 && ws((uint8_t)ch)), "is_whitespace(%d) is wrong", ch);
        break; }
    case 2: { // split, repeatedly
        Buf b(s, exact);
        int delim = g.chance(3, 4) && !s.empty() ? (int)s[g.below(s.size())] : (int)(char)(1 + g.below(255)); // a plain char, which may be negative
        if (!delim) delim = ',';
        // one piece after the other; only the first 2000 of a long string
        char* cur = b.s; std::string rest = s; int cuts = 0;
        for (;;) {
            const char *l = (char*)1, *r = (char*)1;
            size_t at = rest.find((char)delim);
            status st = rc_split(&l, &r, cur, delim);
            if (at == std::string::npos) {
                CHECK(st == ERROR_STRING_END_OF_INPUT, "split(%s, %d) returned %08x", show(rest).c_str(), delim, st);
                CHECK(!l && !r, "split without delimiter set its outputs");
                CHECK(rest == cur, "split without delimiter changed the string");
                break;
            }
            CHECK(st == STATUS_SUCCESS, "split(%s, %d) returned %08x", show(rest).c_str(), delim, st);
            CHECK(l == cur && r == cur + at + 1, "split(%s, %d) cut at the wrong place", show(rest).c_str(), delim);
            CHECK(rest.substr(0, at) == l && rest.substr(at + 1) == r, "split(%s, %d) gives %s and %s", show(rest).c_str(), delim, show(l).c_str(), show(r).c_str());
            g.nontrivial();
            rest = rest.substr(at + 1); cur = (char*)r;
            if (++cuts > 2000) break;
        }
        b.guards("split");
        break; }
    case 3: { // words and multisplit, interleaved over several strings
        memset(table, 0, sizeof table);
        size_t nt = g.below(6);
        for (size_t i = 0; i < nt; i++) { uint8_t c; if (!s.empty() && g.coin()) c = (uint8_t)s[g.below(s.size())]; else c = (uint8_t)g.below(256); table[c] = true; }
        std::vector<Scan> sc; size_t k = 1 + g.below(3);
        for (size_t i = 0; i < k; i++) {
            std::string t = i ? gen_str() : s;
            Scan x; x.b = new Buf(t, exact); x.it = (rc_string_iterator*)raw_malloc(sizeof(rc_string_iterator)); memset(x.it, 0xd7, sizeof *x.it);
            x.words = g.coin(); x.want = x.words ? runs(t, ws) : runs(t, tsep); x.at = 0; x.started = false;
            if (x.want.size() > 1) g.nontrivial();
            sc.push_back(x);
        }
        size_t steps = 0; for (auto& x : sc) steps += x.want.size() + 3;
        for (size_t n = 0; n < steps; n++) {
            Scan& x = sc[n < k ? n : g.below(k)];
            const char* w = (const char*)1;
            char* arg = x.started ? nullptr : x.b->s;
            status st = x.words ? rc_words(&w, x.it, arg) : rc_multisplit(&w, x.it, arg, x.started ? nullptr : tok);
            x.started = true;
            const char* nm = x.words ? "words" : "multisplit";
            if (x.at < x.want.size()) {
                CHECK(st == STATUS_SUCCESS, "%s on %s: piece %zu of %zu: %08x", nm, show(x.b->orig).c_str(), x.at, x.want.size(), st);
                CHECK(w >= x.b->s && w < x.b->s + x.b->orig.size() && x.want[x.at] == w, "%s on %s: piece %zu is %s", nm, show(x.b->orig).c_str(), x.at, w >= x.b->s && w <= x.b->s + x.b->orig.size() ? show(w).c_str() : "outside the string");
                x.at++;
            } else {
                CHECK(st == ERROR_STRING_END_OF_INPUT, "%s on %s after its %zu pieces: %08x", nm, show(x.b->orig).c_str(), x.want.size(), st);
                CHECK(!w, "%s left a pointer at end of input", nm);
            }
            x.b->guards(nm);
        }
        for (auto& x : sc) { delete x.b; raw_free(x.it); }
        break; }
    case 4: { // prefixes
        std::string p;
        switch (g.below(4)) {
        case 0: p = s.substr(0, g.below(s.size() + 1)); break;
        case 1: p = s.substr(0, g.below(s.size() + 1)); if (!p.empty()) { size_t i = g.below(p.size()); p[i] = (char)(1 + g.below(255)); } break;
        case 2: p = s + gen_str(); break;
        default: p = gen_str();
        }
        Buf a(s, true), b(p, true);
        bool want = p.size() <= s.size() && s.compare(0, p.size(), p) == 0;
        CHECK(rc_starts_with(a.s, b.s) == want, "starts_with(%s, %s) is not %d", show(s).c_str(), show(p).c_str(), want);
        CHECK(s == a.s && p == b.s, "starts_with changed its arguments");
        if (g.chance(1, 16)) {
            CHECK(rc_starts_with(a.s, nullptr), "an absent prefix is not a prefix of %s", show(s).c_str());
            CHECK(!rc_starts_with(nullptr, b.s), "an absent string starts with %s", show(p).c_str());
            CHECK(rc_starts_with(nullptr, nullptr), "an absent prefix is not a prefix of an absent string");
        }
        if (want && !p.empty()) g.nontrivial();
        break; }
    default: { // last character
        Buf a(s, exact);
        for (int ch = -128; ch < 128; ch++) { // a plain char
            if (!ch) continue;
            bool want = !s.empty() && s.back() == (char)ch;
            CHECK(rc_ends_with(a.s, ch) == want, "ends_with(%s, %d) is not %d", show(s).c_str(), ch, want);
        }
        CHECK(s == a.s, "ends_with changed its argument");
        a.guards("ends_with");
    }
    }
}
} // namespace vp
