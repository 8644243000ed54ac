// uuid / uuid_generator (C13, C14, C15).
#include <gv/gv.hpp>
#include <array>
#include <cstring>
#include <random>
#include <stdexcept>
#include <string>
#include <string_view>
// The random source: every output of the engine is an arbitrary 32-bit word, recorded in the order drawn.
static uint32_t draws[64]; static int ndraws;
template <> inline std::mt19937::result_type std::mt19937::operator()() { const uint32_t v = gv::any<uint32_t>("draw"); if (ndraws < 64) draws[ndraws] = v; ++ndraws; return v; }
template <> inline void std::mt19937::seed(result_type) {}
#include <uuid.cpp>
#include <uuid_generator.cpp>
using tc::sdk::uuid; using gen = tc::sdk::uuid_generator;
static const char* const N[16] = {"b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7", "b8", "b9", "b10", "b11", "b12", "b13", "b14", "b15"};
static const char* const M[16] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10", "c11", "c12", "c13", "c14", "c15"};
static const char* const O[16] = {"d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10", "d11", "d12", "d13", "d14", "d15"};
struct Bytes { uint8_t v[16]; };
static Bytes any_bytes(const char* const* n) { Bytes b; for (int k = 0; k < 16; ++k) b.v[k] = gv::any<uint8_t>(n[k]); return b; }
static uuid make(const Bytes& b) { uuid u; static_assert(sizeof(uuid) == 16); memcpy((void*)&u, b.v, 16); return u; } // a uuid is its 16 bytes
static char hexc(unsigned n, bool upper) { return (char)(n < 10 ? '0' + n : (upper ? 'A' : 'a') + n - 10); }
// the 8-4-4-4-12 text of the bytes, or one of its accepted variants
static std::string text_of(const Bytes& b, bool dashes, bool upper, bool braces)
{
    std::string s; s.resize((dashes ? 36 : 32) + (braces ? 2 : 0)); size_t p = 0;
    if (braces) s[p++] = '{';
    for (int k = 0; k < 16; ++k)
    {
        if (dashes && (k == 4 || k == 6 || k == 8 || k == 10)) s[p++] = '-';
        s[p++] = hexc(b.v[k] >> 4, upper); s[p++] = hexc(b.v[k] & 15, upper);
    }
    if (braces) s[p++] = '}';
    return s;
}
// ------------------------------------------------------------------ C13
GV_CONTRACT(C13, text)
{
    const Bytes b = any_bytes(N);
    const std::string s = make(b).to_string(), w = text_of(b, true, false, false);
    gv::ensures(s.size() == 36, "to_string has 36 characters");
    bool same = true; for (size_t k = 0; k < 36; ++k) same = same & (s[k] == w[k]);
    gv::ensures(same, "to_string is the lowercase 8-4-4-4-12 text of the bytes");
}
static void round(bool dashes, bool upper, bool braces)
{
    const Bytes b = any_bytes(N);
    const std::string s = text_of(b, dashes, upper, braces);
    gv::ensures(gen::instance().is_valid(s), "the text of a uuid is valid");
    const uuid u = gen::instance().from_string(s);
    gv::ensures(memcmp((const void*)&u, b.v, 16) == 0, "from_string of the text yields the same bytes");
}
GV_CONTRACT(C13, round_plain) { round(true, false, false); }
GV_CONTRACT(C13, round_upper) { round(true, true, false); }
GV_CONTRACT(C13, round_braces) { round(true, false, true); }
GV_CONTRACT(C13, round_nodash) { round(false, false, false); }
GV_CONTRACT(C13, round_all) { round(false, true, true); }
// the characters from_string accepts: all 256 values of each character of an otherwise valid text
static bool is_hexdigit(char c) { return gv::any_of(gv::all(c >= '0', c <= '9'), gv::all(c >= 'a', c <= 'f'), gv::all(c >= 'A', c <= 'F')); }
GV_CONTRACT(C13, any_char)
{
    const int at = gv_any_range("at", 0, 3); const int pos[4] = {0, 7, 19, 35};
    std::string s("0f1e2d3c-4b5a-6978-8796-a5b4c3d2e1f0"); const char c = (char)gv::any<uint8_t>("c");
    int p = 0; for (int k = 0; k < 4; ++k) if (at == k) p = pos[k];
    s[p] = c;
    gv::requires_(gv::all(c != '{', c != '-'));
    bool thrown = false; try { (void)gen::instance().from_string(s); } catch (const std::runtime_error&) { thrown = true; }
    gv::ensures(thrown == !is_hexdigit(c), "a text with a character that is no hexadecimal digit is rejected, and only then");
    gv::ensures(gen::instance().is_valid(s) == !thrown, "is_valid agrees with from_string");
}
#ifdef GV_NATIVE
static bool spec_valid(const std::string& s)
{
    if (s.empty()) return false;
    size_t b = 0, e = s.size(); if (s[0] == '{') { if (s.back() != '}' || s.size() < 2) return false; b = 1; --e; }
    int n = 0; for (size_t k = b; k < e; ++k) { if (s[k] == '-') continue; if (!is_hexdigit(s[k])) return false; ++n; }
    return n == 32;
}
GV_CONTRACT(C13, any_string)
{
    const Bytes b = any_bytes(N);
    std::string s = text_of(b, gv::any<bool>("dashes"), gv::any<bool>("upper"), gv::any<bool>("braces"));
    const int edits = gv_any_range("edits", 0, 6); const char abc[] = "-{}09afgAFG x\0\xff/:@`";
    for (int k = 0; k < edits; ++k)
    {
        const int w = gv_any_range("edit", 0, 4); const char c = gv::any<bool>("rawchar") ? (char)gv::any<uint8_t>("ch") : abc[gv_any_range("char", 0, 19)]; const size_t at = gv_any_range("at", 0, 45) % (s.size() + 1);
        if (w == 0) s.insert(at, 1, c); else if (w == 1 && at < s.size()) s.erase(at, 1); else if (w == 2 && at < s.size()) s[at] = c; else if (w == 3) s.erase(at); else s.append(gv_any_range("more", 0, 40), c);
    }
    const bool want = spec_valid(s); bool thrown = false; uuid u;
    const size_t cap = s.size(); char* heap = new char[cap ? cap : 1]; memcpy(heap, s.data(), cap); const std::string_view sv(heap, cap); // exactly as many bytes as the view shows
    const bool v = gen::instance().is_valid(sv);
    try { u = gen::instance().from_string(sv); } catch (const std::runtime_error&) { thrown = true; }
    delete[] heap;
    gv::ensures(v == want, "is_valid holds exactly for 32 hexadecimal digits up to dashes and one pair of braces");
    gv::ensures(thrown == !want, "from_string throws exactly when the text is not valid");
    if (!thrown) { std::string d; for (char c : s) if (is_hexdigit(c)) d += (char)tolower(c); std::string t; for (char c : u.to_string()) if (c != '-') t += c; gv::ensures(d == t, "from_string reads the digits in order"); }
}
#endif
// ------------------------------------------------------------------ C14
GV_CONTRACT(C14, create)
{
    ndraws = 0;
    const uuid u = gen::instance().create();
    uint8_t b[16]; memcpy(b, (const void*)&u, 16);
    gv::ensures((b[6] & 0xf0) == 0x40, "the version nibble is 4");
    gv::ensures((b[8] & 0xc0) == 0x80, "the variant bits are 10");
    gv::ensures(ndraws == 4, "four 32-bit draws are used");
    uint8_t w[16]; memcpy(w, draws, 16);
    bool same = true;
    for (int k = 0; k < 16; ++k) { const uint8_t keep = k == 6 ? 0x0f : k == 8 ? 0x3f : 0xff; same = same & ((b[k] & keep) == (w[k] & keep)); }
    gv::ensures(same, "the other 122 bits are the bits drawn");
}
GV_CONTRACT(C14, twice)
{
    ndraws = 0;
    const uuid u = gen::instance().create(), v = gen::instance().create();
    uint8_t b[16]; memcpy(b, (const void*)&v, 16); uint8_t w[16]; memcpy(w, draws + 4, 16);
    gv::ensures(ndraws == 8, "every uuid uses fresh draws");
    bool same = true;
    for (int k = 0; k < 16; ++k) { const uint8_t keep = k == 6 ? 0x0f : k == 8 ? 0x3f : 0xff; same = same & ((b[k] & keep) == (w[k] & keep)); }
    gv::ensures(same, "the second uuid is made of the second four draws");
}
// ------------------------------------------------------------------ C15
static int cmp(const Bytes& a, const Bytes& b) // lexicographic, unsigned bytes
{
    int r = 0; for (int k = 15; k >= 0; --k) r = a.v[k] < b.v[k] ? -1 : a.v[k] > b.v[k] ? 1 : r;
    return r;
}
GV_CONTRACT(C15, order)
{
    const Bytes a = any_bytes(N), b = any_bytes(M); const uuid x = make(a), y = make(b);
    bool eq = true, lt = false, pre = true;
    for (int k = 0; k < 16; ++k) { lt = lt | (pre & (a.v[k] < b.v[k])); pre = pre & (a.v[k] == b.v[k]); }
    eq = pre;
    gv::ensures((x == y) == eq, "== holds exactly when all 16 bytes are equal");
    gv::ensures((x != y) == !eq, "!= is the negation of ==");
    gv::ensures((x < y) == lt, "< is the lexicographic order of the bytes");
    gv::ensures((x > y) == !(lt | eq), "> is the converse of <");
    gv::ensures((x <= y) == (lt | eq), "<= is < or ==");
    gv::ensures((x >= y) == !lt, ">= is > or ==");
}
// lemma: the lexicographic byte order is the order of the lowercase texts (the dashes stand at the same places)
GV_CONTRACT(C15, text_order)
{
    const uint8_t a = gv::any<uint8_t>("a"), b = gv::any<uint8_t>("b");
    const char ah = hexc(a >> 4, false), al = hexc(a & 15, false), bh = hexc(b >> 4, false), bl = hexc(b & 15, false);
    gv::ensures((a < b) == ((ah < bh) | ((ah == bh) & (al < bl))), "two hexadecimal digits order like the byte they spell");
}
GV_CONTRACT(C15, transitive)
{
    const uuid x = make(any_bytes(N)), y = make(any_bytes(M)), z = make(any_bytes(O));
    const bool p = x < y, q = y < z, r = x < z;
    gv::ensures(gv::imp(p & q, r), "< is transitive");
}
GV_CONTRACT(C15, nil)
{
    const uuid u; uint8_t b[16]; memcpy(b, (const void*)&u, 16);
    bool zero = true; for (int k = 0; k < 16; ++k) zero = zero & (b[k] == 0);
    gv::ensures(zero, "a default constructed uuid is all zero");
    const Bytes a = any_bytes(N); const uuid x = make(a), c = x; uuid d; d = x;
    gv::ensures(gv::all(memcmp((const void*)&c, a.v, 16) == 0, memcmp((const void*)&d, a.v, 16) == 0), "copies have the same bytes");
}
#ifdef GV_NATIVE
GV_CONTRACT(C15, text_order_full)
{
    Bytes a = any_bytes(N), b = any_bytes(M); const int share = gv_any_range("share", 0, 16); for (int k = 0; k < share; ++k) b.v[k] = a.v[k];
    const uuid x = make(a), y = make(b);
    gv::ensures((x < y) == (x.to_string() < y.to_string()) && (x == y) == (x.to_string() == y.to_string()), "the order is the order of the texts");
}
#endif
