// Assumed contract of std::stringstream used for output and of date.h format/parse (IR build only; the native build uses the real ones).
// The text written is recorded as a sequence of segments: characters and numbers with width, fill and base.
#pragma once
#include <iomanip>
#include <sstream>
#include <string>
#include <chrono>
#ifndef GV_NATIVE
namespace gv
{
struct Seg { int kind; int64_t v; int width; int fill; int base; }; // kind 0: the character v; 1: the number v in base, padded on the left to width with fill
struct Text
{
    Seg s[48]; int n;
    void put(int k, int64_t v, int w, int f, int b) { s[n].kind = k; s[n].v = v; s[n].width = w; s[n].fill = f; s[n].base = b; ++n; }
};
inline Text last_text; // what the last str() returned
}
namespace std
{
class gv_stringstream
{
public:
    gv_stringstream() { _t.n = 0; _w = 0; _f = ' '; _b = 10; _fail = false; _in = nullptr; }
    explicit gv_stringstream(const std::string& in) { _t.n = 0; _w = 0; _f = ' '; _b = 10; _fail = false; _in = &in; }
    void width(int w) { _w = w; }
    void fill(char c) { _f = c; }
    gv_stringstream& operator<<(char c) { for (; _w > 1; --_w) _t.put(0, _f, 0, 0, 0); _w = 0; _t.put(0, c, 0, 0, 0); return *this; }
    gv_stringstream& operator<<(const char* p) { for (; *p; ++p) _t.put(0, *p, 0, 0, 0); _w = 0; return *this; }
    gv_stringstream& operator<<(long v) { num(v); return *this; }
    gv_stringstream& operator<<(unsigned long v) { num(v); return *this; }
    gv_stringstream& operator<<(long long v) { num(v); return *this; }
    gv_stringstream& operator<<(int v) { num(v); return *this; }
    gv_stringstream& operator<<(unsigned v) { num(v); return *this; }
    gv_stringstream& operator<<(std::_Setw w) { _w = w._M_n; return *this; }
    gv_stringstream& operator<<(std::_Setfill<char> c) { _f = c._M_c; return *this; }
    gv_stringstream& operator<<(std::ios_base& (*m)(std::ios_base&)) { if (m == static_cast<std::ios_base& (*)(std::ios_base&)>(std::hex)) _b = 16; else if (m == static_cast<std::ios_base& (*)(std::ios_base&)>(std::dec)) _b = 10; return *this; }
    std::string str() const { gv::last_text = _t; return std::string(); }
    bool fail() const { return _fail; }
    explicit operator bool() const { return !_fail; }
    bool operator!() const { return _fail; }
    const std::string& gv_input() const { return *_in; }
    void gv_set_fail() { _fail = true; }
private:
    void num(int64_t v) { _t.put(1, v, _w, _f, _b); _w = 0; }
    gv::Text _t; int _w; char _f; int _b; bool _fail; const std::string* _in;
};
}
#define stringstream gv_stringstream
#define ostringstream gv_stringstream
#define istringstream gv_stringstream
#endif
