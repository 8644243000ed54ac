// Native side of gv: runs a contract function on concrete inputs (replay) or on directed random ones (search).
#include <gv/gv.hpp>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <dlfcn.h>
#include <fstream>
#include <iostream>
#include <limits>
#include <random>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
struct assume_failed {};
struct Shared { int n; int failed; char label[512]; struct { char name[48]; char kind[8]; uint64_t v; } in[20000]; };
static Shared* S;
static std::vector<std::pair<std::string, uint64_t>> given; // replayed values in order
static bool replaying = false, mutate = false;
static size_t pos = 0;
static std::mt19937_64 rng;
static const char* want = nullptr;
static uint64_t rec(const char* n, const char* k, uint64_t v)
{
    if (S->n < 20000) { auto& e = S->in[S->n++]; strncpy(e.name, n, 47); for (char* c = e.name; *c; ++c) if (*c == ' ') *c = '_'; strncpy(e.kind, k, 7); e.v = v; }
    return v;
}
static bool same(const std::string& a, const char* n) { for (char c : a) { if (!*n || c != (*n == ' ' ? '_' : *n)) return false; ++n; } return !*n; }
static bool next(const char* n, uint64_t& v)
{
    if (!replaying) return false;
    for (size_t k = pos; k < given.size(); ++k)
        if (same(given[k].first, n)) { v = given[k].second; pos = k + 1; if (mutate && rng() % 6 == 0) return false; return true; }
    for (size_t k = 0; k < given.size(); ++k)
        if (same(given[k].first, n)) { v = given[k].second; return true; }
    return false;
}
static uint64_t rnd_int(int w, bool sgn)
{
    uint64_t m = w == 64 ? ~0ull : ((1ull << w) - 1);
    uint64_t v;
    switch (rng() % 8)
    {
        case 0: { static const int64_t sp[] = {0, 1, -1, 2, -2, 7, 10, 100, 255, 256, 999, 1000, 86400, 3600, 60, 86399, 86400000000000ll, 3600000000000ll, 60000000000ll, 1000000000, 1000000, 536870912, 16777216, -86400000000000ll, -1000000000}; v = (uint64_t)sp[rng() % (sizeof sp / sizeof *sp)]; break; }
        case 1: case 2: v = (uint64_t)((int64_t)(rng() % 21) - 10); break;
        case 3: v = rng() & (rng() % 2 ? 0xff : 0xffff); break;
        case 4: v = (uint64_t)((int64_t)rng() >> (rng() % 64)); break;
        case 5: if (S->n) { v = S->in[rng() % S->n].v + (rng() % 3) - 1; break; } [[fallthrough]];
        case 6: v = sgn ? (rng() % 2 ? (1ull << (w - 1)) : (1ull << (w - 1)) - 1) : m; v += (rng() % 3) - 1; break;
        default: v = rng();
    }
    return v & m;
}
static double rnd_fp()
{
    switch (rng() % 6)
    {
        case 0: { static const double sp[] = {0.0, 1.0, -1.0, 0.5, 2.0, 0.1, 1e9, -0.0, 1e-9, 1e300, INFINITY, -INFINITY}; return sp[rng() % 12]; }
        case 1: case 2: return (double)((int64_t)(rng() % 21) - 10);
        case 3: if (S->n) { uint64_t b = S->in[rng() % S->n].v; double d; memcpy(&d, &b, 8); if (d == d) return d; } [[fallthrough]];
        case 4: return ((double)(int64_t)rng()) / (double)(1ull << (rng() % 63));
        default: return ((double)(rng() % 2000001) - 1000000) / 1000.0;
    }
}
template <typename T> static T anyi(const char* n, const char* k)
{
    uint64_t v;
    if (!next(n, v)) v = rnd_int(sizeof(T) * 8, std::is_signed_v<T>);
    return (T)rec(n, k, v);
}
extern "C" {
int8_t gv_any_i8(const char* n) { return anyi<int8_t>(n, "i8"); }
uint8_t gv_any_u8(const char* n) { return anyi<uint8_t>(n, "u8"); }
int16_t gv_any_i16(const char* n) { return anyi<int16_t>(n, "i16"); }
uint16_t gv_any_u16(const char* n) { return anyi<uint16_t>(n, "u16"); }
int32_t gv_any_i32(const char* n) { return anyi<int32_t>(n, "i32"); }
uint32_t gv_any_u32(const char* n) { return anyi<uint32_t>(n, "u32"); }
int64_t gv_any_i64(const char* n) { return anyi<int64_t>(n, "i64"); }
uint64_t gv_any_u64(const char* n) { return anyi<uint64_t>(n, "u64"); }
int64_t gv_any_range(const char* n, int64_t lo, int64_t hi)
{
    uint64_t v;
    if (!next(n, v))
    {
        uint64_t span = (uint64_t)hi - (uint64_t)lo + 1;
        switch (rng() % 5) {
            case 0: v = (uint64_t)lo + rng() % (span ? (span < 8 ? span : 8) : 8); break;
            case 1: v = (uint64_t)hi - rng() % (span ? (span < 8 ? span : 8) : 8); break;
            case 2: { v = rnd_int(64, true); int64_t s = (int64_t)v; if (s >= lo && s <= hi) break; } [[fallthrough]];
            default: v = span ? (uint64_t)lo + rng() % span : rng();
        }
    }
    int64_t s = (int64_t)v;
    if (s < lo || s > hi) throw assume_failed();
    rec(n, "i64", v); return s;
}
bool gv_any_bool(const char* n) { uint64_t v; if (!next(n, v)) v = rng() & 1; return rec(n, "b", v & 1); }
double gv_any_f64(const char* n) { uint64_t v; double d; if (!next(n, v)) { d = rnd_fp(); memcpy(&v, &d, 8); } rec(n, "f64", v); memcpy(&d, &v, 8); return d; }
float gv_any_f32(const char* n) { uint64_t v; float f; if (!next(n, v)) { f = (float)rnd_fp(); uint32_t b; memcpy(&b, &f, 4); v = b; } rec(n, "f32", v); uint32_t b = (uint32_t)v; memcpy(&f, &b, 4); return f; }
void gv_assume(bool c) { if (!c) throw assume_failed(); }
void gv_assert(bool c, const char* l)
{
    if (c || S->failed) return;
    S->failed = 1; snprintf(S->label, sizeof S->label, "%s", l);
}
void gv_cover(const char*) {}
uint64_t gv_rng() { return rng(); }
uint64_t gv_choice(const char* n, uint64_t d, uint64_t k) 
{
    if (replaying)
    {
        bool hit = false;
        for (size_t q = pos; q < given.size(); ++q) if (same(given[q].first, n)) { pos = q + 1; hit = !(mutate && rng() % 40 == 0); if (hit) d = given[q].second % k; break; }
        if (!hit && !mutate) d = 0;
    }
    return rec(n, "u32", d);
}
}
static void dump(const char* what);
extern "C" void gv_die(const char* l) { if (!S->failed) { S->failed = 1; snprintf(S->label, sizeof S->label, "%s", l); } dump(S->label); std::cout.flush(); _exit(10); }
static void dump(const char* what)
{
    std::cout << "VIOLATED " << what << "\n";
    for (int k = 0; k < S->n; ++k)
    {
        std::cout << "INPUT " << S->in[k].name << " " << S->in[k].kind << " " << S->in[k].v;
        if (!strcmp(S->in[k].kind, "f64")) { double d; memcpy(&d, &S->in[k].v, 8); std::cout << " # " << d; }
        else if (S->in[k].kind[0] == 'i') { int w = atoi(S->in[k].kind + 1); int64_t s = (int64_t)(S->in[k].v << (64 - w)) >> (64 - w); std::cout << " # " << s; }
        std::cout << "\n";
    }
}
// 0 holds, 1 violated, 2 precondition not met
static int once(void (*f)())
{
    S->n = 0; S->failed = 0; pos = 0;
    try { f(); }
    catch (assume_failed&) { return S->failed ? 1 : 2; }
    catch (...) { if (!S->failed) { S->failed = 1; snprintf(S->label, sizeof S->label, "no exception escapes the contract"); } }
    return S->failed;
}
int main(int argc, char** argv)
{
    if (argc < 3) return 64;
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto f = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!f) { std::cerr << "no contract " << argv[1] << "\n"; return 64; }
    std::string mode = argv[2];
    auto load = [&](const char* p) {
        std::ifstream in(p); std::string line;
        while (std::getline(in, line)) { std::istringstream is(line); std::string tag, n, k; uint64_t v; if (is >> tag >> n >> k >> v && tag == "INPUT") given.push_back({n, v}); }
    };
    if (mode == "replay")
    {
        load(argv[3]); replaying = true; rng.seed(1);
        pid_t p = fork();
        if (!p) { alarm(20); int r = once(f); if (r == 1) dump(S->label); _exit((std::cout.flush(), r == 1 ? 10 : r == 2 ? 11 : 0)); }
        int st; waitpid(p, &st, 0);
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 10 || WEXITSTATUS(st) == 11)) return WEXITSTATUS(st);
        dump(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "does not terminate within 20 s" : "crash / undefined behaviour (see output)"); return 10;
    }
    double secs = atof(argv[3]); uint64_t seed = strtoull(argv[4], nullptr, 10); if (argc > 5) { load(argv[5]); }
    rng.seed(seed);
    timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    long total = 0, valid = 0; long* cnt = (long*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t p = fork();
    if (!p)
    {
        for (;;)
        {
            for (int k = 0; k < 64; ++k)
            {
                mutate = replaying = !given.empty() && rng() % 2; alarm(20);
                int r = once(f); cnt[0]++; if (r != 2) cnt[1]++;
                if (r == 1) { dump(S->label); std::cout.flush(); _exit(10); }
            }
            timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
            if ((t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) > secs) _exit(0);
        }
    }
    int st; waitpid(p, &st, 0);
    std::cout << "TRIALS " << cnt[0] << " " << cnt[1] << "\n";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 10) return 10;
    dump(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "does not terminate within 20 s" : "crash / undefined behaviour (see output)"); return 10;
}
