#include <gv/gv.hpp>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <argparse/argument_parser.cpp>
#include <string>
#include <vector>
using tc::sdk::argument_parser; using tc::sdk::parse_result;
#ifdef GV_NATIVE
// an independent reading of the command line: what each registered argument must hold afterwards
struct Vals { std::string out = "dflt", name = "anon"; int num = 11; double ratio = 0.5; std::vector<int> list = {7, 8}; unsigned cnt = 3; bool flag = false, quiet = false; std::string p1; int p2 = 0; };
struct Got { bool out = false, name = false, num = false, ratio = false, list = false, cnt = false, p1 = false, p2 = false; };
// int and double take the longest numeric prefix (documented by the tests), other types the whole text
static bool num(std::string s, int& v, bool prefix = true) { if (prefix) { size_t k = !s.empty() && s[0] == '-'; while (k < s.size() && s[k] >= '0' && s[k] <= '9') ++k; s.resize(k); } if (s.empty() || s.size() > 6) return false; size_t k = s[0] == '-'; if (k == s.size()) return false; v = 0; for (; k < s.size(); ++k) { if (s[k] < '0' || s[k] > '9') return false; v = v * 10 + s[k] - '0'; } if (s[0] == '-') v = -v; return true; }
struct Oracle
{
    Vals v; Got g; bool err = false, even = false, small = false; bool silent = false;
    bool set(const std::string& key, const std::string& val) // false: error
    {
        int x;
        if (key == "output" || key == "o") { v.out = val; g.out = true; return true; }
        if (key == "name") { v.name = val; g.name = true; return true; }
        if (key == "num" || key == "n") { if (!num(val, x) || (even && x % 2)) return false; v.num = x; g.num = true; return true; }
        if (key == "ratio") { if (!num(val, x)) return false; v.ratio = x; g.ratio = true; return true; }
        if (key == "cnt" || key == "c") { if (!num(val, x, false) || (small && (unsigned)x > 9)) return false; v.cnt = x; g.cnt = true; return true; }
        if (key == "list" || key == "l") { std::vector<int> l; std::istringstream is(val); std::string e; while (std::getline(is, e, ',')) { if (!num(e, x)) return false; l.push_back(x); } v.list = l; g.list = true; return true; }
        return false;
    }
    static bool isopt(const std::string& k) { return k == "output" || k == "o" || k == "name" || k == "num" || k == "n" || k == "ratio" || k == "cnt" || k == "c" || k == "list" || k == "l"; }
    parse_result run(const std::vector<std::string>& a, bool ro, bool rn)
    {
        int pos = 0;
        for (size_t k = 0; k < a.size(); ++k)
        {
            const std::string& t = a[k];
            if (t[0] != '-')
            {
                if (pos == 0) { v.p1 = t; g.p1 = true; } else if (pos == 1) { int x; if (!num(t, x)) return parse_result::error; v.p2 = x; g.p2 = true; } else return parse_result::error;
                ++pos; continue;
            }
            size_t d = 0; while (d < t.size() && t[d] == '-') ++d;
            if (d > 2 || d == t.size()) return parse_result::error;
            const std::string b = t.substr(d); const size_t eq = b.find('='); const std::string key = b.substr(0, eq), val = eq == std::string::npos ? "" : b.substr(eq + 1);
            if (key == "help" || key == "h" || key == "version" || key == "v") return parse_result::quit;
            if (isopt(key)) { if (eq != std::string::npos) { if (!set(key, val)) return parse_result::error; } else if (++k < a.size()) { if (!set(key, a[k])) return parse_result::error; } else return parse_result::error; }
            else if (key == "flag" || key == "f") v.flag = true; else if (key == "quiet") v.quiet = true; else return parse_result::error;
        }
        return g.p1 && g.p2 && (!ro || g.out) && (!rn || g.num) ? parse_result::success : parse_result::error;
    }
};
static std::string value()
{
    static const char* V[] = {"x", "12", "-7", "4", "8", "a=b", "1,2,3", "q w", "zz-top", "5,x", "out", "999999", "0", "--flag", "abc", "="};
    return V[gv_any_range("value", 0, 15)];
}
static std::string token()
{
    static const char* N[] = {"output", "o", "name", "num", "n", "ratio", "cnt", "c", "list", "l", "flag", "f", "quiet", "help", "version", "out", "outputs", "q", "flag ", "Output", "numb"};
    const int k = gv_any_range("kind", 0, 11); const std::string n = N[gv_any_range("argument", 0, 20)];
    switch (k)
    {
        case 0: case 1: return "--" + n; case 2: return "-" + n; case 3: case 4: { if (n[0] == 'f' || n[0] == 'q') return "--" + n; return "--" + n + "=" + value(); } case 5: if (n[0] == 'f' || n[0] == 'q') return "-" + n; return "-" + n + "=" + value();
        case 6: case 7: case 8: case 9: return value();
        case 10: { static const char* M[] = {"-", "--", "---", "---output", "--=x", "-=x", "---flag", "--=", "----", "-=4"}; return M[gv_any_range("malformed", 0, 9)]; }
        default: { static const char* C[] = {"--num=4", "--output=file", "-n", "-o=p=q", "first", "42", "--quiet", "-f", "--list=3,4", "--name"}; return C[gv_any_range("common", 0, 9)]; }
    }
}
struct Quiet { std::ostringstream s; std::streambuf *a, *b; Quiet() { a = std::cout.rdbuf(s.rdbuf()); b = std::cerr.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
static void run(bool env)
{
    const int n = gv_any_range("tokens", 0, 7); std::vector<std::string> a; for (int k = 0; k < n; ++k) a.push_back(token());
    const bool ro = gv::any<bool>("output required"), rn = gv::any<bool>("num required"), even = gv::any<bool>("validator"), small = gv::any<bool>("validator2"), odd = gv::any<bool>("validator throws");
    Oracle o; o.even = even; o.small = small; bool envbad = false;
    const char* E[] = {"GV_OUT", "GV_NUM", "GV_CNT", "GV_FLAG", "GV_LIST"}; for (auto e : E) unsetenv(e);
    if (env) for (int k = 0; k < 5; ++k) if (gv::any<bool>("environment")) { const std::string v = value(); setenv(E[k], v.c_str(), 1); if (k == 3) o.v.flag = true; else if (!o.set(k == 0 ? "output" : k == 1 ? "num" : k == 2 ? "cnt" : "list", v)) envbad = true; }
    Vals v; v.flag = v.quiet = false; v.p1 = "?"; v.p2 = -1; parse_result r; bool threw = false; int seen_bad = 0;
    Oracle full = o; const Vals dv; 
    const parse_result want = envbad ? parse_result::error : full.run(a, ro, rn);
    {
        Quiet q; argument_parser p("prog", "1.0", "desc");
        p.add_positional("p1", v.p1); p.add_positional("p2", v.p2);
        p.add_option("name", v.name, std::string("anon"), "");
        p.add_option("output", 'o', v.out, std::string("dflt"), "", ro, env ? "GV_OUT" : "");
        auto on = std::make_unique<tc::sdk::optional_argument<int>>("num", 'n', v.num, 11, "", rn, env ? "GV_NUM" : ""); if (even) on->set_validator([&](const int& x) { if (x % 2 && odd) throw 5; return x % 2 == 0; }); p.add_option(std::move(on));
        auto oc = std::make_unique<tc::sdk::optional_argument<unsigned>>("cnt", 'c', v.cnt, 3u, "", false, env ? "GV_CNT" : ""); if (small) oc->set_validator([&](const unsigned& x) { if (x > 9) ++seen_bad; return x <= 9; }); p.add_option(std::move(oc));
        p.add_option("ratio", v.ratio, 0.5); p.add_option("list", 'l', v.list, std::vector<int>{7, 8}, "", false, env ? "GV_LIST" : "");
        p.add_flag("flag", 'f', v.flag, "", env ? "GV_FLAG" : ""); p.add_flag("quiet", v.quiet);
        std::vector<std::string> keep; keep.push_back("prog"); for (auto& s : a) keep.push_back(s); std::vector<char*> av; for (auto& s : keep) av.push_back(s.data()); av.push_back(nullptr);
        try { r = p.parse((int)keep.size(), av.data()); } catch (...) { threw = true; }
    }
    for (auto e : E) unsetenv(e);
    gv::ensures(!threw, "parse never lets an exception escape"); if (threw) return;
    gv::ensures(!(r == parse_result::success && want != parse_result::success), "parse returns success only if every required argument received a valid value and no token is in error");
    gv::ensures(r == want, "parse returns quit for help and version, error for a wrong token or value, success otherwise");
    const Vals& w = full.v;
    if (want == parse_result::success && r == want)
    {
        gv::ensures(v.out == w.out && v.name == w.name && v.num == w.num && v.ratio == w.ratio && v.list == w.list && v.cnt == w.cnt, "every option holds the value its tokens give, or its default");
        gv::ensures(v.flag == w.flag && v.quiet == w.quiet, "exactly the flags given are set"); gv::ensures(v.p1 == w.p1 && v.p2 == w.p2, "the remaining tokens go to the positionals in order");
    }
    if (!envbad)
    {
        gv::ensures(v.num == w.num && v.cnt == w.cnt && v.ratio == w.ratio && v.list == w.list, "a value that fails conversion or validation is not stored");
        gv::ensures(v.out == w.out && v.name == w.name && v.flag == w.flag && v.quiet == w.quiet, "an argument not mentioned keeps its value");
    }
    else { gv::ensures(!even || v.num % 2 == 0 || v.num == 11, "a value that fails validation is not stored"); gv::ensures(!small || v.cnt <= 9, "a value that fails validation is not stored"); }
}
GV_CONTRACT(C24, tokens) { run(false); }
GV_CONTRACT(C25, errors) { run(true); }
#endif
