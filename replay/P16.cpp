#include "h.h"
#include <cerrno>
#include <softlib/Configuration.h>
#include <softlib/Configuration/ConfigurationScript.h>
#include <softlib/SOFTLibException.h>
using std::string; using std::vector;
static const char *pool[] = {"yes", "Yes", "YES", "no", "No", "NO", "true", "True", "TRUE", "false", "False", "FALSE", "yEs", "tru", "1", "0", "-1", "+7", "007",
    "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "-4294967295", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
    "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-99999999999999999999999", "-0", "", " ", "1x", "x1", "12abc", "1.5", "-2.25e3", "1e400", "-1e400", "1e", "1e+", ".5", "5.", ".", "-", "+", "3 4", "1,2", "0x10", "1.5.5", "--1", "hello", "1e10", "123456789"};
static string text() {
    int n = sizeof pool / sizeof *pool;
    if (I(0, 4)) return pool[I(0, n - 1)];
    if (I(0, 1)) return h_fmt("%ld", I(-100000, 100000));
    if (I(0, 1)) return h_fmt("%.12g", U(-1e5, 1e5));
    string s; for (int k = I(0, 6); k > 0; k--) s += "0123456789+-.eExX "[I(0, 17)]; return s;
}
// own reading of a decimal integer written in full: optional blanks, sign, digits
static bool integer(const string &s, __int128 &v) {
    size_t i = 0; while (i < s.size() && s[i] == ' ') i++;
    bool neg = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
    if (i >= s.size() || s.size() - i > 30) return false;
    v = 0; for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; v = 10 * v + (s[i] - '0'); }
    if (neg) v = -v; return true;
}
static bool realnum(const string &s, double &v) { char *e; errno = 0; if (s.empty()) return false; v = strtod(s.c_str(), &e); return e == s.c_str() + s.size() && e != s.c_str() && errno != ERANGE; }
static bool in(const string &s, std::initializer_list<const char *> l) { for (auto x : l) if (s == x) return true; return false; }
static const __int128 one = 1;
static bool thrown;
template<class F> static auto get(F f) -> decltype(f()) { thrown = false; try { return f(); } catch (std::exception &) { thrown = true; } return decltype(f())(); }
static void values(SettingScript &s, const vector<string> &v, const char *what) {
    CHECK(s.GetNumberOfValues() == v.size() && s.GetTextVector() == v, "%s: list of values", what);
    bool allreal = true; vector<double> nums;
    for (size_t i = 0; i < v.size(); i++) {
        CASE("%s: value '%s' (number %zu of %zu)", what, v[i].c_str(), i, v.size());
        __int128 z = 0; double d = 0; bool iv = integer(v[i], z), rv = realnum(v[i], d), minus = v[i].find('-') != string::npos;
        bool yes = in(v[i], {"yes", "Yes", "YES", "true", "True", "TRUE"}), no = in(v[i], {"no", "No", "NO", "false", "False", "FALSE"});
        allreal = allreal && rv; nums.push_back(d);
        bool i32 = iv && z >= -(one << 31) && z < (one << 31), i64 = iv && z >= -(one << 63) && z < (one << 63), u32 = iv && !minus && z < (one << 32), u64 = iv && !minus && z < (one << 64);
        CHECK(s.GetString(i) == v[i]);
        CHECK(s.IsBool(i) == (yes || no), "boolean"); CHECK(s.IsInteger32(i) == i32, "32-bit integer"); CHECK(s.IsInteger64(i) == i64, "64-bit integer"); CHECK(s.IsInteger(i) == i64, "integer");
        CHECK(s.IsUnsignedInteger32(i) == u32, "unsigned 32-bit integer"); CHECK(s.IsUnsignedInteger64(i) == u64, "unsigned 64-bit integer"); CHECK(s.IsScalar(i) == rv, "scalar");
        bool b = get([&] { return s.GetBool(i); }); CHECK(thrown == !(yes || no) && (thrown || b == yes), "boolean value");
        if (i32) CHECK(get([&] { return s.GetInteger32(i); }) == z && !thrown);
        if (i64) CHECK(get([&] { return s.GetInteger64(i); }) == z && !thrown);
        if (i64) CHECK(get([&] { return s.GetInteger(i); }) == z && !thrown);
        if (u32) CHECK(get([&] { return s.GetUnsignedInteger32(i); }) == z && !thrown);
        if (u64) CHECK(get([&] { return s.GetUnsignedInteger64(i); }) == (unsigned __int128)z && !thrown);
        if (rv) CHECK(get([&] { return s.GetScalar(i); }) == d && !thrown);
    }
    CASE("%s: setting of %zu values, first '%s'", what, v.size(), v.empty() ? "" : v[0].c_str());
    bool o = v.size() == 1;
    CHECK(s.IsBool() == (o && s.IsBool(0)) && s.IsInteger() == (o && s.IsInteger(0)) && s.IsInteger32() == (o && s.IsInteger32(0)) && s.IsInteger64() == (o && s.IsInteger64(0))
        && s.IsUnsignedInteger32() == (o && s.IsUnsignedInteger32(0)) && s.IsUnsignedInteger64() == (o && s.IsUnsignedInteger64(0)) && s.IsScalar() == (o && s.IsScalar(0)), "type of a setting");
    CHECK(s.IsNumericVector() == allreal, "numeric vector"); CHECK(s.IsNumericVector(v.size()) == allreal && !s.IsNumericVector(v.size() + 1) && (v.empty() || !s.IsNumericVector(v.size() - 1)), "numeric vector of given length");
    if (allreal) CHECK(s.GetNumericVector() == nums, "numeric vector");
    get([&] { return s.GetString(v.size()); }); CHECK(thrown, "value beyond the last one");
    get([&] { return s.IsScalar(v.size()); }); CHECK(thrown, "value beyond the last one");
}
static void run() {
    for (const char *p : pool) { SettingScript s("n", string(p)); values(s, {p}, "single value"); }
    for (int t = 0; t < N_(6000, 100000); t++) {
        vector<string> v; int n = I(0, 5); bool num = I(0, 1); while (n--) v.push_back(num ? h_fmt("%.10g", U(-9, 9)) : text());
        string nm = h_fmt("name%ld", I(0, 99));
        CASE("setting of %zu values, number %d", v.size(), t);
        SettingScript s(nm, v);
        CHECK(s.GetName() == nm && s.HasName(nm) && !s.HasName(nm + " ") && !s.Touched());
        values(s, v, "new setting");
        Setting *c = s.Copy(); CHECK(c != &s && c->GetName() == nm); values(*dynamic_cast<SettingScript *>(c), v, "copy");
        vector<string> w = v; string x = text(); w.push_back(x);
        CHECK(s.AppendValue(x) == &s); values(s, w, "after appending"); values(*dynamic_cast<SettingScript *>(c), v, "copy after appending to the original");
        SettingScript o("other", "1"); o.OverwriteValues(c); CHECK(o.GetName() == "other" && !o.Touched()); values(o, v, "after overwriting");
        s.OverwriteValues(&s); values(s, w, "after overwriting with itself");
        delete c;
    }
}
MAIN(run)
