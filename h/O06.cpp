// Casts.
#include "q.h"
static bool isd(char c) { return c >= '0' && c <= '9'; }
void sx_main() {
    int part = (int)sx_param("PART", 0), fold = (int)sx_param("FOLD", 0);
    W w;
    auto def = [&](const char* n, const V& v) { if (fold && v.k <= KNull) w.env.constants.emplace(n, val(v)); else put(w, n, v); };
    if (part == 0) {                       // any kind to int, float, bool
        int k = (int)sx_choose(0, KCOUNT - 1, "kind"); sx_assume(k != KStr);
        V a = smallv(fold, k, "a"); def("a", a);
        R rd = w.run("a"); if (k == KInt) { sx_assert(rd.isInt(a.i), "read back"); a.i = rd.i(); }
        R i = w.run("a as int"), f = w.run("a as float"), b = w.run("a as bool"), n = w.run("a as null");
        obs(i); obs(f); obs(b);
        sx_assert(n.isNull(), "as null is null");
        sx_assert(i.is(VT::Int), "as int gives an integer"); sx_assert(f.is(VT::Float), "as float gives a floating point number");
        sx_assert(b.isBool(k == KBool ? a.b : k != KNull), "as bool follows truth");
        switch (k) {
        case KInt: sx_reach("int"); sx_assert(i.i() == a.i, "int as int"); sx_assert(sameD(f.d(), (double)a.i), "int as float is the nearest double"); break;
        case KBool: sx_reach("bool"); sx_assert(i.i() == (a.b ? 1 : 0), "bool as int"); sx_assert(f.d() == (a.b ? 1.0 : 0.0), "bool as float"); break;
        case KDouble: {
            sx_assert(sameD(f.d(), a.d), "float as float");
            bool fits = a.d >= -9223372036854775808.0 && a.d < 9223372036854775808.0;
            if (fits) { sx_reach("float in range"); sx_assert(i.i() == (int64_t)a.d, "float as int truncates"); } else { sx_reach("float out of range"); sx_assert(i.i() == 0, "a float that is no integer gives 0"); }
            break;
        }
        default: sx_reach("other"); sx_assert(i.i() == 0 && f.d() == 0.0, "anything else is 0");
        }
    } else if (part == 1) {                // string to int
        int K = (int)sx_param("K", 2), neg = (int)sx_param("NEG", 0), Z = (int)sx_param("Z", 0);
        std::string s = sx_string(K, "digits"); int64_t x = 0;
        for (int i = 0; i < K; i++) { sx_assume(isd(s[i])); x = x * 10 + (s[i] - '0'); }
        V a; a.k = KStr; a.s = (neg == 1 ? "-" : neg == 2 ? "+" : "") + std::string(Z, '0') + s; def("a", a);
        R r = w.run("a as int"); obs(r);
        sx_reach("digits");
        sx_assert(r.isInt(neg == 1 ? -x : x), "a string of digits as int is the number");
        if (K <= 3) { R f = w.run("a as float"); obs(f); sx_assert(f.is(VT::Float) && f.d() == (double)(neg == 1 ? -x : x), "a string of digits as float is the number"); }
    } else if (part == 2) {                // no number: 0
        std::string s = sx_string(sx_param("K", 1), "text");
        if (s.size()) { char c = s[0]; sx_assume(!isd(c) & (c != '-') & (c != '+') & (c != '.') & (c != ' ') & !((c >= 9) & (c <= 13)) & ((c | 32) != 'n') & ((c | 32) != 'i') & (c != 0)); }
        V a; a.k = KStr; a.s = s; def("a", a);
        R r = w.run("a as int"), t = w.run("a as string"), b = w.run("a as bool");
        sx_reach("no number");
        sx_assert(r.isInt(0), "no number as int is 0"); if (s.size() < 2) { R f = w.run("a as float"); sx_assert(f.is(VT::Float) && f.d() == 0.0, "no number as float is 0"); }
        sx_assert(t.isStr(a.s), "string as string"); sx_assert(b.isBool(true), "a string is true");
    } else if (part == 3) {                // to string
        int k = (int)sx_choose(0, 5, "kind"); V a; std::string want;
        if (k == 0) { a.k = KInt; a.i = (int64_t)sx_range(0, 999, "int") ; sx_assume(a.i >= 0); bool n = sx_bool("negative"); int64_t x = a.i; std::string d; do { d.insert(d.begin(), (char)('0' + x % 10)); x /= 10; } while (x); want = (n && a.i ? "-" : "") + d; if (n) a.i = -a.i; }
        else if (k == 1) { static const std::pair<double, const char*> t[] = {{0.5, "0.500000"}, {-2.25, "-2.250000"}, {1e6, "1000000.000000"}, {0, "0.000000"}, {123456.75, "123456.750000"}}; int j = (int)sx_choose(0, 4, "float"); a.k = KDouble; a.d = t[j].first; want = t[j].second; }
        else if (k == 2) { a.k = KBool; a.b = sx_bool("bool"); want = a.b ? "true" : "false"; }
        else if (k == 3) { a.k = KNull; want = "null"; }
        else if (k == 4) { a.k = KStr; a.s = sx_string(3, "text"); want = a.s; }
        else { static const std::pair<int64_t, const char*> t[] = {{INT64_MIN, "-9223372036854775808"}, {INT64_MAX, "9223372036854775807"}, {1000000007, "1000000007"}, {-65536, "-65536"}}; int j = (int)sx_choose(0, 3, "big"); a.k = KInt; a.i = t[j].first; want = t[j].second; }
        def("a", a);
        R r = w.run("a as string"); sx_reach("string"); sx_assert(r.isStr(want), "as string spells the value");
        if (a.k == KInt) sx_assert(w.run("a as string as int").isInt(a.i), "an integer survives the way through a string");
        if (a.k == KDouble) { R f = w.run("a as string as float"); sx_assert(f.is(VT::Float) && f.d() == a.d, "these floats survive the way through a string"); }
    }
}
