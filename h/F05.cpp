// Wrong arguments: every function, argument count and kinds of arguments give a value or an error naming the function, never a crash.
#include "q.h"
static const struct { const char* fn; int lo, hi; } F[] = {{"any", 1, 9}, {"each", 1, 9}, {"all", 1, 9}, {"count", 1, 9}, {"range", 2, 2}, {"arr", 0, 9}, {"split", 2, 3}, {"select", 2, 3}, {"sum", 1, 3}, {"keys", 1, 1}, {"trace", 1, 3}, {"re", 1, 1}};
void sx_main() {
    W w; int f = (int)sx_choose(0, 11, "function"), n = (int)sx_choose(0, (uint64_t)sx_param("N", 3), "arguments"), fold = (int)sx_param("FOLD", 0);
    static const char* nm[] = {"a", "b", "c", "d"}; std::string args; int k[4]; V v[4];
    for (int i = 0; i < n; i++) {
        k[i] = (int)sx_choose(0, 6, nm[i]); if (f == 11 && k[i] == KStr) sx_assume(false);            // std::regex is not modelled
        v[i].k = k[i]; v[i].i = (int64_t)i + 1; v[i].d = 1.5; v[i].s = "xy"; v[i].b = i == 0;
        if (fold && k[i] < KObj) w.env.constants.emplace(nm[i], val(v[i])); else put(w, nm[i], v[i]);
        args += (i ? ", " : "") + std::string(nm[i]);
    }
    std::string name = F[f].fn; bool upper = sx_bool("upper case"); if (upper) for (char& c : name) c = (char)(c - 32);
    R r = w.run(name + "(" + args + ")"); sx_observe((uint64_t)r.err); sx_observe(r.v.size());
    sx_assert(r.err != 2, "errors are runtime errors");
    bool count = n >= F[f].lo && n <= F[f].hi, types = true, spelled = r.what.find(name == "ALL" || name == "all" ? "each" : F[f].fn) != std::string::npos;
    auto is = [&](int i, int t) { return i >= n || k[i] == t; };
    if (count) {
        if (f == 4) types = is(0, KInt) && is(1, KInt);
        if (f == 6) types = is(0, KStr) && is(1, KStr) && is(2, KBool);
        if (f == 7) types = is(1, KInt) && is(2, KInt);
        if (f == 10) types = is(1, KInt) && is(2, KStr);
        if (f == 11) types = k[0] == KStr;
    }
    if (!count) { if (n < F[f].lo || f == 4 || f == 8 || f == 9 || f == 11) { sx_reach("count"); sx_assert(r.err == 1 && spelled, "a wrong number of arguments is an error naming the function"); } }
    else if (!types) { sx_reach("type"); sx_assert(r.err == 1 && spelled, "an argument of a wrong type is an error naming the function"); }
    else if (f != 8) { sx_reach("value"); sx_assert(!r.err && r.v.size() >= 1, "a correct call gives a value"); }        // sum adds anything, which may fail in the operator
    if (f == 8 && count && n == 1) sx_assert(k[0] == KInt || k[0] == KDouble || k[0] == KStr || k[0] == KNull ? !r.err : r.err == 1, "sum of a value which cannot be added is an error");
    R u = w.run("nosuch" + name + "(" + args + ")"); sx_assert(u.err == 1 && u.what.find("nosuch") != std::string::npos, "an unknown function is an error naming it");
}
