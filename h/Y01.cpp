// Integer ranges: membership, equality, unpacking, type, string.
#include "q.h"
void sx_main() {
    int part = (int)sx_param("PART", 0), fold = (int)sx_param("FOLD", 0);
    W w;
    auto def = [&](const char* n, const V& v) { if (fold && v.k <= KNull) w.env.constants.emplace(n, val(v)); else put(w, n, v); };
    V a = smallv(fold, KInt, "a"), b = smallv(fold, KInt, "b");
    if (part == 1) {                                   // unpack: values from a to b in order
        int span = (int)sx_param("SPAN", 3); int64_t base = sx_param("BASE", 0);
        a.i = base + (int64_t)sx_choose(0, (uint64_t)span, "begin"); b.i = base + (int64_t)sx_choose(0, (uint64_t)span, "end");
        def("a", a); def("b", b);
        R r = w.run("range(a, b)..."); obs(r);
        sx_assert(!r.err, "a range unpacks");
        uint64_t n = (uint64_t)(a.i <= b.i ? b.i - a.i : a.i - b.i) + 1;
        sx_assert(r.v.size() == n, "as many values as the range has");
        for (uint64_t i = 0; i < n && i < r.v.size(); i++) sx_assert(r.v[i].isa(VT::Int) && r.v[i].as<VT::Int>() == (a.i <= b.i ? a.i + (int64_t)i : a.i - (int64_t)i), "values in order from begin to end");
        sx_reach(a.i <= b.i ? "upwards" : "downwards");
        sx_assert(w.run("count(range(a, b)...)").isInt((int64_t)n), "count of an unpacked range");
        return;
    }
    def("a", a); def("b", b);
    R ra = w.run("a"), rb = w.run("b"); a.i = ra.i(); b.i = rb.i();
    int64_t lo = a.i < b.i ? a.i : b.i, hi = a.i < b.i ? b.i : a.i;
    if (part == 0) {
        int k = (int)sx_param("K", 0); V v = smallv(fold, k, "v"); def("v", v);
        R rv = w.run("v"); if (k == KInt) v.i = rv.i();
        bool in = k == KInt ? lo <= v.i && v.i <= hi : k == KDouble ? (double)lo <= v.d && v.d <= (double)hi : false;
        if (in) sx_reach("inside"); else sx_reach("outside");
        sx_assert(w.run("v == range(a, b)").isBool(in) && w.run("range(a, b) == v").isBool(in), "== tests membership, from either side");
        sx_assert(w.run("v != range(a, b)").isBool(!in) && w.run("range(a, b) != v").isBool(!in), "!= is the opposite");
    } else if (part == 2) {
        sx_assert(w.run("typeof range(a, b)").isStr("irange"), "typeof a range"); sx_assert(w.run("range(a, b)?").isBool(true), "a range is true");
        V c = symv(KInt, "c"), d = symv(KInt, "d"); def("c", c); def("d", d);
        R r = w.run("range(a, b) == range(c, d)"); sx_assert(r.isBool(a.i == c.i && b.i == d.i), "ranges are equal if both ends are"); sx_reach("compared");
        R n = w.run("#range(a, b)"); sx_assert(n.is(VT::Int), "a range has a length");
        static const char* bad[] = {"range(a, b) + 1", "range(a, b) < 1", "- range(a, b)", "1 & range(a, b)"};
        for (auto q : bad) sx_assert(w.run(q).err == 1, "other operators on a range are errors");
    } else {
        int64_t x = (int64_t)sx_choose(0, 24, "x") - 12, y = (int64_t)sx_choose(0, 3, "y") * 99 - 100; W u; u.env.constants.emplace("a", Value::make(x)); u.env.constants.emplace("b", Value::make(y));
        sx_reach("string"); sx_assert(u.run("range(a, b) as string").isStr(std::to_string(x) + ".." + std::to_string(y)), "string form");
    }
}
