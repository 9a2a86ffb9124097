// Strings: concatenation, length, character access.
#include "q.h"
void sx_main() {
    int part = (int)sx_param("PART", 0), fold = (int)sx_param("FOLD", 0), pad = (int)sx_param("PAD", 0);
    W w;
    auto def = [&](const char* n, const V& v) { if (fold && v.k <= KNull) w.env.constants.emplace(n, val(v)); else put(w, n, v); };
    V a, b; a.k = KStr; a.s = std::string(pad, 'x') + sx_string(sx_param("LA", 2), "a"); def("a", a);
    if (part == 0) {
        b.k = KStr; b.s = sx_string(sx_param("LB", 2), "b") + std::string(pad, 'y'); def("b", b);
        R r = w.run("a + b"), n = w.run("#a"), m = w.run("#(a + b)");
        sx_reach("concatenation"); obs(r);
        sx_assert(r.isStr(a.s + b.s), "+ joins the two texts"); sx_assert(n.isInt((int64_t)a.s.size()), "# is the number of bytes"); sx_assert(m.isInt((int64_t)(a.s.size() + b.s.size())), "the length of a concatenation");
        sx_assert(w.run("a").isStr(a.s) && w.run("b").isStr(b.s), "operands are unchanged");
    } else if (part == 1) {
        V i; i.k = KInt; i.i = fold ? (int64_t)sx_choose(0, 9, "i") - 3 : sx_i64("i"); def("i", i);
        R r = w.run(fold ? "a[i]" : "(a + '')[i]"); obs(r);            // on a model node [] only looks for children
        if (i.i >= 0 && i.i < (int64_t)a.s.size()) { sx_reach("inside"); size_t k = (size_t)sx_concrete((uint64_t)i.i); sx_assert(r.isStr(a.s.substr(k, 1)), "[i] is the i-th character"); }
        else { sx_reach("outside"); sx_assert(r.isNull(), "[i] outside the string is null"); }
    } else {
        V n; n.k = KInt; n.i = (int64_t)sx_choose(0, 120, "n") - 20; def("n", n);
        R x = w.run("a + n"), y = w.run("n + a");
        int64_t m = n.i < 0 ? -n.i : n.i; std::string d; do { d.insert(d.begin(), (char)('0' + m % 10)); m /= 10; } while (m); if (n.i < 0) d.insert(d.begin(), '-');
        sx_reach("number"); sx_assert(x.isStr(a.s + d), "string plus number"); sx_assert(y.isStr(d + a.s), "number plus string");
    }
}
