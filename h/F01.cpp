// sum: folds its values from left to right with + or the given expression, from the initial value.
#include "q.h"
static Value plus(W& w, const V& a, const V& b) { put(w, "p", a); put(w, "q", b); return Value::null(); }
void sx_main() {
    int part = (int)sx_param("PART", 0), n = (int)sx_param("N", 3); bool fold = sx_param("FOLD", 0);
    if (part == 4) {                              // more values than any narrow counter holds
        W w; int64_t a = sx_i64("a"), z = int64_t(sx_range(0, 3, "z")); w.o->addField("z", int64_t(0)); w.env.constants.emplace("a", Value::make(a)); const int64_t M = 299;
        auto l = w.m->newArray(1); for (int i = 0; i <= M; i++) l->append(z + i); w.o->addField("l", l);
        sx_assert(w.run("sum(range(z, 299)..., $sum + $idx)").isInt(M * (M + 1) / 2), "$idx counts all values of a long list");
        sx_assert(w.run("sum(range(z, 299)..., $sum + ($idx == $val and 1 or 0))").isInt(M + 1), "$idx belongs to $val in a long list");
        sx_assert(w.run("sum(range(z, 299)..., $sum + $val, a)").isInt((int64_t)((uint64_t)a + M * (M + 1) / 2)) && w.run("sum(range(z, 299)...)").isInt(M * (M + 1) / 2), "all values of a long list");
        sx_assert(w.run("sum(l.*)").isInt(M * (M + 1) / 2 + z * (M + 1)), "all elements of a long array");
        sx_observe((uint64_t)a); sx_reach("long"); return;
    }
    W w; static const char* nm[] = {"a", "b", "c", "d"}; V v[4]; std::string args;
    for (int i = 0; i < n; i++) {
        v[i] = part == 2 ? symv(KStr, nm[i], 2) : part == 3 ? symv(KDouble, nm[i]) : fold ? smallv(true, KInt, nm[i]) : V{KInt, sx_i64(nm[i])};
        if (!fold) put(w, nm[i], v[i]); else { v[i].k = part == 2 ? KStr : part == 3 ? KDouble : KInt; w.env.constants.emplace(nm[i], val(v[i])); }
        args += (i ? ", " : "") + std::string(nm[i]);
    }
    std::string l = "arr(" + args + ")";
    if (part == 0) {
        uint64_t s = 0; for (int i = 0; i < n; i++) s += (uint64_t)v[i].i;
        R r = w.run("sum(" + l + ")"); obs(r); sx_assert(r.isInt((int64_t)s), "sum adds all values");
        sx_assert(w.run("sum(" + l + ", $sum + $val)").isInt((int64_t)s), "the default expression is $sum + $val");
        sx_assert(w.run("sum(" + l + ", $sum + $val, a)").isInt((int64_t)(s + (uint64_t)v[0].i)), "the sum starts at init");
        sx_assert(w.run("sum(" + l + ", $sum - $val, 0)").isInt((int64_t)(0 - s)), "the expression replaces the sum");
        sx_assert(w.run("sum(" + l + ", $sum ^ $val)").isInt([&] { int64_t x = 0; for (int i = 0; i < n; i++) x ^= v[i].i; return x; }()), "in order");
        sx_assert(w.run("sum(" + l + ", $val)").isInt(v[n - 1].i), "the last value of the expression is the result");
        sx_assert(w.run("sum(" + l + ", $sum + $idx)").isInt(n * (n - 1) / 2), "$idx counts from zero");
        sx_assert(w.run("sum(" + l + ", $sum + 1)").isInt(n), "the expression is applied once per value");
        sx_assert(w.run("sum(" + l + ", arr($sum + 1, $sum * 2))").isInt((int64_t(1) << (n + 1)) - 2), "an expression with several values updates the sum with each");
        sx_reach("integers");
    } else if (part == 1) {                       // order and index: positional digits
        uint64_t s = 0; for (int i = 0; i < n; i++) s = s * 3 + (uint64_t)v[i].i;
        R r = w.run("sum(" + l + ", $sum * 3 + $val)"); obs(r); sx_assert(r.isInt((int64_t)s), "values are taken from left to right");
        uint64_t t = 0; for (int i = 0; i < n; i++) t += (uint64_t)v[i].i * (uint64_t)i;
        sx_assert(w.run("sum(" + l + ", $sum + $val * $idx)").isInt((int64_t)t), "$idx belongs to $val");
        if (!fold) {
            auto arr = w.m->newArray(4); for (int i = 0; i < n; i++) { auto o = w.m->newObject(2); o->addField("k", v[i].i); o->addField("i", int64_t(i)); arr->append(o); } w.o->addField("list", arr);
            sx_assert(w.run("sum(list.*, $sum * 3 + k)").isInt((int64_t)s), "fields of the value are accessible");
            sx_assert(w.run("sum(list.*.k)").isInt([&] { uint64_t x = 0; for (int i = 0; i < n; i++) x += (uint64_t)v[i].i; return (int64_t)x; }()), "sum of a path");
            sx_assert(w.run("sum(list.*, $sum + (i == $idx and $val.k == k and 1 or 0), 0)").isInt(n), "$val and $idx belong to the current element");
        }
        sx_reach("order");
    } else if (part == 2) {
        std::string j, c; for (int i = 0; i < n; i++) { c += v[i].s; j += (i ? ", " : "") + v[i].s; }
        R r = w.run("sum(" + l + ", $sum + $val, '')"); obs(r); sx_assert(r.isStr(c), "strings are concatenated");
        sx_assert(w.run("sum(" + l + ", #$sum > 0 and $sum + ', ' + $val or $val, '')").isStr(j), "the documented join");
        sx_assert(w.run("sum(" + l + ", $sum + $val, null)").isStr("null" + c), "null is spelled when added to a string");
        sx_assert(w.run("sum(" + l + ", $sum + #$val)").isInt(2 * n), "lengths");
        sx_reach("strings");
    } else {
        double d = 0; R r = w.run("sum(" + l + ")");
        // the oracle is the engine's own addition, chained
        R c = w.run(n == 1 ? "0 + a" : n == 2 ? "0 + a + b" : "0 + a + b + c"); obs(r);
        sx_assert(r.is(VT::Float) && c.is(VT::Float) && sameD(r.d(), c.d()), "floats add from left to right"); (void)d;
        sx_reach("floats");
    }
}
