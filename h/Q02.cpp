// Constant folding never changes the result: every subset of the operands known at compile time gives what the evaluation on data gives.
#include "q.h"
static const char* T[] = {
    "x + y * z", "arr(x, y, z)", "arr(x, y) + arr(y, z)", "sum(arr(x, y, z))", "sum(arr(x, y), $sum + $val * 2, z)", "sum(arr(x, y, z), $sum * 2 + $idx)", "count(arr(x, y) == arr(y, z))", "any(x == y, y == z)", "all(x < y, y < z)", "each(arr(x, y, z) > 3)",
    "range(x, y) == z", "range(x, y)...", "count(range(x, y)...)", "sum(range(x, y)..., $sum + $val, z)", "select(arr(x, y, z), 1)", "select(arr(1, 2, 3, 4), x, y)", "arr(select(arr(x, y, z), 0, 1), x)", "arr(x, y, z){_ > 4}", "arr(x, y, z){_ == 1 or _ > 5}", "arr(x, y){any(_ == arr(1, 2))}",
    "x and y", "x or y and z", "not (x and y)", "(x == y) or z", "(x == y) and z", "x == y?", "-x + -y", "~x & y", "x << y", "x as float / 2.0", "(x as string) + y", "#(x as string + y + z)", "typeof (x as string)", "(x as string)[0]", "split(x + \",\" + y, \",\")", "split(\"a,,\" + z, \",\", x == y)",
    "arr(x, f)._", "count(arr(x, f)._)", "count(f.x, y)", "arr(f.x, y)", "arr(y, *)", "any(arr(y, f.x) == z)", "sum(arr(x, f.x, y))", "arr(x, y){_ == 3 or h}", "sum(arr(f.x, y), $sum + $val, x)", "arr(g, x)", "count(arr(x, g, y))", "any(g, x == y)", "each(x == x, g)", "arr(arr(x, f.x), arr(g, z))", "keys(f)", "arr(keys(f), x)", "x == f.x", "trace(x + y)", "arr(trace(x), y)", "count(trace(arr(x, y, f)))", "x == null", "g == x", "(g or x) + y", "(g and x) == g",
    "f{h and not k}.x + z", "f[\"x\"] + y", "arr(\"x\", \"y\")[0]", "f[arr(\"x\", \"q\")]", "x != range(y, z)", "typeof range(x, y)", "range(x, y) as string", "arr(range(x, y)) == z", "any(range(x, y)... == z)", "re(\"a\") == g"
};
static const int NT = sizeof T / sizeof *T - 1;      // the last needs std::regex
// Lists of about as many values as are kept as constants at most: the number of values is the same, known at compile time or not.
static void large() {
    static const char* L[] = {"count(range(1, y)...)", "any(range(1, y)... == y)", "range(1, y)...", "sum(arr(range(1, y)..., 0), $sum + 1, 0)", "count(arr(range(1, y)..., 7, f))"};
    int t = (int)sx_choose(0, (int)(sizeof L / sizeof *L) - 1, "template"), y = (int)sx_choose(9999, 10001, "y"); W a, b; int add = sx_choose(0, 1, "other operand");
    for (W* w : {&a, &b}) { w->o->addField("y", int64_t(y)); w->o->addField("f", int64_t(3)); w->o->addField("z", int64_t(add)); }
    b.env.constants.emplace("y", Value::make(int64_t(y)));
    R ra = a.run(L[t]), rb = b.run(L[t]); sx_assert(!ra.err && !rb.err, "evaluated"); sx_assert(ra.v.size() == rb.v.size() && ra.v.size() >= 1, "the number of values"); sx_observe((int64_t)rb.v.size());
    for (size_t i = 0; i < ra.v.size(); i += i + 10 < ra.v.size() ? 7 : 1) sx_assert(ra.v[i].type == rb.v[i].type && (!ra.v[i].isa(VT::Int) || ra.v[i].as<VT::Int>() == rb.v[i].as<VT::Int>()) && (!ra.v[i].isa(VT::Bool) || ra.v[i].as<VT::Bool>() == rb.v[i].as<VT::Bool>()), "the values");
    const Value& l = ra.v.back(); int64_t want[] = {y, 1, y, y + 1, y + 2};
    sx_assert(t == 1 ? l.isa(VT::Bool) && l.as<VT::Bool>() : l.isa(VT::Int) && l.as<VT::Int>() == want[t], "the value"); sx_reach("many");
}
void sx_main() {
    if (sx_param("LARGE", 0)) { large(); return; }
    int from = (int)sx_param("FROM", 0), to = (int)sx_param("TO", NT - 1); if (to > NT - 1) to = NT - 1;
    int t = (int)sx_choose((uint64_t)from, (uint64_t)to, "template (counted from FROM)"), mask = (int)sx_choose(1, 7, "constants");
    V v[3]; static const char* nm[] = {"x", "y", "z"}; W a, b;
    int kinds = (int)sx_param("KINDS", 0); bool conc = sx_param("CONC", 0);
    int odd = !kinds ? 0 : sx_param("ALL", 0) ? 3 : (int)sx_choose(0, 2, "operand of another kind");
    for (int i = 0; i < 3; i++) {
        v[i].k = kinds ? (i == odd || odd == 3 ? (int)sx_choose(0, kinds - 1, "kind") : KInt) : KInt;
        if (v[i].k == KStr) v[i].s = "ab"; else if (v[i].k == KBool) v[i].b = sx_bool(nm[i]); else if (v[i].k == KDouble) v[i].d = 1.5;
        else v[i].i = conc ? i + 1 : (int64_t)sx_range(0, 9, nm[i]);
        put(a, nm[i], v[i]); put(b, nm[i], v[i]); if (mask >> i & 1) b.env.constants.emplace(nm[i], val(v[i]));
    }
    for (W* w : {&a, &b}) { auto f = w->m->newObject(2); f->addField("x", int64_t(5)); f->addField("h", std::string_view("abc")); w->o->addField("f", f); }
    R ra = a.run(T[t]), rb = b.run(T[t]);
    obs(rb);
    sx_assert(ra.err != 2 && rb.err != 2, "errors are runtime errors");
    if (!kinds) sx_assert(!ra.err && !rb.err, "the query is defined for these operands");
    sx_assert(!ra.err == !rb.err, "folding keeps errors");
    if (ra.err) { sx_reach("error"); return; }
    sx_assert(ra.v.size() == rb.v.size(), "folding keeps the number of values");
    for (size_t i = 0; i < ra.v.size(); i++) {
        const Value &p = ra.v[i], &q = rb.v[i];
        sx_assert(p.type == q.type, "folding keeps types");
        if (p.isa(VT::Int)) sx_assert(p.as<VT::Int>() == q.as<VT::Int>(), "folding keeps integers");
        else if (p.isa(VT::Float)) sx_assert(sameD(p.as<VT::Float>(), q.as<VT::Float>()), "folding keeps floats");
        else if (p.isa(VT::Bool)) sx_assert(p.as<VT::Bool>() == q.as<VT::Bool>(), "folding keeps booleans");
        else if (p.isa(VT::String)) sx_assert(p.as<VT::String>() == q.as<VT::String>(), "folding keeps strings");
        else if (p.isa(VT::TransientObject)) sx_assert(p.toString() == q.toString(), "folding keeps objects");
    }
    sx_reach("compared");
    R rc = b.run(T[t]); sx_assert(!rc.err && rc.v.size() == rb.v.size(), "compiling again gives the same");
}
