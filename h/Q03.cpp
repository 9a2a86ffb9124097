// any, each/all and count over every list of truth values, as arguments, as lists and mixed; early exit.
#include "q.h"
// whatever gives the values: the first value that decides is the last one to be produced
static void stops() {
    static const char* X[] = {"l.*", "l.**", "arr(a, b, c)", "*", "**", "o.*", "l.*{true}", "l[arr(i, 1, 2)]", "o[keys(o)]", "(l.*)?", "not l.*", "l.* == l.*", "l.* and l.*", "l.* or l.*", "l.* as bool", "arr(l.*, o.*)",
        "select(l.*, i, 3)", "trace(l.*, -1, 'u')", "range(i, 3)... == arr(1, 2)", "arr(re('x') == split('x,y,x', ','), a)", "_.{l}.l.*", "o.a or l.*", "l.*{arr(_, true)}", "keys(o) == 'b'", "(split(n, ',')...) == 'y'", "typeof l.* == typeof arr(a, i)"};
    W w; bool t[3]; static const char* nm[] = {"a", "b", "c"}; auto l = w.m->newArray(3); auto o = w.m->newObject(3);
    for (int i = 0; i < 3; i++) { t[i] = sx_bool(nm[i]); if (t[i]) {} w.o->addBool(nm[i], t[i]); l->append(t[i]); o->addBool(nm[i], t[i]); }
    w.o->addField("l", l); w.o->addField("o", o); w.o->addField("i", int64_t(0)); w.o->addField("n", std::string_view("x,y,z"));
    for (const char* x : X) {
        R all = w.run(x); sx_assert(!all.err && all.v.size() >= 1, "the expression has values");
        size_t ft = all.v.size(), ff = all.v.size();
        for (size_t i = all.v.size(); i-- > 0;) { const Value& v = all.v[i]; bool tv = v.isa(VT::Null) ? false : v.isa(VT::Bool) ? v.as<VT::Bool>() : true; (tv ? ft : ff) = i; }
        w.env.traces.clear(); std::string e = "trace(" + std::string(x) + ", -1, 't')";
        sx_assert(w.run("any(" + e + ")").isBool(ft < all.v.size()), "any of the values"); sx_assert(w.env.traces["t"].values.size() == std::min(ft + 1, all.v.size()), "any evaluates nothing after the first true value");
        w.env.traces.clear();
        sx_assert(w.run("all(" + e + ")").isBool(ff == all.v.size()), "all of the values"); sx_assert(w.env.traces["t"].values.size() == std::min(ff + 1, all.v.size()), "all evaluates nothing after the first false value");
        w.env.traces.clear();
        sx_assert(w.run("count(" + e + ")").is(VT::Int) && w.env.traces["t"].values.size() == all.v.size(), "count evaluates every value");
        sx_observe(all.v.size());
    }
    sx_reach("any"); sx_reach("all"); sx_reach("none");
}
// more values than any narrow counter holds; the deciding one far behind
static void large() {
    W w; const int N = (int)sx_param("M", 33000), M = 700; sx_assert(w.run("count(range(1, " + std::to_string(N) + ")...)").isInt(N), "count of many values");
    static const int P[] = {1, 129, 257, 513, 699}; int at = P[sx_choose(0, 4, "position")]; bool b = sx_bool("b"); w.o->addBool("b", b); w.o->addField("p", int64_t(at)); std::string rg = "range(1, " + std::to_string(M) + ")";
    auto l = w.m->newArray(1); for (int i = 1; i <= 300; i++) l->append(i == at ? b : false); w.o->addField("l", l);
    sx_assert(w.run("count(" + rg + "... == p and b)").isInt(b ? 1 : 0), "count of one among many");
    sx_assert(w.run("any(" + rg + "... == p and b)").isBool(b), "any of many values"); sx_assert(w.run("all(" + rg + "... != p or b)").isBool(b), "all of many values"); sx_assert(w.run("any(l.*)").isBool(at <= 300 && b) && w.run("count(l.*)").isInt(at <= 300 && b), "over the elements of a long array");
    sx_reach("any"); sx_reach("all"); sx_reach("none"); sx_observe(b);
}
void sx_main() {
    if (sx_param("PART", 0) == 3) { large(); return; }
    if (sx_param("PART", 0) == 2) { stops(); return; }
    int n = (int)sx_param("N", 3), part = (int)sx_param("PART", 0);
    W w; V v[6]; static const char* nm[] = {"a", "b", "c", "d", "e", "f"}; bool t[6]; int64_t c = 0; bool any = false, all = true;
    auto l = w.m->newArray(8);
    for (int i = 0; i < n; i++) {
        int k = (int)sx_choose(0, 3, "kind"); v[i].k = k == 0 ? KNull : k == 1 ? KBool : k == 2 ? KInt : KStr;
        if (k == 1) v[i].b = sx_bool(nm[i]); if (k == 2) v[i].i = (int64_t)sx_range(0, 255, nm[i]); if (k == 3) v[i].s = sx_string(1, nm[i]);
        put(w, nm[i], v[i]);
        t[i] = k == 0 ? false : k == 1 ? v[i].b : true; c += t[i]; any |= t[i]; all &= t[i];
        if (k == 1) l->append(v[i].b); else if (k == 2) l->append(v[i].i); else if (k == 3) l->append(std::string_view(v[i].s));
    }
    w.o->addField("l", l);
    std::string args, arr = "arr("; for (int i = 0; i < n; i++) args += (i ? ", " : "") + std::string(nm[i]);
    std::string split = n > 1 ? std::string(nm[0]) + ", arr(" + args.substr(3) + ")" : "arr(" + args + ")";
    for (const std::string& a : {args, "arr(" + args + ")", split}) {
        sx_assert(w.run("any(" + a + ")").isBool(any), "any is true if one value is"); sx_assert(w.run("each(" + a + ")").isBool(all), "each is true if all values are");
        sx_assert(w.run("all(" + a + ")").isBool(all), "all is each"); sx_assert(w.run("count(" + a + ")").isInt(c), "count counts the true values");
    }
    if (any) sx_reach("any"); if (all) sx_reach("all"); if (c == 0) sx_reach("none");
    int64_t lc = 0; bool lall = true; size_t ln = 0; for (int i = 0; i < n; i++) if (v[i].k != KNull) { lc += t[i]; lall &= t[i]; ln++; }
    if (ln) { sx_assert(w.run("any(l.*)").isBool(lc > 0) && w.run("all(l.*)").isBool(lall) && w.run("count(l.*)").isInt(lc), "over the elements of an array"); }
    else { sx_assert(w.run("any(l.*)").isBool(false) && w.run("all(l.*)").isBool(false) && w.run("count(l.*)").isInt(0), "an empty list counts as one null"); }
    if (part == 1) {                                  // nothing after the deciding value is evaluated: 1 / zero would fail
        w.o->addField("zero", int64_t(0));
        R x = w.run("any(" + args + ", 1 / zero)"), y = w.run("each(" + args + ", 1 / zero)"), x2 = w.run("any(arr(" + args + ", 1 / zero))"), y2 = w.run("each(arr(" + args + ", 1 / zero))");
        if (any) { sx_assert(x.isBool(true) && x2.isBool(true), "any stops at the first true value"); } else { sx_assert(x.err == 1 && x2.err == 1, "errors are reported"); }
        if (!all) { sx_assert(y.isBool(false) && y2.isBool(false), "each stops at the first false value"); } else { sx_assert(y.err == 1 && y2.err == 1, "errors are reported"); }
        R p = w.run("a or 1 / zero"), q = w.run("a and 1 / zero");
        sx_assert(t[0] ? !p.err && q.err == 1 : p.err == 1 && !q.err, "and/or evaluate their right side only if needed");
    }
}
