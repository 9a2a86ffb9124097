// trace: gives exactly what its expression gives, counts calls and stores at most limit values.
#include "q.h"
void sx_main() {
    int n = (int)sx_param("N", 3), part = (int)sx_param("PART", 0); W w; static const char* nm[] = {"a", "b", "c", "d"}; V v[4]; std::string args;
    for (int i = 0; i < n; i++) { int k = (int)sx_choose(0, 3, "kind"); v[i] = symv(k, nm[i]); put(w, nm[i], v[i]); args += (i ? ", " : "") + std::string(nm[i]); }
    std::string l = "arr(" + args + ")"; int lim = (int)sx_choose(0, 5, "limit") - 1; w.o->addField("limit", int64_t(lim)); w.o->addField("name", std::string_view("tr"));
    R plain = w.run(l); std::string q = "trace(" + l + ", limit, name)"; if (part == 1) q = "any(trace(" + l + " == a, limit, name))";
    R r = part == 1 ? w.run("any(" + l + " == a)") : w.run(q);
    ExprPtr e = w.comp(q); if (part == 0) w.env.traces.clear();
    R x = w.ev(*e), y = w.ev(*e);
    obs(x);
    sx_assert(!x.err && !r.err && x.v.size() == r.v.size() && y.v.size() == r.v.size(), "trace gives the values of its expression");
    for (size_t i = 0; i < r.v.size(); i++) {
        const Value &p = part == 1 ? r.v[i] : plain.v[i], &t = x.v[i]; sx_assert(p.type == t.type, "of the same type");
        if (p.isa(VT::Int)) sx_assert(p.as<VT::Int>() == t.as<VT::Int>(), "unchanged"); if (p.isa(VT::Bool)) sx_assert(p.as<VT::Bool>() == t.as<VT::Bool>(), "unchanged");
        if (p.isa(VT::String)) sx_assert(p.as<VT::String>() == t.as<VT::String>(), "unchanged"); if (p.isa(VT::Float)) sx_assert(sameD(p.as<VT::Float>(), t.as<VT::Float>()), "unchanged");
    }
    auto it = w.env.traces.find("tr"); sx_assert(it != w.env.traces.end() && w.env.traces.size() == 1, "the trace is recorded under its name");
    sx_assert(it->second.calls == 2, "each call is counted");
    if (part == 0) {
        size_t total = 2 * (size_t)n, keep = lim < 0 ? total : total < (size_t)lim ? total : (size_t)lim;
        sx_assert(it->second.values.size() == keep, "at most limit values are stored");
        for (size_t i = 0; i < keep; i++) sx_assert(it->second.values[i].type == plain.v[i % n].type, "in order");
        sx_reach(lim < 0 ? "unlimited" : "limited");
    } else {                                   // any stops at the first true comparison: nothing after it is traced
        R each = w.run(l + " == a"); size_t used = 0; sx_assert(!each.err && each.v.size() == (size_t)n, "a comparison for each value"); while (used < (size_t)n && !(each.v[used].isa(VT::Bool) && each.v[used].as<VT::Bool>())) used++;
        size_t total = 2 * (used < (size_t)n ? used + 1 : (size_t)n), keep = lim < 0 ? total : total < (size_t)lim ? total : (size_t)lim;
        sx_assert(it->second.values.size() == keep, "the values up to the deciding one are stored"); sx_reach("stopped");
    }
    std::string d = "trace(" + l + ")"; (void)w.run(d); sx_assert(w.env.traces.size() == 2, "the default name is the expression");
}
