// Evaluation is a function of the query and the model: repeating it, evaluating on other models in between and compiling again change nothing.
#include "q.h"
static const char* T[] = {
    "a + b", "*", "**", "**.a", "o.a", "o.*{a == b}", "*{_ == b}", "any(**.a == b)", "count(**)", "sum(*.a, $sum + $val, 1)", "l[1]", "l.*", "l...", "select(l.*, 1, 2)", "arr(a, b, l.*)", "split(s, 'x')", "s + a", "keys(o)", "keys(_)",
    "range(a, b)...", "range(0, a) == b", "trace(a + b)", "all(l.* > a)", "a and b or s", "not o.x", "typeof o", "typeof _", "o['a']", "[s]", "o{a > 1}.a", "newname", "o.newname.x", "A == s", "#l", "(a as string) + b", "sum(l.*, $sum * $val, a)", "sum(l.*) + sum(l.*, $idx)", "each(*)", "_", "_.a",
};
static const int NT = sizeof T / sizeof *T;
static bool eq(const Value& p, const Value& q) {
    if (p.type != q.type) return false;
    if (p.isa(VT::Int)) return p.as<VT::Int>() == q.as<VT::Int>(); if (p.isa(VT::Bool)) return p.as<VT::Bool>() == q.as<VT::Bool>();
    if (p.isa(VT::Float)) return sameD(p.as<VT::Float>(), q.as<VT::Float>()); if (p.isa(VT::String)) return p.as<VT::String>() == q.as<VT::String>();
    if (p.isa(VT::Object) || p.isa(VT::Array)) return p.node && q.node && p.node->addr().value_ == q.node->addr().value_;
    return true;
}
static bool eq(const R& a, const R& b) { if (a.err != b.err || a.v.size() != b.v.size()) return false; for (size_t i = 0; i < a.v.size(); i++) if (!eq(a.v[i], b.v[i])) return false; return true; }
static void fill(W& w, int64_t x, int64_t y, const std::string& s, bool more) {
    w.o->addField("a", x); w.o->addField("b", y); w.o->addField("s", std::string_view(s));
    auto o = w.m->newObject(2); o->addField("a", y); o->addBool("x", more); w.o->addField("o", o);
    auto l = w.m->newArray(2); l->append(y); l->append(x); if (more) l->append(std::string_view("z")); w.o->addField("l", l);
}
void sx_main() {
    int t = (int)sx_choose(0, NT - 1, "template"); bool conc = sx_param("CONC", 0);
    int64_t n[4]; static const char* nm[] = {"a1", "b1", "a2", "b2"}; for (int i = 0; i < 4; i++) n[i] = conc ? (int64_t)sx_choose(0, 2, nm[i]) : (int64_t)sx_range(0, 3, nm[i]) + (i < 2 ? sx_param("BIG", 0) : 0);
    std::string s1 = sx_string(2, "s1"); W w; fill(w, n[0], n[1], s1, false);
    auto second = std::make_shared<ModelPool>(w.m->strings()); W v; v.m = second; v.o = second->newObject(4); fill(v, n[2], n[3], "yxz", true);
    ExprPtr e = w.comp(T[t]); std::string ast = e->toString();
    R r1 = w.ev(*e), r2 = w.ev(*e); sx_assert(eq(r1, r2), "evaluating again gives the same");
    R o1 = w.ev(*e, *v.o), r3 = w.ev(*e); sx_assert(eq(r1, r3), "evaluating on another model in between changes nothing");
    ExprPtr f = w.comp(T[t]); sx_assert(f->toString() == ast && e->toString() == ast, "compiling again gives the same expression");
    R o2 = w.ev(*f, *v.o), r4 = w.ev(*f); sx_assert(eq(o1, o2) && eq(r1, r4), "a compiled query keeps nothing of the models it was evaluated on");
    ExprPtr g = v.comp(T[t]);           // compiled against another, empty pool of names
    (void)g;
    W z; for (auto s : {"zzz", "l", "s", "x", "o", "b", "a"}) z.m->strings()->emplace(s);   // another environment, where names have other ids
    fill(z, n[0], n[1], s1, false); R rz = z.ev(*z.comp(T[t])), rz2 = z.ev(*z.comp(T[t])), r5 = w.ev(*w.comp(T[t])); sx_assert(eq(rz, r1) && eq(rz2, r1), "the same in another environment"); sx_assert(eq(r5, r1), "evaluating in another environment in between changes nothing"); sx_reach("environments");
    sx_assert(w.o->size() == 5 && v.o->size() == 5, "models are not changed");
    obs(r1); obs(o1); sx_reach(r1.err ? "error" : "values");
}
