// The modes of compile: any wraps the query in any(...), autoWildcard expands a constant c to ** == c; both combined search the model.
#include "q.h"
static const char* T[] = {"x", "a", "a + x", "x + y", "arr(a, x)", "*", "**.a", "a == x", "x == y", "null", "true", "false", "'ab'", "1", "1 == 1", "1 > 2", "range(0, 3)", "not a", "o{a == x}", "arr(1, x)", "count(*)", "o", "nothing"};
static const int NT = sizeof T / sizeof *T;
static bool eqv(const Value& p, const Value& q) { if (p.type != q.type) return false; if (p.isa(VT::Int)) return p.as<VT::Int>() == q.as<VT::Int>(); if (p.isa(VT::Bool)) return p.as<VT::Bool>() == q.as<VT::Bool>(); if (p.isa(VT::String)) return p.as<VT::String>() == q.as<VT::String>(); if (p.isa(VT::Object)) return p.node->addr().value_ == q.node->addr().value_; return true; }
static bool eqr(const R& a, const R& b) { if (a.err || b.err || a.v.size() != b.v.size()) return false; bool ok = true; for (size_t i = 0; i < a.v.size(); i++) ok = ok && eqv(a.v[i], b.v[i]); return ok; }
void sx_main() {
    int t = (int)sx_choose(0, NT - 1, "template"); W w; std::string q = T[t];
    int64_t x = (int64_t)sx_range(0, 3, "x"), y = (int64_t)sx_range(0, 3, "y"), a = (int64_t)sx_range(0, 3, "a"), b = (int64_t)sx_range(0, 3, "b");
    w.env.constants.emplace("x", Value::make(x)); w.env.constants.emplace("y", Value::make(y));
    w.o->addField("a", a); auto o = w.m->newObject(2); o->addField("a", b); o->addField("s", std::string_view("ab")); w.o->addField("o", o);
    bool constant = w.comp(q)->constant();
    R plain = w.run(q), any = w.run(q, true, false), wild = w.run(q, false, true), both = w.run(q, true, true);
    sx_assert(eqr(any, w.run("any(" + q + ")")), "the any mode is any(...)");
    sx_assert(any.is(VT::Bool) && both.is(VT::Bool), "the any mode gives one boolean");
    R w1 = w.run("** == (" + q + ")"), w2 = w.run("any(** == (" + q + "))");
    obs(wild); obs(any); obs(both);
    if (constant) { sx_reach("constant"); sx_assert(eqr(wild, w1) && eqr(both, w2), "a constant is compared with all values of the model"); }
    else { sx_reach("expression"); sx_assert(eqr(wild, plain) && eqr(both, any), "any other query is unaffected"); }
    if (t == 0) { sx_assert(constant, "a constant is one"); sx_assert(both.isBool((a == x) | (b == x)), "a constant matches a model that contains it"); }
    if (t == 12) sx_assert(both.isBool(true), "strings are found");
}
