// The debug interface sees every evaluation begin and end, properly nested, and does not change the result.
#include "q.h"
static const char* queries[] = {
    "aa", "bb.cc", "aa + dd", "dd[0]", "dd.*", "**", "*.cc", "_", "bb.*", "aa == 1 and bb.cc > 2", "any(dd.* == 1)", "all(dd.* == 1)", "count(dd.*)", "sum(dd.*)", "sum(dd.*, $sum + $val, 1)",
    "split(ss, \",\")", "select(dd.*, 0, 1)", "keys(bb)", "arr(1, 2)...", "range(1, 2)...", "1..2 == aa", "trace(aa, 1, \"x\")", "trace(aa, 1)", "unknown", "ss as string", "typeof aa", "bb{cc > 1}", "_.aa", "**.cc",
    "#ss + 1", "dd... + 1", "each(dd.*)", "(1 + 2) * aa", "\"a\" + \"b\" + ss", "aa ?  1", "dd[aa]", "bb[\"cc\"]", "aa or 1", "not aa", "-aa", "~aa", "aa << 1", "aa as float", "bb as bool", "(aa == 1) as string", "#dd", "keys(**)", "dd[arr(0, 1)]", "**{_ == 7}", "dd.*{_ > 5}", "ss == re\"[a-c]\"", "typeof re(ss)", "re(ss) == ss", "arr(1, aa) == arr(7, dd.*)", "r\"a\" + ss", "aa / 0", "1 / 0", "nofn(1)", "select(dd.*, 0)", "null" };
static const int NQ = sizeof queries / sizeof *queries;
static bool same(const Value& a, const Value& b) { if (a.type != b.type) return false; return a.isa(VT::Int) ? a.as<VT::Int>() == b.as<VT::Int>() : a.isa(VT::Float) ? sameD(a.as<VT::Float>(), b.as<VT::Float>()) : a.isa(VT::Bool) ? a.as<VT::Bool>() == b.as<VT::Bool>() : a.isa(VT::String) ? a.as<VT::String>() == b.as<VT::String>() : (bool)a.node == (bool)b.node && (!a.node || a.node->addr().value_ == b.node->addr().value_); }
void sx_main() {
    W w; int q = (int)sx_choose(sx_param("FROM", 0), std::min<int64_t>(NQ, sx_param("TO", NQ)) - 1, "query"); bool wild = sx_choose(0, 1, "wildcard"), any = sx_choose(0, 1, "any");
    int64_t i = sx_i64("aa"), j = sx_i64("dd"); sx_assume(i > 70000); sx_assume(j > 70000); std::string s = sx_string(1, "ss");
    w.o->addField("aa", i); { auto b = w.m->newObject(1); b->addField("cc", j); b->addField("ff", 0.5); w.o->addField("bb", b); } { auto d = w.m->newArray(2); d->append(j); d->append(uint16_t(7)); w.o->addField("dd", d); } w.o->addField("ss", std::string_view(s)); w.m->addRoot(w.o);
    ExprPtr ref; int refErr = 0; try { ref = w.comp(queries[q], any, wild); } catch (std::runtime_error&) { refErr = 1; } R r; if (ref) r = w.ev(*ref);
    std::vector<const Expr*> open; size_t begun = 0, total = 0; bool nested = true; const Expr* first = nullptr; ValueType seen = VT::Undef; bool phases = true; Context::Phase phase = Context::Compilation;
    Debug d; d.evalBegin = [&](const Expr& e, Context& c, Value& v, const ResultFn&) { if (open.empty() && phase == Context::Evaluation) { first = &e; seen = v.type; begun++; } phases &= c.env == &w.env && c.phase == phase; open.push_back(&e); total++; };
    d.evalEnd = [&](const Expr& e) { nested &= !open.empty() && open.back() == &e; if (!open.empty()) open.pop_back(); };
    w.env.debug = &d; ExprPtr e; int err = 0; try { e = w.comp(queries[q], any, wild); } catch (std::runtime_error&) { err = 1; }
    sx_assert(err == refErr, "compiling is not affected"); if (!e) return; sx_assert(open.empty() && nested, "evaluations while compiling are nested"); phase = Context::Evaluation;
    R t = w.ev(*e); sx_reach("debug"); obs(R{t.err, "", {}}); sx_observe(t.v.size());
    sx_assert(t.err == r.err && t.v.size() == r.v.size(), "the result is not affected"); for (size_t k = 0; k < t.v.size(); k++) sx_assert(same(t.v[k], r.v[k]), "the result is not affected");
    sx_assert(begun == 1 && first == e.get() && seen == VT::Object, "the evaluation begins with the query on the root"); sx_assert(phases, "the context is the evaluation's"); if (!t.err) sx_assert(open.empty() && nested, "every evaluation that begins ends, innermost first");
    w.env.debug = nullptr; size_t before = total; (void)w.ev(*e); sx_assert(total == before, "no more calls without debug interface");
}
