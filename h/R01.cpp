// One compiled query is evaluated by two threads at the same time: no data race, and both get what a single thread gets.
#include "q.h"
static const char* queries[] = {
    "aa", "bb.cc", "aa + dd", "dd[0]", "dd.*", "**", "*.cc", "_", "bb.*", "aa == 1 and bb.cc > 2", "any(dd.* == 1)", "all(dd.* == 1)", "count(dd.*)", "sum(dd.*)", "sum(dd.*, $sum + $val, 1)",
    "split(ss, \",\")", "select(dd.*, 0, 1)", "keys(bb)", "arr(1, 2)...", "range(1, 2)...", "1..2 == aa", "trace(aa, 1, \"x\")", "trace(aa, 1)", "unknown", "ss as int", "typeof aa", "bb{cc > 1}", "_.aa", "**.cc",
    "#ss + ss", "dd... + 1", "aa / 0", "each(dd.*)", "(1 + 2) * aa", "\"a\" + \"b\" + ss", "aa ?  1", "dd[aa]", "bb[\"cc\"]", "nofn(1)",
    "re(gg) == \"abc\"", "\"abc\" == re(gg)", "re\"[a-c]+\" == gg", "typeof re(gg)", "re(gg) as string", "split(gg, ss)", "arr(dd[1], bb.ff) as string", "(1..dd[1]) as string", "range(dd[1], 9)...", "range(1, 9) == dd.*", "not aa", "-aa", "~aa", "aa << 1", "aa as float", "bb as bool", "(aa == 1) as string", "#dd", "keys(**)", "dd[arr(0, 1)]", "split(gg, \"b\")[0]", "any(re(gg) == arr(gg, \"abc\"))", "dd{_ > 5}", "**{_ == 7}", "arr(1, aa) == arr(7, dd.*)", "gg[1]", "0x10 + aa", "r\"a\" + ss" };
static const int NQ = sizeof queries / sizeof *queries;
static W* w; static const Expr* e; static R* out;
static bool same(const Value& a, const Value& b) { if (a.type != b.type) return false; return a.isa(VT::Int) ? a.as<VT::Int>() == b.as<VT::Int>() : a.isa(VT::Float) ? sameD(a.as<VT::Float>(), b.as<VT::Float>()) : a.isa(VT::Bool) ? a.as<VT::Bool>() == b.as<VT::Bool>() : a.isa(VT::String) ? a.as<VT::String>() == b.as<VT::String>() : (bool)a.node == (bool)b.node && (!a.node || a.node->addr().value_ == b.node->addr().value_); }
static bool same(const R& a, const R& b) { if (a.err != b.err || a.v.size() != b.v.size()) return false; for (size_t i = 0; i < a.v.size(); i++) if (!same(a.v[i], b.v[i])) return false; return true; }
static void body(int t) { R r = w->ev(*e, *w->m->root(0)); std::swap(r.err, out[t].err); std::swap(r.v, out[t].v); }
void sx_main() {
    w = new W; int q = (int)sx_choose(sx_param("FROM", 0), std::min<int64_t>(NQ, sx_param("TO", NQ)) - 1, "query"); bool wild = sx_choose(0, 1, "wildcard"), any = sx_choose(0, 1, "any");
    int64_t i = sx_i64("aa"), j = sx_i64("dd"); sx_assume(i > 70000); sx_assume(j > 70000); std::string s = sx_string(1, "ss");
    w->o->addField("aa", i); { auto b = w->m->newObject(1); b->addField("cc", j); b->addField("ff", 0.5); w->o->addField("bb", b); } { auto d = w->m->newArray(2); d->append(j); d->append(uint16_t(7)); w->o->addField("dd", d); } w->o->addField("ss", std::string_view(s)); w->o->addField("gg", std::string_view("[a-c]+")); w->m->addRoot(w->o);
    ExprPtr keep, ref; try { keep = w->comp(queries[q], any, wild); ref = w->comp(queries[q], any, wild); } catch (std::runtime_error&) { sx_observe(99); return; }
    if (sx_choose(0, 1, "warm")) (void)w->ev(*ref); e = keep.get();
    R mine[2]; out = mine; sx_reach("two"); sx_threads(body); R r = w->ev(*ref, *w->m->root(0));
    sx_assert(same(out[0], r), "the first thread gets the result of a single thread"); sx_assert(same(out[1], r), "the second thread gets the result of a single thread"); sx_observe(r.err); sx_observe(r.v.size());
}
