// Truth, not, ?, typeof, and/or.
#include "q.h"
static bool same(const R& x, const R& y, int k, const V& v) {       // two results are the same value of kind k
    if (x.err || y.err || x.v.size() != 1 || y.v.size() != 1) return false;
    switch (k) {
    case KInt: return x.isInt(v.i); case KDouble: return x.is(VT::Float) && sameD(x.d(), v.d); case KStr: return x.isStr(v.s); case KBool: return x.isBool(v.b); case KNull: return x.isNull();
    default: return x.v[0].isa(y.v[0].type) && x.v[0].node && x.v[0].node->addr().value_ == y.v[0].node->addr().value_;
    }
}
void sx_main() {
    int fold = (int)sx_param("FOLD", 0);
    int ka = (int)sx_choose(0, KCOUNT - 1, "kind of a"), kb = (int)sx_choose(0, KCOUNT - 1, "kind of b");
    V a = smallv(fold, ka, "a"), b = smallv(fold, kb, "b");
    W w;
    auto def = [&](const char* n, const V& v) { if (fold && v.k <= KNull) w.env.constants.emplace(n, val(v)); else put(w, n, v); };
    def("a", a); def("b", b);
    R ra = w.run("a"), rb = w.run("b");
    if (ka == KInt) a.i = ra.i(); if (kb == KInt) b.i = rb.i();
    bool ta = ka == KBool ? a.b : ka != KNull, tb = kb == KBool ? b.b : kb != KNull;
    if (ta) sx_reach("true"); else sx_reach("false");
    sx_assert(w.run("a?").isBool(ta), "? is false for null and false only"); sx_assert(w.run("not a").isBool(!ta), "not is the opposite of ?");
    static const char* tn[] = {"int", "float", "string", "bool", "null", "model", "model"};
    sx_assert(w.run("typeof a").isStr(tn[ka]), "typeof names the type");
    R x = w.run("a and b"), y = w.run("a or b"); obs(x); obs(y);
    sx_assert(ta ? same(x, rb, kb, b) : same(x, ra, ka, a), "and gives its first false operand, else the last");
    sx_assert(ta ? same(y, ra, ka, a) : same(y, rb, kb, b), "or gives its first true operand, else the last");
    sx_assert(w.run("not (a and b)").isBool(!(ta && tb)) && w.run("(a or b)?").isBool(ta || tb), "truth of and/or");
}
