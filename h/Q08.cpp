// Robustness: any sequence of tokens, and any bytes, either compile or fail with an error; the result evaluates without crashing.
#include "q.h"
static const char* A[] = {"1", "a", "'s'", "(", ")", "[", "]", "{", "}", ",", ".", "_", "*", "**", "-", "and", "==", "as", "int", "?", "...", "not", "#", "X", "null", "any(", "sum(", "range(", "arr(", "count(", "select(", "keys(", "trace(", "split(", "/", "0", "2.5", "~", "typeof", "<<", "true", "o", "l", ":", "<", "$sum", "each("};
static const int NA = sizeof A / sizeof *A;
void sx_main() {
    int n = (int)sx_param("N", 2), na = (int)sx_param("A", NA), part = (int)sx_param("PART", 0); std::string q; static const char* nm[] = {"t1", "t2", "t3", "t4", "t5", "t6"};
    if (part == 1) q = sx_string(n, "query");
    else if (part == 2) {                       // brackets closed, so that more of them are well formed
        std::string close; for (int i = 0; i < n; i++) { std::string t = A[sx_choose(0, na - 1, nm[i])]; q += t + " "; for (char c : t) if (c == '(') close = ")" + close; else if (c == '[') close = "]" + close; else if (c == '{') close = "}" + close; else if ((c == ')' || c == ']' || c == '}') && close.size()) close.erase(0, 1); }
        q += close;
    } else for (int i = 0; i < n; i++) q += std::string(A[sx_choose(0, na - 1, nm[i])]) + " ";
    W w; w.o->addField("a", int64_t(3)); auto o = w.m->newObject(2); o->addField("a", std::string_view("t")); w.o->addField("o", o); auto l = w.m->newArray(2); l->append(int64_t(1)); l->append(false); w.o->addField("l", l);
    for (int mode = 0; mode < (part == 1 ? 1 : 3); mode++) {
        ExprPtr e; int err = 0; std::string what;
        try { e = w.comp(q, mode == 1, mode == 2); } catch (std::runtime_error& x) { err = 1; what = x.what(); } catch (...) { err = 2; }
        sx_assert(err != 2, "a query which cannot be compiled is a runtime error");
        sx_observe((uint64_t)err);
        if (err) { sx_assert(what.size() > 0, "the error has a message"); sx_reach("rejected"); continue; }
        sx_assert(e != nullptr, "a compiled query is an expression");
        sx_assert(e->toString().size() > 0, "it can be printed");
        R r = w.ev(*e); sx_assert(r.err != 2, "failing evaluations are runtime errors"); sx_assert(r.err || r.v.size() >= 1, "an evaluation gives at least one value");
        sx_observe((uint64_t)r.err); sx_observe(r.v.size()); sx_reach(r.err ? "error" : "value");
        if (mode == 1 && !r.err) sx_assert(r.v.size() == 1 && r.v[0].isa(VT::Bool), "the any mode gives one boolean");
    }
}
