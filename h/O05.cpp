// Null operands and incompatible operand types: null, the spelled null in a concatenation, or an error; never another value.
#include "q.h"
static std::string spell(const V& v) { return v.k == KNull ? "null" : v.k == KBool ? (v.b ? "true" : "false") : v.s; }
void sx_main() {
    int ka = (int)sx_choose(0, KCOUNT - 1, "kind of a"), kb = (int)sx_choose(0, KCOUNT - 1, "kind of b");
    int op = (int)sx_choose(0, 9, "operator"), fold = (int)sx_param("FOLD", 0);
    bool numa = ka == KInt || ka == KDouble, numb = kb == KInt || kb == KDouble;
    if (op == 0 && ((ka == KStr && numb) || (kb == KStr && numa))) return;         // concatenation with a number: O08
    V a = smallv(true, ka, "a", 1), b = smallv(true, kb, "b", 1);
    W w;
    auto def = [&](const char* n, const V& v) { if (fold && v.k <= KNull) w.env.constants.emplace(n, val(v)); else put(w, n, v); };
    def("a", a); def("b", b);
    static const char* q[] = {"a + b", "a - b", "a * b", "a / b", "a % b", "a & b", "a | b", "a ^ b", "a << b", "a >> b"};
    static const char* sym[] = {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"};
    R r = w.run(q[op]);
    if (r.err) sx_observe((uint64_t)r.err); else obs(r);
    bool intOnly = op >= 4;
    if (numa && numb && !(intOnly && (ka == KDouble || kb == KDouble))) return;    // defined on numbers: O01, O02, O04
    if (op == 0 && (ka == KStr || kb == KStr)) {
        if (ka >= KObj || kb >= KObj) { sx_reach("string and node"); sx_assert(r.isNull(), "a string plus an object or array is null"); return; }
        sx_reach("concatenation");
        sx_assert(r.isStr(spell(a) + spell(b)), "a string plus a scalar concatenates"); return;
    }
    if (ka == KNull || kb == KNull) { sx_reach("null"); sx_assert(r.isNull(), "an operation on null is null"); return; }
    if (op == 0 && ka >= KObj && kb >= KObj) { sx_assert(r.isNull(), "adding nodes is null"); return; }
    sx_reach("incompatible");
    sx_assert(r.err == 1, "operands of incompatible types are an error");
    sx_assert(r.what.find(std::string("operator ") + sym[op]) != std::string::npos, "the error names the operator");
}
