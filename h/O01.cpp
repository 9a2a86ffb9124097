// Integer arithmetic: exact whenever the result fits 64 bits (modulo 2^64 otherwise), never a crash or undefined behaviour.
#include "q.h"
void sx_main() {
    int mode = (int)sx_param("MODE", 0);            // 0 fields, 1 constants folded at compile time, 2 one of each
    V a = symv(KInt, "a"), b = symv(KInt, "b");
    W w;
    if (mode == 1) { w.env.constants.emplace("a", val(a)); w.env.constants.emplace("b", val(b)); }
    else { put(w, "a", a); if (mode == 2) w.env.constants.emplace("b", val(b)); else put(w, "b", b); }
    int op = (int)sx_param("OP", 0);
    R ra = w.run("a"), rb = w.run("b");
    sx_assert(ra.isInt(a.i) && rb.isInt(b.i), "operands read back unchanged");
    a.i = ra.i(); b.i = rb.i();                       // equal; the same terms as in the evaluation
    uint64_t x = (uint64_t)a.i, y = (uint64_t)b.i, z;
    if (op == 3 || op == 4) {
        R r = w.run(op == 3 ? "a / b" : "a % b");
        if (b.i == 0) { sx_reach("zero"); sx_assert(r.err == 1, "division by zero is an error"); return; }
        sx_assert(r.is(VT::Int), "integer division gives an integer");
        int64_t q = r.i(); sx_observe((uint64_t)q); sx_reach("exact");
        if (b.i == -1) { sx_assert(op == 3 ? (uint64_t)q == -x : q == 0, "division by minus one negates and leaves no remainder"); return; }
        sx_assert(op == 3 ? q == a.i / b.i : q == a.i % b.i, "quotient truncates towards zero, remainder has the sign of the dividend");
        return;
    }
    R r = op == 5 ? w.run("-a") : w.run(op == 0 ? "a + b" : op == 1 ? "a - b" : "a * b");
    sx_assert(r.is(VT::Int), "integer arithmetic gives an integer");
    z = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : -x;
    sx_observe((uint64_t)r.i()); sx_reach("exact");
    sx_assert((uint64_t)r.i() == z, "the result is exact modulo 2^64");
}
