// Floating point and mixed arithmetic follows IEEE double arithmetic on the converted operands.
#include "q.h"
void sx_main() {
    int mode = (int)sx_param("MODE", 0), op = (int)sx_param("OP", 0), ka = (int)sx_param("KA", KDouble), kb = (int)sx_param("KB", KDouble);
    V a = symv(ka, "a"), b = symv(kb, "b");
    W w;
    if (mode == 1) { w.env.constants.emplace("a", val(a)); w.env.constants.emplace("b", val(b)); } else { put(w, "a", a); put(w, "b", b); }
    R ra = w.run("a"), rb = w.run("b");
    sx_assert(ka == KInt ? ra.isInt(a.i) : ra.is(VT::Float) && sameD(ra.d(), a.d), "operands read back unchanged");
    sx_assert(kb == KInt ? rb.isInt(b.i) : rb.is(VT::Float) && sameD(rb.d(), b.d), "operands read back unchanged");
    double x = ka == KInt ? (double)ra.i() : ra.d(), y = kb == KInt ? (double)rb.i() : rb.d();
    R r = op == 0 ? w.run("a + b") : op == 1 ? w.run("a - b") : op == 2 ? w.run("a * b") : op == 3 ? w.run("a / b") : op == 4 ? w.run("a % b") : w.run("-a");
    if (op == 4) { sx_reach("modulo"); sx_assert(r.err == 1, "modulo of a floating point number is an error"); return; }
    if (op == 3 && y == 0) { sx_reach("zero"); sx_assert(r.err == 1, "division by zero is an error"); return; }
    sx_assert(r.is(VT::Float), "the result is one floating point number");
    double z = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : op == 3 ? x / y : -x;
    sx_reach("value");
    sx_assert(sameD(r.d(), z), "the result is the IEEE result");
    if (op != 2) sx_observe_d(r.d() != r.d() ? 0.0 : r.d());
}
