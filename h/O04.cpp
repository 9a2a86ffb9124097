// Bit operators work on the 64 bit pattern; shifts are logical and shift everything out for counts outside 0..63.
#include "q.h"
void sx_main() {
    int mode = (int)sx_param("MODE", 0), op = (int)sx_param("OP", 0);
    V a = symv(KInt, "a"), b = symv(KInt, "b");
    W w;
    if (mode == 1) { w.env.constants.emplace("a", val(a)); w.env.constants.emplace("b", val(b)); } else { put(w, "a", a); put(w, "b", b); }
    R ra = w.run("a"), rb = w.run("b");
    sx_assert(ra.isInt(a.i) && rb.isInt(b.i), "operands read back unchanged");
    uint64_t x = (uint64_t)ra.i(), y = (uint64_t)rb.i(), z = 0;
    static const char* q[] = {"a & b", "a | b", "a ^ b", "~a", "a << b", "a >> b"};
    R r = w.run(q[op]);
    sx_assert(r.is(VT::Int), "a bit operator on integers gives an integer");
    bool in = y < 64;
    switch (op) {
    case 0: z = x & y; break; case 1: z = x | y; break; case 2: z = x ^ y; break; case 3: z = ~x; break;
    case 4: z = in ? x << (y & 63) : 0; break; default: z = in ? x >> (y & 63) : 0;
    }
    sx_observe((uint64_t)r.i());
    if (op >= 4) { if (in) sx_reach("shift"); else sx_reach("large count"); } else sx_reach("bits");
    sx_assert((uint64_t)r.i() == z, "bitwise result");
}
