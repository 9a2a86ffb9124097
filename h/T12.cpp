// no state is carried from one tokenization to the next
#include "tok.h"
static bool sameLex(const Lexed& a, const Lexed& b) {
    if (a.ok != b.ok || a.what != b.what || a.t.size() != b.t.size()) return false;
    for (size_t i = 0; i < a.t.size(); i++) if (!sameValue(a.t[i], b.t[i]) || a.t[i].begin != b.t[i].begin || a.t[i].end != b.t[i].end) return false;
    return true;
}
void sx_main() {
    std::string x = sx_string(sx_param("X", 1), "x"), y = sx_string(sx_param("Y", 1), "y"), x0 = x;
    int mode = sx_param("MODE", 0);
    if (mode == 1) { x = "1" + x; y = "'" + y; } else if (mode == 2) { x = x + "\"a\""; y = "re" + y; } else if (mode == 3) { x = "0x" + x; y = "0b" + y; }
    auto r1 = lex(x); lex(y);
    for (int i = sx_param("REP", 0); i > 0; i--) { lex("ab + 1.5e3 and re'x'"); lex("'open"); lex("w\\"); lex(y); }
    auto r2 = lex(x);
    sx_reach(r1.ok ? "accepted" : "rejected");
    sx_assert(sameLex(r1, r2), "tokenizing the same input twice gives different results");
}
