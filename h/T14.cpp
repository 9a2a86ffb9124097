// characters that mean nothing in the language are rejected wherever they stand outside a literal
#include "tok.h"
void sx_main() {
    size_t n = sx_param("PRE", 1), m = sx_param("POST", 1);
    std::string pre = symStr(n, "a1 +(.$_", "pre"), post = sx_string(m, "post");
    char c; sx_bytes(&c, 1, "c");
    bool known = isAlnum(c) | isWs(c); for (const char* p = "_$\\'\"(){}[],:.+-*/%~|&#^?<>=!"; *p; p++) known = known | (c == *p);
    sx_assume(!known);
    if (int k = sx_param("BULK", 0)) pre = std::string(k, ' ') + pre;
    auto r = lex(pre + c + post);
    sx_reach("foreign");
    sx_assert(!r.ok, "a character foreign to the language was accepted");
}
