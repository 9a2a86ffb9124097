// totality: every input is either split into tokens or reported as a runtime_error; no other outcome
#include "tok.h"
static const char* alpha(int k) {
    switch (k) {
    case 1: return "0179aefxb.-E ";        // numbers
    case 2: return "'\"\\rReEan ";         // literals
    case 3: return "\\_a$0N \x80";         // words
    default: return "<>=!.*/&|^~#?()[]{},:"; // operators
    }
}
void sx_main() {
    size_t n = sx_param("N", 2); int k = sx_param("A", 0); size_t pad = sx_param("PAD", 0);
    std::string s;
    if (pad) { s = In().sym(1, "abcXYZ", "pad0").sym(pad - 1, "abcXYZ019", "pad").s; }     // long plain prefix
    s += k ? symStr(n, alpha(k), "c") : sx_string(n, "in");
    auto r = lex(s);
    sx_reach(r.ok ? "accepted" : "rejected");
    if (r.ok) sx_assert(!r.t.empty(), "tokenizing returned no token at all");
    else sx_assert(!r.what.empty() || r.t.empty(), "an input was rejected without a message");
}
