// whitespace separates and is otherwise insignificant
#include "tok.h"
static void same(const Lexed& a, size_t from, size_t count, const Lexed& b, size_t at, size_t shift) {
    for (size_t i = 0; i < count; i++) {
        const Token &x = a.t[from + i], &y = b.t[at + i];
        sx_assert(sameValue(x, y), "whitespace changed a token");
        sx_assert(x.begin + shift == y.begin && x.end + shift == y.end, "whitespace moved a token to a wrong position");
    }
}
void sx_main() {
    size_t n = sx_param("A", 1), m = sx_param("B", 1), w = sx_param("W", 1); const char* WS = " \t\n\v\f\r";
    std::string a = sx_string(n, "a"), b = sx_string(m, "b");
    std::string sep = symStr(w, WS, "sep"), lead = symStr(sx_param("LEAD", 0), WS, "lead"), trail = symStr(sx_param("TRAIL", 0), WS, "trail");
    if (int k = sx_param("BULK", 0)) { sep += std::string(k, ' '); lead += std::string(k, '\n'); trail = std::string(k, '\t') + trail; }
    auto ra = lex(a); if (!ra.ok) { sx_reach("rejected"); return; }
    auto rb = lex(b);
    auto r = lex(lead + a + sep + b + trail);
    if (!rb.ok) {
        sx_reach("second rejected");
        if (trail.empty()) sx_assert(!r.ok, "an invalid part was accepted after other tokens");
        return;
    }
    sx_reach("accepted");
    sx_assert(r.ok, "two valid parts separated by whitespace were rejected");
    if (!r.ok) return;
    size_t ka = ra.t.size() - 1, kb = rb.t.size() - 1;
    sx_assert(r.t.size() == ka + kb + 1, "whitespace joined, split or dropped tokens");
    if (r.t.size() != ka + kb + 1) return;
    same(ra, 0, ka, r, 0, lead.size()); same(rb, 0, kb, r, ka, lead.size() + a.size() + sep.size());
}
