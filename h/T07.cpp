// raw strings and regular expressions; unterminated literals
#include "tok.h"
void sx_main() {
    size_t k = sx_param("K", 2), plain = sx_param("PLAIN", 0); int mode = sx_param("MODE", 0);
    static const char* PRE[] = {"r", "R", "re", "RE", ""};
    int pi = (int)sx_choose(0, mode == 1 ? 4 : 3, "prefix");
    char q = sx_choose(0, 1, "quote") ? '"' : '\'';
    std::string body; for (size_t i = 0; i < plain; i++) { char c; sx_bytes(&c, 1, "p"); sx_assume((c != '\'') & (c != '"') & (c != '\\')); body += c; }
    body += sx_string(k, "body");
    std::string text; bool esc = false;     // esc: the last character is a backslash that may escape the quote
    for (char c : body) {
        if (pi < 4) {
            if (c == q) { if (!esc) { sx_assume(false); } text.back() = q; esc = false; continue; }
            text += c; esc = c == '\\';
        } else {
            if (esc) { esc = false; continue; }
            sx_assume(c != q); esc = c == '\\';
        }
    }
    std::string s = std::string(PRE[pi]) + q + body;
    if (mode == 0) {
        s += q;
        auto r = lex(s);
        if (esc) { sx_reach("open"); sx_assert(!r.ok, "a literal whose closing quote is escaped was accepted"); return; }
        sx_reach("closed");
        sx_assert(r.ok && r.t.size() == 2, "a raw literal was not read as one token");
        if (!r.ok || r.t.empty()) return;
        auto* p = val<std::string>(r.t[0]);
        sx_assert(r.t[0].type == (pi < 2 ? Token::STRING : Token::REGEXP) && p, "a raw literal was not read as the kind its prefix says");
        if (!p) return;
        sx_assert(p->size() == text.size(), "a raw literal has the wrong length");
        if (p->size() == text.size()) { bool eq = true; for (size_t j = 0; j < text.size(); j++) eq = eq & ((*p)[j] == text[j]); sx_assert(eq, "a raw literal has the wrong contents"); }
        sx_assert(r.t[0].end == s.size(), "a raw literal has the wrong span");
    } else {                                // never closed
        auto r = lex(s);
        sx_reach("unterminated");
        sx_assert(!r.ok, "an unterminated literal was accepted");
    }
}
