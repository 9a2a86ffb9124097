// printing a token gives a spelling that is read as the same token
#include "tok.h"
void sx_main() {
    int mode = sx_param("MODE", 0); size_t n = sx_param("N", 2);
    std::string s;
    if (mode == 0) s = sx_string(n, "in");
    else if (mode == 1) { static const char* A[] = {"and", "or", "not", "typeof", "true", "false", "null", "as", "_", "...", "**", "<<", ">>", "<=", ">=", "==", "!=", "="}; s = A[sx_choose(0, 17, "w")]; }
    else if (mode == 2) { long long m = sx_param("MUL", 1); s = std::to_string((long long)sx_choose(0, 300, "small") * m + (m > 1)); }
    if (mode == 3) {   // k symbolic digits at the end of a long integer
        size_t k = sx_param("K", 2); std::string head = std::to_string((long long)sx_param("HEAD", 9223372036854775ll)); s = head.substr(0, head.size() - k); s += symStr(k, "0123456789", "d");
    }
    auto r = lex(s); if (!r.ok) { sx_reach("rejected"); return; }
    for (size_t i = 0; i + 1 < r.t.size(); i++) {
        const Token& t = r.t[i];
        if (t.type == Token::FLOAT) continue;
        auto* p = val<std::string>(t); bool plain = true;
        if (p) for (size_t j = 0; j < p->size(); j++) { char c = (*p)[j]; plain = plain & ((t.type == Token::WORD) ? (isAlph(c) | (c == '_') | ((c == '$') & (j == 0)) | (isDig(c) & (j > 0))) : ((c != '\'') & (c != '\\'))); }
        if (!plain) continue;                // spellings that need escapes are outside the claim
        if (t.type == Token::WORD && p->empty()) continue;
        sx_reach("printed");
        std::string out = t.toString();
        if (!p && t.type != Token::INT) sx_assert(out == Token::toString(t.type), "a token and its type print differently");
        auto one = lex(out);
        sx_assert(one.ok && one.t.size() == 2 && sameValue(one.t[0], t), "a printed token is read as a different token");
    }
}
