// quoting: any text written as a quoted literal comes back unchanged
#include "tok.h"
void sx_main() {
    size_t k = sx_param("K", 2), plain = sx_param("PLAIN", 0), post = sx_param("PLAIN2", 0); int mode = sx_param("MODE", 0);
    char q = sx_choose(0, 1, "quote") ? '"' : '\'';
    std::string text, lit(1, q);
    auto plainPart = [&](size_t n, const char* nm) { for (size_t i = 0; i < n; i++) { char c; sx_bytes(&c, 1, nm); sx_assume((c != '\'') & (c != '"') & (c != '\\')); text += c; lit += c; } };
    plainPart(plain, "p");
    for (size_t i = 0; i < k; i++) {
        char c; sx_bytes(&c, 1, "c");
        if (mode == 1) {            // every character escaped
            lit += '\\'; lit += c; text += c == 'n' ? '\n' : c == 'r' ? '\r' : c == 't' ? '\t' : c;
        } else {                    // only what has to be escaped
            if (c == q || c == '\\') lit += '\\';
            lit += c; text += c;
        }
    }
    plainPart(post, "s");
    lit += q;
    std::string before = sx_param("CTX", 0) ? "a+" : "", after = sx_param("CTX", 0) ? "=b" : "";
    auto r = lex(before + lit + after);
    sx_reach("literal");
    size_t i = before.empty() ? 0 : 2;
    sx_assert(r.ok && r.t.size() == (before.empty() ? 2 : 6) - 0, "a correctly quoted string was not read as one token");
    if (!r.ok || r.t.size() <= i) return;
    auto* p = val<std::string>(r.t[i]);
    sx_assert(r.t[i].type == Token::STRING && p, "a quoted string was not read as a string");
    if (!p) return;
    sx_assert(p->size() == text.size(), "a quoted string has the wrong length");
    if (p->size() == text.size()) { bool eq = true; for (size_t j = 0; j < text.size(); j++) eq = eq & ((*p)[j] == text[j]); sx_assert(eq, "a quoted string has the wrong contents"); }
    sx_assert(r.t[i].begin == before.size() && r.t[i].end == before.size() + lit.size(), "a quoted string has the wrong span");
}
