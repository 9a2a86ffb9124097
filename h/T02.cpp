// structure of the token list: one end marker, ordered disjoint spans, nothing of the input dropped,
// and each token is what its own source text means on its own
#include "tok.h"
void sx_main() {
    size_t n = sx_param("N", 2); size_t pad = sx_param("PAD", 0), post = sx_param("POST", 0);
    std::string s = sx_string(n, "in");
    if (pad) s = symStr(pad, " \t\n\v\f\r", "ws") + s;
    if (post) s += symStr(post, "abyz", "tail");
    if (int k = sx_param("BULK", 0)) s = std::string(k, ' ') + s;      // far into the text
    for (int i = sx_param("LIST", 0); i > 0; i--) s = "ab, 12 + R\"x\" re'y' and(c...)" + s;
    auto r = lex(s);
    if (!r.ok) { sx_reach("rejected"); return; }
    sx_reach("accepted");
    sx_assert(!r.t.empty() && isNil(r.t.back()), "the token list does not end with the end marker");
    if (r.t.empty()) return;
    size_t pos = 0;
    for (size_t i = 0; i + 1 < r.t.size(); i++) {
        const Token& t = r.t[i];
        sx_assert(!isNil(t), "end marker inside the token list");
        sx_assert(t.begin < t.end && t.end <= s.size(), "token span empty or outside the input");
        sx_assert(t.begin >= pos, "token spans overlap or are out of order");
        if (!(t.begin < t.end && t.end <= s.size() && t.begin >= pos)) return;
        std::string gap = s.substr(pos, t.begin - pos), text = s.substr(t.begin, t.end - t.begin), prefix;
        size_t g = 0; while (g < gap.size() && isWs(gap[g])) g++;
        prefix = gap.substr(g);
        if (!prefix.empty()) {
            bool lit = (t.type == Token::STRING && (prefix == "r" || prefix == "R")) || (t.type == Token::REGEXP && (prefix == "re" || prefix == "RE"));
            sx_assert(lit, "input text between two tokens was dropped");
        }
        sx_reach("token");
        if (sx_param("ALONE", 1)) {
            auto one = lex(prefix + text);
            sx_assert(one.ok && one.t.size() == 2 && sameValue(one.t[0], t), "a token differs from what its own source text means");
        }
        pos = t.end;
    }
    for (size_t i = pos; i < s.size(); i++) sx_assert(isWs(s[i]), "input text after the last token was dropped");
}
