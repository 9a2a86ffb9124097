// the nine reserved words, in any letter case, and nothing else
#include "tok.h"
static const struct { const char* s; Token::Type t; } KW[] = {{"_", Token::SELF}, {"and", Token::OP_AND}, {"or", Token::OP_OR}, {"not", Token::OP_NOT}, {"typeof", Token::OP_TYPEOF}, {"true", Token::C_TRUE}, {"false", Token::C_FALSE}, {"null", Token::C_NULL}, {"as", Token::OP_CAST}};
void sx_main() {
    int mode = sx_param("MODE", 0); size_t k = sx_param("K", 3);
    if (mode == 0) {        // each reserved word, each letter in either case, in context
        auto& w = KW[sx_choose(0, 8, "word")];
        std::string s; for (const char* p = w.s; *p; p++) { char c; sx_bytes(&c, 1, "c"); sx_assume((c == *p) | (isAlph(*p) & (c == (*p ^ 32)))); s += c; }
        std::string pre(sx_param("PRE", 0), '\0'); if (!pre.empty()) pre = symStr(pre.size(), " (+", "pre");
        std::string post(sx_param("POST", 0), '\0'); if (!post.empty()) post = symStr(post.size(), " )+.\t", "post");
        auto r = lex(pre + s + post);
        sx_reach("keyword");
        sx_assert(r.ok, "a reserved word was rejected");
        size_t i = 0; for (char c : pre) if (c != ' ') i++;
        sx_assert(r.t.size() > i && r.t[i].type == w.t, "a reserved word was not recognized");
        if (r.t.size() > i) sx_assert(r.t[i].begin == pre.size() && r.t[i].end == pre.size() + s.size(), "a reserved word has the wrong span");
    } else {                // k letters: reserved exactly if spelled like one of the nine
        std::string s = symStr(k, mode == 1 ? "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_" : "abdeflnoprstuyANDORT_019", "c");
        if (mode == 2) sx_assume(!isDig(s[0]));
        std::string l = s; for (auto& c : l) c = c + (((c >= 'A') & (c <= 'Z')) ? 32 : 0);
        Token::Type want = Token::WORD; for (auto& w : KW) if (l == w.s) want = w.t;
        auto r = lex(s);
        sx_reach(want == Token::WORD ? "name" : "keyword");
        sx_assert(r.ok && r.t.size() == 2, "a word was not read as one token");
        if (r.ok && !r.t.empty()) sx_assert(r.t[0].type == want, want == Token::WORD ? "a name was taken for a reserved word" : "a reserved word was taken for something else");
    }
}
