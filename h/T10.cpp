// operators and punctuation: longest match, each spelling its own token
#include "tok.h"
static const struct { const char* s; Token::Type t; } OPS[] = {
    {"...", Token::OP_UNPACK}, {"**", Token::WILDCARD}, {"<<", Token::OP_LSHIFT}, {">>", Token::OP_RSHIFT}, {"<=", Token::OP_LTEQ}, {">=", Token::OP_GTEQ}, {"==", Token::OP_EQ}, {"!=", Token::OP_NOT_EQ},
    {"(", Token::LPAREN}, {")", Token::RPAREN}, {"{", Token::LBRACE}, {"}", Token::RBRACE}, {"[", Token::LBRACK}, {"]", Token::RBRACK}, {",", Token::COMMA}, {":", Token::COLON}, {".", Token::DOT},
    {"+", Token::OP_ADD}, {"-", Token::OP_SUB}, {"*", Token::OP_TIMES}, {"/", Token::OP_DIV}, {"%", Token::OP_MOD}, {"~", Token::OP_BITINV}, {"|", Token::OP_BITOR}, {"&", Token::OP_BITAND}, {"#", Token::OP_LEN},
    {"^", Token::OP_BITXOR}, {"?", Token::OP_BOOL}, {"<", Token::OP_LT}, {">", Token::OP_GT}, {"=", Token::OP_EQ}};
void sx_main() {
    size_t n = sx_param("N", 2); bool ws = sx_param("WS", 0), ends = sx_param("ENDS", 0);
    std::string s = symStr(n, ws ? "(){}[],:.+-*/%~|&#^?<>=! " : "(){}[],:.+-*/%~|&#^?<>=!", "c");
    if (ends) s = "a" + s + "b";
    auto r = lex(s);
    size_t pos = 0, i = 0; bool bad = false;
    std::vector<Token::Type> want;
    while (pos < s.size()) {
        if (s[pos] == ' ') { pos++; continue; }
        if (ends && (pos == 0 || pos + 1 == s.size())) { want.push_back(Token::WORD); pos++; continue; }
        bool hit = false;
        for (auto& o : OPS) { size_t l = strlen(o.s); if (pos + l <= s.size() && s.compare(pos, l, o.s) == 0) { want.push_back(o.t); pos += l; hit = true; break; } }
        if (!hit) { bad = true; break; }
    }
    if (bad) { sx_reach("lone !"); sx_assert(!r.ok, "a lone '!' was accepted"); return; }
    sx_reach("operators");
    sx_assert(r.ok, "a sequence of operators was rejected");
    if (!r.ok) return;
    sx_assert(r.t.size() == want.size() + 1, "a sequence of operators was split wrongly");
    if (r.t.size() == want.size() + 1) for (i = 0; i < want.size(); i++) sx_assert(r.t[i].type == want[i], "an operator was read as a different one");
}
