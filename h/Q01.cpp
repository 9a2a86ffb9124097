// Precedence and associativity: a query without parentheses parses like the fully parenthesized one of the documented table.
#include "q.h"
static const struct { const char* s; int p; } OPS[] = {{"*", 6}, {"/", 6}, {"%", 6}, {"+", 5}, {"-", 5}, {"<<", 4}, {">>", 4}, {"&", 4}, {"|", 4}, {"^", 4}, {"<", 3}, {"<=", 3}, {">", 3}, {">=", 3}, {"==", 2}, {"!=", 2}, {"and", 1}, {"or", 1}};
static const int NOPS = sizeof OPS / sizeof *OPS;
static const char* PRE[] = {"-", "~", "not ", "#", "typeof "};
static const struct { const char* s; bool tight; } POST[] = {{".x", true}, {"[0]", true}, {"{x}", true}, {"?", true}, {"...", true}, {" as int", false}};   // tight: binds stronger than a prefix operator
static std::string ast(W& w, const std::string& q) {
    try { return w.comp(q)->toString(); } catch (std::exception& e) { return std::string("error ") + e.what(); }
}
static std::string P(const std::string& s) { return "(" + s + ")"; }
void sx_main() {
    int part = (int)sx_param("PART", 0); W w; std::string q, want; bool ok = true;
    if (part == 0) {                       // three operands, two operators
        int i = (int)sx_choose(0, NOPS - 1, "op1"), j = (int)sx_choose(0, NOPS - 1, "op2");
        q = std::string("a ") + OPS[i].s + " b " + OPS[j].s + " c";
        want = OPS[j].p > OPS[i].p ? std::string("a ") + OPS[i].s + " (b " + OPS[j].s + " c)" : std::string("(a ") + OPS[i].s + " b) " + OPS[j].s + " c";
        sx_reach(OPS[j].p > OPS[i].p ? "right first" : "left first");
    } else if (part == 1) {                // four operands: precedence climbing on the table
        int o[3]; const char* nm[] = {"op1", "op2", "op3"}; for (int k = 0; k < 3; k++) o[k] = (int)sx_choose(0, NOPS - 1, nm[k]);
        sx_assume(o[0] % 2 == 0 || o[0] == NOPS - 1);
        std::vector<std::string> v = {"a", "b", "c", "d"}; std::vector<int> p; std::vector<std::string> s;
        for (int k = 0; k < 3; k++) { p.push_back(OPS[o[k]].p); s.push_back(OPS[o[k]].s); }
        q = "a " + s[0] + " b " + s[1] + " c " + s[2] + " d";
        while (p.size()) { size_t m = 0; for (size_t k = 1; k < p.size(); k++) if (p[k] > p[m]) m = k; v[m] = P(v[m] + " " + s[m] + " " + v[m + 1]); v.erase(v.begin() + m + 1); s.erase(s.begin() + m); p.erase(p.begin() + m); }
        want = v[0]; sx_reach("three operators");
    } else if (part == 2) {                // prefix and postfix operators on the operands of a binary operator
        int i = (int)sx_choose(0, NOPS - 1, "op"), pre = (int)sx_choose(0, 5, "prefix"), post = (int)sx_choose(0, 6, "postfix"), side = (int)sx_choose(0, 1, "side");
        std::string x = "b", y = "b";
        if (post) { y += POST[post - 1].s; } x = y;
        if (pre) { x = PRE[pre - 1] + x; y = post && !POST[post - 1].tight ? P(std::string(PRE[pre - 1]) + "b") + POST[post - 1].s : PRE[pre - 1] + P(y); }
        y = P(y);
        q = side ? std::string("a ") + OPS[i].s + " " + x : x + " " + OPS[i].s + " a";
        want = side ? std::string("a ") + OPS[i].s + " " + y : y + " " + OPS[i].s + " a";
        sx_reach("unary");
    } else {                               // chains of postfix operators apply from left to right, of prefix operators from right to left
        int n[3]; const char* nm[] = {"p1", "p2", "p3"}; for (int k = 0; k < 3; k++) n[k] = (int)sx_choose(0, 5, nm[k]);
        q = want = "a";
        if (sx_bool("prefix")) { for (int k = 0; k < 3; k++) { int x = n[k] % 5; q = PRE[x] + (x == 0 && q[0] == '-' ? " " + q : q); want = PRE[x] + P(want); } }
        else {
            for (int k = 0; k < 3; k++) { if (k && n[k] <= 2 && !POST[n[k - 1]].tight) ok = false; if (k && POST[n[k]].tight && !POST[n[k - 1]].tight) ok = false; q += POST[n[k]].s; want = P(want) + POST[n[k]].s; }
            // a path or subscript binds stronger than ? and ... on its left only by position
        }
        sx_reach("chain");
    }
    if (!ok) return;
    std::string x = ast(w, q), y = ast(w, want);
    sx_observe_str(x);
    sx_assert(x.rfind("error", 0) != 0 && y.rfind("error", 0) != 0, "the query is accepted");
    sx_assert(x == y, "the query parses like the parenthesized one");
}
