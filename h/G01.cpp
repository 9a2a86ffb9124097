// Regular expressions: ==, != compare whole strings with the pattern; other types never match.
#include "q.h"
static bool ref(int k, const std::string& s) {
    size_t n = s.size(); auto in = [](char c, char a, char b) { return (c >= a) & (c <= b); }; auto dot = [](char c) { return (c != '\n') & (c != '\r'); };
    switch (k) {
    case 0: return n == 2 && ((s[0] == 'a') & (s[1] == 'b'));                               // ab
    case 1: return n == 3 && ((s[0] == 'a') & dot(s[1]) & (s[2] == 'c'));                   // a.c
    case 2: { bool r = true; for (char c : s) r &= dot(c); return r; }                      // .*
    case 3: { bool r = n > 0; for (char c : s) r &= c == 'a'; return r; }                   // a+
    case 4: return n == 0 || (n == 1 && s[0] == 'a');                                       // a?
    case 5: return n == 1 && in(s[0], 'b', 'd');                                            // [b-d]
    case 6: return n == 1 && !in(s[0], 'b', 'd');                                           // [^b-d]
    case 7: return (n == 1 && s[0] == 'a') || (n == 2 && ((s[0] == 'b') & (s[1] == 'c')));  // a|bc
    case 8: { bool r = n > 0; for (char c : s) r &= in(c, '0', '9'); return r; }            // \d+
    case 9: return n == 1 && s[0] == '.';                                                   // \.
    case 10: return n == 0;                                                                 // empty
    case 11: return n == 2 && ((s[0] == s[1]) & dot(s[0]));                                 // (.)\1
    case 12: return n == 2 && ((s[0] == 'a') & (s[1] == 'a'));                              // a{2}
    case 13: { bool r = n % 2 == 0; for (size_t i = 0; i < n; i++) r &= s[i] == (i % 2 ? 'b' : 'a'); return r; }    // (ab)*
    case 14: return n == 1 && (in(s[0], 'a', 'z') | in(s[0], 'A', 'Z') | in(s[0], '0', '9') | (s[0] == '_'));       // \w
    case 15: return n == 1 && s[0] == 'a';                                                  // ^a$
    case 16: return n == 2 && (in(s[0], 'a', 'z') & (s[1] == 'x'));                         // [[:lower:]]x
    default: { bool r = n > 0; for (size_t i = 0; i + 1 < n; i++) r &= dot(s[i]); return r && s[n - 1] == 'c'; }    // .*?c
    }
}
static const char* pats[] = {"ab", "a.c", ".*", "a+", "a?", "[b-d]", "[^b-d]", "a|bc", "\\d+", "\\.", "", "(.)\\1", "a{2}", "(ab)*", "\\w", "^a$", "[[:lower:]]x", ".*?c"};
static void others() {      // values which are no strings, other operators, the function re
    W w; int k = (int)sx_choose(0, KCOUNT - 1, "kind"); V v = symv(k, "value", 1); put(w, "v", v); w.o->addField("p", std::string_view("a.")); bool null = k == KNull; std::string re = sx_choose(0, 1, "function") ? "re('a.')" : "re'a.'";
    sx_reach("other"); R a = w.run("v == " + re), b = w.run(re + " == v"), c = w.run("v != " + re), d = w.run(re + " != v"); obs(a);
    if (null) sx_assert(a.isNull() && b.isNull() && c.isNull() && d.isNull(), "null compared with a pattern is null");
    else if (k == KStr) sx_assert(a.isBool(false) && b.isBool(false) && c.isStr(v.s) && d.isStr(v.s), "a shorter text does not match");
    else sx_assert(a.isBool(false) && b.isBool(false) && c.isBool(true) && d.isBool(true), "a value which is no text does not match");
    static const char* ops[] = {"+", "-", "*", "/", "%", "<", "<=", ">", ">=", "&", "|", "^", "<<", ">>"}; std::string op = ops[sx_choose(0, 13, "operator")]; R e = w.run("v " + op + " " + re), f = w.run(re + " " + op + " v");
    if (null) sx_assert(e.isNull() && f.isNull(), "null with a pattern"); else sx_assert((e.err == 1 || (k == KStr && op == "+")) && (f.err == 1 || (k == KStr && op == "+")), "patterns have no other operators");
    sx_assert(w.run("typeof " + re).isStr("re") && w.run(re + " as string").isStr("a.") && w.run(re + " ?").isBool(true) && w.run("#" + re).err == 1 && w.run("-" + re).err == 1, "the pattern as a value");
    sx_assert(w.run("'ab' == re(p)").isStr("ab") && w.run("'b' == re(p)").isBool(false) && w.run("'ab' == re(re(p))").isStr("ab") && w.run("'ab' == re(" + re + ")").isStr("ab"), "a pattern from data");
    R g = w.run("re(v)"); if (k == KStr) { bool bad = false; for (char x : v.s) bad |= (x == '(') | (x == ')') | (x == '[') | (x == '{') | (x == '*') | (x == '+') | (x == '?') | (x == '\\'); (void)bad; sx_assert(g.err < 2, "a pattern or an error"); } else sx_assert(g.err == 1, "only texts are patterns");
    sx_assert(w.run("re()").err == 1 && w.run("re(p, p)").err == 1 && w.run("re('(')").err == 1 && w.run("re'['").err == 1, "invalid patterns are errors");
}
void sx_main() {
    if (sx_param("PART", 0)) return others();
    W w; int k = (int)sx_choose(sx_param("FROM", 0), std::min<int64_t>(18, sx_param("TO", 18)) - 1, "pattern"); size_t n = (size_t)sx_choose(0, sx_param("N", 3), "length"); std::string s = sx_string(n, "text"); w.o->addField("ss", std::string_view(s));
    std::string re = std::string("re\"") + pats[k] + "\""; bool m = ref(k, s); sx_reach("match"); sx_observe(m);
    R a = w.run("ss == " + re), b = w.run(re + " == ss"), c = w.run("ss != " + re), d = w.run(re + " != ss"); obs(a); obs(c);
    sx_assert(m ? a.isStr(s) && b.isStr(s) : a.isBool(false) && b.isBool(false), "== gives the text if it matches, else false"); sx_assert(m ? c.isBool(false) && d.isBool(false) : c.isStr(s) && d.isStr(s), "!= gives the text if it does not match");
}
