// Words: upper case words are strings outside of paths and fields inside, all others are fields or constants, in any case.
#include "q.h"
#include "simfil/token.h"
void sx_main() {
    int n = (int)sx_param("N", 2); std::string s(n, 'a');
    for (int i = 0; i < n; i++) {               // one path per class of characters
        static const char* nm[] = {"c1", "c2", "c3", "c4", "c5"}; int k = (int)sx_choose(0, i ? 3 : 2, "class");
        s[i] = k == 0 ? (char)sx_range('A', 'Z', nm[i]) : k == 1 ? (char)sx_range('a', 'z', nm[i]) : k == 2 ? '_' : (char)sx_range('0', '9', nm[i]);
    }
    bool upper = true; int letters = 0; for (char c : s) { if (c >= 'a' && c <= 'z') upper = false; if (c >= 'A' && c <= 'Z') letters++; }
    bool symbol = upper && letters > 0;
    std::vector<Token> t = tokenize(s); sx_assume(t.size() == 2 && t[0].type == Token::WORD);          // no keyword
    W w; w.o->addField(s, int64_t(41)); auto o = w.m->newObject(1); o->addField(s, int64_t(42)); w.o->addField("o_", o); sx_assume(s != "o_" && s != "O_");
    R r = w.run(s); obs(r);
    if (symbol) { sx_reach("symbol"); sx_assert(r.isStr(s), "an upper case word is a string"); }
    else { sx_reach("field"); sx_assert(r.isInt(41), "any other word is a field"); }
    sx_assert(w.run("_." + s).isInt(41) && w.run("o_." + s).isInt(42) && w.run("o_.o_." + s).isNull(), "a word in a path is a field");
    sx_assert(symbol ? w.run("o_[" + s + "]").isInt(42) && w.run("o_{" + s + "}." + s).isInt(42) : true, "a symbol as subscript is a field name");
    sx_assert(w.run("o_{_." + s + " == 42}." + s).isInt(42), "fields inside of sub-queries");
    sx_assert(w.run("('x' + " + s + ") == 'x" + std::string(symbol ? s : "41") + "'").isBool(true), "in expressions");
    std::string lower = s; for (char& c : lower) if (c >= 'A' && c <= 'Z') c = (char)(c + 32);
    if (tokenize(lower)[0].type == Token::WORD && lower != "_") { R y = w.run("_." + lower); sx_assert(y.isInt(41), "field names are case-insensitive"); }
    w.env.constants.emplace(s, Value::make(int64_t(43)));
    sx_assert(symbol ? w.run(s).isStr(s) : w.run(s).isInt(43), "a constant wins over a field but not over a symbol"); sx_assert(w.run("_." + s).isInt(41), "but not inside of a path");
}
