// Functions and constants are found by their name in any case, and only by it.
#include "q.h"
struct One : Function {
    const char* n; explicit One(const char* n) : n(n), info{n, "", ""} {} FnInfo info;
    auto ident() const -> const FnInfo& override { return info; }
    auto eval(Context ctx, Value, const std::vector<ExprPtr>&, const ResultFn& res) const -> Result override { return res(ctx, Value::make(std::string(n))); }
};
static char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static bool sameName(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r &= low(a[i]) == low(b[i]); return r; }
static std::string word(size_t n, const char* name) { std::string s = sx_string(n, name); for (char c : s) sx_assume(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z'))); return s; }
void sx_main() {
    int part = (int)sx_param("PART", 0);
    if (part == 0) {            // the order of names is a strict weak order whose equivalence is the equality of names
        size_t n = (size_t)sx_param("N", 2); CaseInsensitiveCompare lt; size_t l[3]; std::string s[3]; static const char* nm[] = {"x", "y", "z"};
        for (int i = 0; i < 3; i++) { l[i] = (size_t)sx_choose(0, (int64_t)n, "len"); s[i] = std::string((size_t)sx_param("PAD", 0), 'n') + sx_string(l[i], nm[i]); }
        bool xy = lt(s[0], s[1]), yx = lt(s[1], s[0]); sx_reach("order");
        sx_assert(!lt(s[0], s[0]), "no name is less than itself"); sx_assert(!(xy && yx), "the order has one direction"); sx_assert((!xy && !yx) == sameName(s[0], s[1]), "names are equal iff they differ in case only");
        bool yz = lt(s[1], s[2]), xz = lt(s[0], s[2]); sx_assert(!(xy && yz && !xz), "the order is transitive"); sx_assert(!(!xy && !yz && xz), "the order is complete"); sx_observe(xy); sx_observe(yx); return;
    }
    if (part == 1) {            // functions: a name in any case, with one character replaced by any other
        static const char* names[] = {"any", "each", "all", "count", "range", "arr", "split", "select", "sum", "keys", "trace", "re", "foo", "fooo", "fo", "a", ""}; const int NN = sizeof names / sizeof *names;
        std::string q = names[sx_choose(sx_param("FROM", 0), std::min<int64_t>(NN, sx_param("TO", NN)) - 1, "name")]; static const char* nm[] = {"c1", "c2", "c3", "c4", "c5", "c6"}; size_t pos = (size_t)sx_choose(0, (int64_t)q.size(), "replaced");
        for (size_t i = 0; i < q.size(); i++) { if (i == pos) q[i] = (char)sx_range(0, 255, nm[i]); else { char c = (char)sx_range(0, 127, nm[i]); sx_assume((c == q[i]) | (c == q[i] - 32)); q[i] = c; } }
        W w; One f("f"); static const char* reg[] = {"Foo", "COUNT", "fO"}; std::string a = reg[sx_choose(0, 2, "registered")]; w.env.functions[a] = &f; bool mine = sameName(a, q); int builtin = -1; for (int i = 0; i < 12; i++) if (sameName(q, names[i])) builtin = i;
        const Function* g = w.env.findFunction(q); sx_reach(mine ? "found" : builtin >= 0 ? "builtin" : "unknown"); sx_observe(mine); sx_observe(!!g);
        if (mine) sx_assert(g == &f, "a registered function is found in any case, also in place of a built-in one");
        else if (builtin >= 0) sx_assert(g && g != &f && g->ident().ident == (builtin == 2 ? "each" : names[builtin]), "a built-in function is found in any case");
        else sx_assert(!g, "no other name is a function");
        sx_assert(w.env.functions.size() == (a == "COUNT" ? 12u : 13u), "one function per name"); return;
    }
    if (part == 2) {            // calls in queries: the case of the name never matters
        W w; w.o->addField("a", int64_t(7)); size_t pad = (size_t)sx_param("PAD", 0); const std::string K(pad, 'x'); std::string q = K + "foo"; for (size_t i = pad; i < q.size(); i++) if (sx_choose(0, 1, "upper")) q[i] -= 32; One f("f"), g("g"); w.env.functions[K + "Foo"] = &f; w.env.functions[K + "fooo"] = &g;
        sx_reach("call"); R r = w.run(q + "()"); sx_assert(r.isStr("f"), "the function is called"); sx_assert(w.run(q + "o()").isStr("g"), "the other is"); R u = w.run(q + "x()"); obs(r);
        sx_assert(u.err == 1 && u.what.find(q + "x") != std::string::npos, "an unknown function is an error with its name"); sx_assert(w.run("_." + q).isNull(), "a function is no field");
        std::string k = "count"; k[0] -= (char)(sx_choose(0, 1, "upper") * 32); k[4] -= (char)(sx_choose(0, 1, "upper") * 32); sx_assert(w.run(k + "(a)").isInt(1), "a built-in function is called"); return;
    }
    if (part == 3) {            // constants: any kind of value, in any case, in expressions; last registration counts
        W w; int k = (int)sx_choose(0, KNull, "kind"); V v = smallv(true, k, "value", 1); w.o->addField("limit", int64_t(1)); size_t pad = (size_t)sx_param("PAD", 0); std::string q = std::string(pad, 'k') + "lim"; for (size_t i = pad; i + 1 < q.size(); i++) if (sx_choose(0, 1, "upper")) q[i] -= 32; const std::string K(pad, 'K');
        w.env.constants.emplace(K + "LiM", val(v)); w.env.constants.emplace(K + "limi", Value::make(int64_t(2))); sx_reach("constant");
        auto* c = w.env.findConstant(q); sx_assert(c && c->type == val(v).type, "the constant is found"); sx_assert(!w.env.findConstant(K + "li") && !w.env.findConstant(K + "limit") && !w.env.findConstant(""), "by its whole name");
        R r = w.run(q), t = w.run("typeof " + q); obs(r); sx_assert(!r.err && r.v.size() == 1 && r.v[0].type == val(v).type, "the constant's value");
        if (k == KInt) sx_assert(r.i() == v.i, "the constant's value"); if (k == KStr) sx_assert(r.s() == v.s, "the constant's value"); if (k == KBool) sx_assert(r.isBool(v.b), "the constant's value"); if (k == KDouble) sx_assert(sameD(r.d(), v.d), "the constant's value");
        static const char* types[] = {"int", "float", "string", "bool", "null"}; sx_assert(t.isStr(types[k]), "the constant's type"); sx_assert(w.run("limit").isInt(1) && w.run(K + "limi").isInt(2), "other names are other values");
        if (k == KInt) sx_assert(w.run("(" + q + " + limit) * " + K + "limi").isInt((v.i + 1) * 2), "in expressions"); return;
    }
    bool threw = false; try { Environment e(std::shared_ptr<StringPool>{}); } catch (std::runtime_error&) { threw = true; } sx_reach("null"); sx_assert(threw, "an environment needs a string pool");
    auto p = std::make_shared<StringPool>(); Environment e(p), f(Environment::WithNewStringCache), g(Environment::WithNewStringCache); sx_assert(e.strings() == p && f.strings() && f.strings() != g.strings() && f.strings() != p, "an environment's string pool is the one it was given, or a new one");
}
