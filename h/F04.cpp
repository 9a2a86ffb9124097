// arr, keys and lists of values as operands: order, number, cartesian application of operators.
#include "q.h"
static bool same(const R& r, const std::vector<int64_t>& w) { if (r.err || r.v.size() != w.size()) return false; bool ok = true; for (size_t i = 0; i < w.size(); i++) ok &= r.v[i].isa(VT::Int) && r.v[i].as<VT::Int>() == w[i]; return ok; }
void sx_main() {
    int part = (int)sx_param("PART", 0); bool fold = sx_param("FOLD", 0); W w; static const char* nm[] = {"a", "b", "c", "d"}; V v[4]; int64_t x[4];
    for (int i = 0; i < 4; i++) { v[i] = fold ? smallv(true, KInt, nm[i]) : V{KInt, (int64_t)sx_range(0, 40000, nm[i])}; x[i] = v[i].i; if (fold) w.env.constants.emplace(nm[i], val(v[i])); else put(w, nm[i], v[i]); }
    if (part == 2) {                            // long lists
        const int M = (int)sx_param("M", 300); std::string l; for (int i = 0; i < M; i++) { if (i) l += ", "; l += nm[i % 4]; } auto o = w.m->newObject(1); for (int i = 0; i < M; i++) o->addField("k" + std::to_string(i), int64_t(i)); w.o->addField("o", o);
        R r = w.run("arr(" + l + ")"), s = w.run("arr(" + l + ") + a"), k = w.run("keys(o)"), u = w.run("(range(1, " + std::to_string(M) + ")...) * 2");
        sx_assert(!r.err && r.v.size() == (size_t)M && s.v.size() == (size_t)M && k.v.size() == (size_t)M && u.v.size() == (size_t)M, "a long list keeps all values");
        for (int i = 0; i < M; i++) { sx_assert(r.v[i].isa(VT::Int) && r.v[i].as<VT::Int>() == x[i % 4], "a long list is in order"); sx_assert(s.v[i].isa(VT::Int) && s.v[i].as<VT::Int>() == x[i % 4] + x[0], "an operator on a long list"); sx_assert(k.v[i].isa(VT::String) && k.v[i].as<VT::String>() == "k" + std::to_string(i), "many keys"); sx_assert(u.v[i].isa(VT::Int) && u.v[i].as<VT::Int>() == 2 * (i + 1), "a long range"); }
        sx_reach("lists"); obs(w.run("count(arr(" + l + "))")); return;
    }
    if (part == 0) {
        sx_assert(same(w.run("arr(a, b, c, d)"), {x[0], x[1], x[2], x[3]}), "arr gives its arguments in order");
        sx_assert(same(w.run("arr(arr(a, b), arr(c), d)"), {x[0], x[1], x[2], x[3]}), "lists are flat");
        sx_assert(same(w.run("arr(a)"), {x[0]}), "one value"); sx_assert(w.run("arr()").isNull(), "no value is null");
        sx_assert(same(w.run("arr(a, a, a)"), {x[0], x[0], x[0]}), "repetitions stay");
        sx_assert(same(w.run("arr(a, b) + arr(c, d)"), {x[0] + x[2], x[0] + x[3], x[1] + x[2], x[1] + x[3]}), "a binary operator combines every value of one side with every value of the other");
        sx_assert(same(w.run("arr(a, b) * 10 + c"), {x[0] * 10 + x[2], x[1] * 10 + x[2]}), "operators apply to every value");
        sx_assert(same(w.run("- arr(a, b)"), {-x[0], -x[1]}), "unary operators apply to every value");
        sx_assert(same(w.run("arr(a, b, c){_ > d}"), {}) == false, "a sub-query gives at least one value");
        R r = w.run("a == arr(b, c, d)"); bool eq[3] = {x[0] == x[1], x[0] == x[2], x[0] == x[3]};
        sx_assert(!r.err && r.v.size() == 3, "one comparison per value"); for (int i = 0; i < 3; i++) sx_assert(r.v[i].isa(VT::Bool) && r.v[i].as<VT::Bool>() == eq[i], "comparisons in order");
        sx_reach("lists"); obs(r);
    } else {
        static const char* keys1[] = {"k1", "Key 2", "x"}; static const char* keys2[] = {"", "\xc3\xa9", "_"}; int odd = (int)sx_choose(0, 1, "odd names"); const char** keys = odd ? keys2 : keys1; auto o = w.m->newObject(1); int n = (int)sx_choose(0, 3, "fields"); int f[3];
        for (int i = 0; i < n; i++) { static const char* fn[] = {"f1", "f2", "f3"}; f[i] = (int)sx_choose(0, 2, fn[i]); o->addField(keys[f[i]], x[i]); }
        w.o->addField("o", o);
        R r = w.run("keys(o)"); obs(r);
        if (!n) sx_assert(r.isNull(), "an empty object has no keys");
        else { sx_assert(!r.err && r.v.size() == (size_t)n, "as many keys as fields"); for (int i = 0; i < n; i++) sx_assert(r.v[i].isa(VT::String) && r.v[i].as<VT::String>() == keys[f[i]], "keys in order of insertion"); }
        sx_assert(same(w.run("arr(o.*, 7)"), [&] { std::vector<int64_t> e; for (int i = 0; i < n; i++) e.push_back(x[i]); if (!n) e.push_back(-1); e.push_back(7); return e; }()) || !n, "* gives the values of all fields");
        for (int k = 0; k < 3; k++) {                       // field access by name, case-insensitively, first match
            int64_t want = 0; bool have = false; for (int i = n - 1; i >= 0; i--) if (f[i] == k) { want = x[i]; have = true; }
            static const char* q2[3][3] = {{"o['']", "o[arr('')]", "o[#'' as string + '']"}, {"o['\xc3\xa9']", "o.\xc3\xa9", "o[arr('\xc3\xa9')]"}, {"o['_']", "o[arr('_')]", "o['_' + '']"}};
            static const char* q1[3][3] = {{"o.k1", "o.K1", "o['k1']"}, {"o['Key 2']", "o['KEY 2']", "o[arr('Key 2')]"}, {"o.x", "o['X']", "o.('X' as string)"}};
            for (int t = 0; t < 3; t++) { if ((k == 2 && t == 2 && !odd) || (odd && !k && t == 2)) continue; if (odd && k == 1 && t == 1) continue; R y = w.run((odd ? q2 : q1)[k][t]); sx_assert(have ? y.isInt(want) : y.isNull(), "a field is found by its name in any case"); }
        }
        sx_assert(w.run("#o").isInt(n) , "# is the number of fields");
        if (odd) sx_assert(w.run("o.unheard").isNull() && w.run("o['unheard']").isNull(), "an unknown name is no field"); sx_reach("fields");
    }
}
