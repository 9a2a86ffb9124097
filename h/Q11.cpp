// Operands are evaluated on the current node: o.(T) with fields of o gives what T gives with the paths to these fields, o{T} filters by it.
#include "q.h"
static const char* T[] = {
    "@x + @y * @z", "-@x - ~@y", "not @x", "@x?", "#@f", "typeof @f", "@x as float", "(@x == @y) as int", "@x == @y", "@x != @y", "@x < @y", "@x >= @z", "@x << @y", "@x % (@y + 1)", "(@x + 1) / (@y + 1)", "@x & @y | @z ^ 3",
    "@f.x + @y", "@y + @f.x", "@f == @f", "@f.x == @x", "@x == @f.x", "@x and @y", "@f and @x", "@x and @f.y", "@g or @x", "@g or @f.y", "@x or @f.x", "(@g and @x) == @g", "(@f.x == @x) or (@f.y == @y)", "(@f.x == @x) and (@f.y == @y)", "@f and (@x == @y) and @z", "@g or (@x == @y) or @f.z",
    "any(@x == @y, @y == @z)", "any(@f, @x == @y)", "any(@g, @f.x == @x)", "all(@x == @y, @f.x == @z)", "each(@f, @x)", "count(@x == @y, @f, @y == @z, @g)", "count(@f.x == @x, @x == @x)", "range(@x, @y) == @z", "range(@f.x, @x) == @y", "any(range(@x, @y)... == @f.x)", "@x..@y == @z", "count((@x..@y)...)",
    "arr(@x, @f.x, @y)", "arr(@f, @x)", "arr(@f.x, @f.y) + @x", "@x + arr(@f.x, @f.y)", "arr(@l, @x)", "@l... + @x", "select(@l..., @i)", "select(arr(@x, @y, @z), @i)", "select(arr(@f.x, @y, @z), @i, @i + 1)", "sum(arr(@x, @y))", "sum(arr(@f.x, @y), $sum + $val, @z)", "sum(@l..., $sum * 2 + $val, @f.x)", "sum(@f.x, $sum + $val, @x)", "keys(@f)", "count(keys(@f), @x)",
    "@f[@k]", "@l[@i]", "@l[@f.i]", "@f[@l[0] == @l[0] and @k]", "@f{x == y}.z + @x", "@f.(x + y) + @x", "@l.*{_ == 2} + @y", "@f.*{_ == 2} == @x", "@f.(l[i]) + @z", "(@l...){_ > 1} + @x", "@s + @x as string", "@s[@i]", "split(@s, @t)", "split(@f.s, @t, @x == @y)", "split(@s, @f.t)[0]", "split(@s, @t).#_", "re(@s) == @t", "@s == re(@t)", "@s == @f.s", "@s < @f.s", "#@s + #@f.s",
    "trace(@x)", "trace(@f.x, 1, @s)", "trace(@x + @f.x)", "(@f.x) + @x", "(@x, @y)", "@h", "@h == @x", "@f.h", "@h or @x", "@l.*", "@f.*", "@f.**", "@f.l.* + @x", "@l.* == @f.l.*", "any(@l.* == @x)", "count(@l.* == @f.l.*)", "@n or @x", "@n or @y or @z", "@u or @y", "@u or @n or @x", "@n and @x", "@u and @x", "@x and @n", "@n or (@x == @y)", "@n == @u", "@u + @s", "@s + @n + @u", "(@u or @x) + @y", "@n? or @x", "not @n and @y", "any(@n, @u, @x == @y)", "count(@n, @u, @x)", "@x == 1 or @x == 2 and @y == 3", "@f{_.x == 1}", "@f{any(x == 1, y == 1)}.z", "any(@l.*{_ == 1})", "(typeof @x) + @s", "(@x as string)[@i]", "range(@x, @f.x)...", "range(@x, @y) as string"
};
static const int NT = sizeof T / sizeof *T;
static const char* names[] = {"x", "y", "z", "i", "k", "f", "g", "h", "l", "s", "t", "n", "u"};
static std::string sub(const char* t, const char* pre) { std::string r; for (; *t; t++) if (*t == '@') r += pre; else r += *t; return r; }
static bool same(const Value& p, const Value& q) {
    if (p.type != q.type) return false;
    if (p.isa(VT::Int)) return p.as<VT::Int>() == q.as<VT::Int>(); if (p.isa(VT::Float)) return sameD(p.as<VT::Float>(), q.as<VT::Float>()); if (p.isa(VT::Bool)) return p.as<VT::Bool>() == q.as<VT::Bool>(); if (p.isa(VT::String)) return p.as<VT::String>() == q.as<VT::String>();
    if (p.isa(VT::TransientObject)) return p.toString() == q.toString(); if (p.isa(VT::Object) || p.isa(VT::Array)) return p.node && q.node && p.node->addr() == q.node->addr(); return true;
}
static model_ptr<Object> fill(W& w, const char* tag, int depth) {
    auto o = w.m->newObject(12); std::string n(tag); int conc = (int)sx_param("CONC", 0);
    for (int i = 0; i < 3; i++) o->addField(names[i], conc ? int64_t(i + 1 + depth) : (int64_t)sx_range(0, 9, (n + names[i]).c_str()));
    o->addField("i", int64_t(depth)); o->addField("k", std::string_view(depth ? "x" : "y")); if (depth) { o->addField("f", fill(w, (n + "f").c_str(), depth - 1)); }
    o->addField("h", std::string_view("abc")); { auto a = w.m->newArray(2); for (int i = 0; i < 2; i++) a->append(int64_t(i + depth)); o->addField("l", a); }
    o->addField("s", std::string_view(depth ? "a,b" : "c;d")); o->addField("t", std::string_view(depth ? "," : ";")); o->addBool("n", false); o->addField("u", ModelNode::Ptr{}); return o;
}
static void present(std::vector<Value>& v) { std::vector<Value> r; for (auto& x : v) if (!x.isa(VT::Null) || x.node) r.push_back(x); if (r.empty()) r.push_back(Value::null()); v.swap(r); }   // a path drops what does not exist
void sx_main() {
    int from = (int)sx_param("FROM", 0), to = std::min<int>((int)sx_param("TO", NT - 1), NT - 1), t = (int)sx_choose((uint64_t)from, (uint64_t)to, "template (counted from FROM)"), place = (int)sx_choose(0, 3, "place");
    W w; auto o = fill(w, "o.", 1); auto p = fill(w, "p.", 1); for (int i = 0; i < 3; i++) w.o->addField(names[i], int64_t(1000 + i)); w.o->addField("s", std::string_view("zzz")); w.o->addField("i", int64_t(7)); w.o->addField("o", o);
    { auto a = w.m->newArray(2); a->append(o); a->append(p); w.o->addField("a", a); }
    std::string q = T[t]; if (sx_param("COMP", 0)) { int u = (int)sx_choose(0, NT - 1, "operand"); std::string in = std::string("(") + T[u] + ")"; for (size_t i = 0; (i = q.find("@x", i)) != q.npos; i += in.size()) q.replace(i, 2, in); }
    R want = w.run(sub(q.c_str(), "o.")), r; obs(want);
    bool plain = true; for (size_t i = 0; i < q.size(); i++) { if (q[i] == '@') plain = plain && (i + 1 < q.size() && std::string("xyzikhstnu").find(q[i + 1]) != std::string::npos); if (q[i] == '[' || q[i] == '{') plain = false; } plain = plain && q.find("trace") == q.npos && q.find('_') == q.npos;
    if (plain && place == 0) {                  // the operands as constants, which are no nodes
        for (auto nm : names) if (auto p = o->get(w.m->strings()->get(nm))) { std::string cn = std::string("c") + nm; std::visit([&](auto&& x) { using X = std::decay_t<decltype(x)>; if constexpr (std::is_same_v<X, std::monostate>) w.env.constants.emplace(cn, Value::null()); else if constexpr (std::is_same_v<X, std::string_view> || std::is_same_v<X, std::string>) w.env.constants.emplace(cn, Value::make(std::string(x))); else w.env.constants.emplace(cn, Value::make(x)); }, p->value()); }
        R c = w.run(sub(q.c_str(), "c")); sx_reach("constants"); sx_assert(c.err == want.err, "errors are those of constants"); if (!c.err) { R x = want; present(c.v); present(x.v); sx_assert(c.v.size() == x.v.size(), "as many values as of constants"); for (size_t i = 0; i < c.v.size(); i++) sx_assert(same(c.v[i], x.v[i]), "the values are those of constants"); }
    }
    if (place == 0) { r = w.run("o.(" + sub(q.c_str(), "") + ")"); sx_reach("path"); }
    else if (place == 1) { r = w.run("o.(" + sub(q.c_str(), "_.") + ")"); present(want.v); }
    else if (place == 2) {                     // a filter: one truth of all its values
        r = w.run("o{" + sub(q.c_str(), "") + "}"); sx_reach("filter");
        sx_assert(r.err == want.err, "errors stay"); if (r.err) return;
        R b = w.run("any(" + sub(q.c_str(), "o.") + ")");
        bool yes = b.v.size() == 1 && b.v[0].isa(VT::Bool) && b.v[0].as<VT::Bool>();
        R c = w.run("count(" + sub(q.c_str(), "o.") + ")"); int64_t n = !c.err && c.v.size() == 1 && c.v[0].isa(VT::Int) ? c.v[0].as<VT::Int>() : -1;
        size_t objs = 0; for (auto& v : r.v) objs += v.isa(VT::Object) && v.node && v.node->addr() == o->addr();
        sx_assert((objs > 0) == yes, "o is selected iff the condition is true"); sx_assert(n >= 0 && objs == (size_t)n, "once for each true value"); return;
    } else {                                    // for each of several nodes
        R second = w.run(sub(q.c_str(), "a[1]."));  r = w.run("a.*.(" + sub(q.c_str(), "") + ")"); if (want.err || second.err) { sx_assert(r.err, "errors stay"); return; }
        sx_reach("nodes"); bool ok = !r.err; std::vector<Value> all(want.v); for (auto& v : second.v) all.push_back(v); present(all); size_t n = all.size();
        sx_assert(ok && r.v.size() == n, "the number of values for both"); for (size_t i = 0; i < n; i++) sx_assert(same(r.v[i], all[i]), "the values for both"); return;
    }
    sx_assert(r.err == want.err, "errors stay"); if (r.err) { sx_reach("error"); return; }
    if (place == 0) present(want.v); sx_assert(r.v.size() == want.v.size(), "the number of values"); for (size_t i = 0; i < r.v.size(); i++) sx_assert(same(r.v[i], want.v[i]), "the values");
}
