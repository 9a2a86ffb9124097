// Exporting to JSON gives the same values; fields of the same name become arrays.
#include "m.h"
#include <nlohmann/json.hpp>
typedef nlohmann::json J;
struct E; struct T { int k = 0; MV v; std::vector<E> f; T(); T(const T&); T& operator=(const T&); ~T(); }; struct E { std::string name; T t; };
T::T() = default; T::T(const T&) = default; T& T::operator=(const T&) = default; T::~T() = default;
static std::shared_ptr<ModelPool> m;
static Ptr gen(T& t, int depth) {
    t.k = depth > 0 ? (int)sx_choose(0, 2, "shape") : 0;
    if (!t.k) { int kind = sx_param("TOP", 0) ? (sx_choose(0, 1, "kind") ? MU16 : MNull) : (int)sx_choose(0, MKCOUNT - 1, "kind"); t.v = msym(kind, "value", kind == MStr ? sx_choose(0, 2, "length") : 0); return node(*m, t.v); }
    int n = (int)sx_choose(0, depth > 1 ? depth == sx_param("D", 1) && sx_param("TOP", 0) ? sx_param("TOP", 0) : 1 : (int)sx_param("W", 2), "members"); static const char* names[] = {"a", "b", "A", "_multimap"};
    if (t.k == 1) {
        auto o = m->newObject(1);
        for (int i = 0; i < n; i++) { E e; e.name = names[sx_choose(0, 3, "name")]; Ptr p = gen(e.t, depth - 1); o->addField(e.name, p); for (auto& x : t.f) if (sameName(x.name, e.name)) e.name = x.name; t.f.push_back(e); }
        return o;
    }
    auto a = m->newArray(1); for (int i = 0; i < n; i++) { E e; Ptr p = gen(e.t, depth - 1); a->append(p); t.f.push_back(e); } return a;
}
static std::string spell(const std::string& n) { auto id = m->strings()->get(n); auto s = m->strings()->resolve(id); sx_assert(s.has_value(), "a name"); return std::string(*s); }
static void check(const J& j, const T& t) {
    if (t.k == 2) { sx_assert(j.is_array() && j.size() == t.f.size(), "an array"); for (size_t i = 0; i < t.f.size(); i++) check(j[i], t.f[i].t); return; }
    if (t.k == 1) {
        sx_assert(j.is_object(), "an object"); bool dup = false; size_t distinct = 0;
        for (size_t i = 0; i < t.f.size(); i++) { bool first = true; for (size_t k = 0; k < i; k++) if (t.f[k].name == t.f[i].name) first = false; distinct += first; dup |= !first; }
        if (!dup) { sx_reach("object"); sx_assert(j.size() == distinct, "the number of fields"); for (auto& e : t.f) { auto it = j.find(spell(e.name)); sx_assert(it != j.end(), "a field"); check(*it, e.t); } return; }
        sx_reach("multimap"); bool own = false; for (auto& e : t.f) own |= sameName("_multimap", e.name);
        if (own) return;                                       // the marker takes the place of a field of that name
        sx_assert(j.size() == distinct + 1 && j.contains("_multimap") && j["_multimap"].is_boolean() && j["_multimap"].get<bool>(), "the multimap marker");
        for (size_t i = 0; i < t.f.size(); i++) { size_t at = 0, all = 0; for (size_t k = 0; k < t.f.size(); k++) if (t.f[k].name == t.f[i].name) { all++; if (k < i) at++; } auto it = j.find(spell(t.f[i].name)); sx_assert(it != j.end() && it->is_array() && it->size() == all, "all values of a name"); check((*it)[at], t.f[i].t); }
        return;
    }
    switch (t.v.k) {
    case MInt: case MU16: case MI16: sx_assert(j.is_number_integer() && j.get<int64_t>() == t.v.i, "an integer"); break;
    case MBool: sx_assert(j.is_boolean() && j.get<bool>() == (bool)t.v.i, "a bool"); break;
    case MDouble: sx_assert(j.is_number_float() && dbits(j.get<double>()) == dbits(t.v.d), "a float"); break;
    case MStr: sx_assert(j.is_string() && sameText(t.v.s, j.get_ref<const std::string&>()), "a string"); break;
    default: sx_assert(j.is_null(), "null");
    }
    mobs(t.v);
}
static void large() {                        // many members, many values of one name, deep nesting, long texts
    m = std::make_shared<ModelPool>(); const int N = (int)sx_param("LARGE", 300), D = 60; static const int P[] = {0, 255, 299}; int at = P[sx_choose(0, 2, "position")]; T x; x.v = msym((int)sx_choose(0, MKCOUNT - 1, "kind"), "value", 2); MV t; t.k = MStr; t.s = std::string(3000, 't');
    T top, l, o, d, mm; top.k = 1; l.k = 2; o.k = 1; mm.k = 1; auto r = m->newObject(1), po = m->newObject(1), pm = m->newObject(1); auto pl = m->newArray(1);
    for (int i = 0; i < N; i++) { T y = x; if (i != at) { y.v = MV(); y.v.k = MInt; y.v.i = i * 300; } std::string f = "f" + std::to_string(i); pl->append(node(*m, y.v)); l.f.push_back(E{"", y}); po->addField(f, node(*m, y.v)); o.f.push_back(E{f, y}); pm->addField(i % 2 ? "one" : "two", node(*m, y.v)); mm.f.push_back(E{i % 2 ? "one" : "two", y}); }
    Ptr pd = node(*m, x.v); d = x; for (int i = 0; i < D; i++) { T u; u.k = i % 2 ? 2 : 1; u.f.push_back(E{"k", d}); d = u; if (i % 2) { auto a = m->newArray(1); a->append(pd); pd = a; } else { auto q = m->newObject(1); q->addField("k", pd); pd = q; } }
    r->addField("list", Ptr(pl)); r->addField("object", Ptr(po)); r->addField("multi", Ptr(pm)); r->addField("deep", pd); r->addField("text", node(*m, t)); top.f = {E{"list", l}, E{"object", o}, E{"multi", mm}, E{"deep", d}}; T tt; tt.v = t; top.f.push_back(E{"text", tt});
    m->addRoot(Ptr(r)); J j = m->root(0)->toJson(); check(j, top); m.reset();
}
void sx_main() {
    if (sx_param("LARGE", 0)) { large(); return; }
    m = std::make_shared<ModelPool>(); T t[2]; int roots = (int)sx_param("ROOTS", 1);
    for (int i = 0; i < roots; i++) m->addRoot(gen(t[i], (int)sx_param("D", 1)));
    J j = m->toJson(); sx_assert(j.is_array() && j.size() == (size_t)roots, "an array of all roots"); for (int i = 0; i < roots; i++) { check(j[i], t[i]); check(m->root(i)->toJson(), t[i]); }
    sx_observe(j.size()); m.reset();
}
