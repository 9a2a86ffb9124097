// Objects keep their fields in order, fields are found by name; arrays keep their elements; all independently of each other.
#include "m.h"
struct F { std::string n; int64_t v; };
static std::shared_ptr<ModelPool> m;
static int64_t num(const Ptr& p) { sx_assert(p && p->type() == VT::Int, "a number"); return std::get<int64_t>(p->value()); }
static void check(const ModelNode& o, const std::vector<F>& f, bool object, bool full) {
    sx_assert(o.size() == f.size(), "size"); sx_assert(o.type() == (object ? VT::Object : VT::Array), "type");
    for (size_t i = 0; i < f.size(); i++) {
        sx_assert(num(o.at(i)) == f[i].v, "members in order");
        if (!object) continue;
        auto nm = m->lookupStringId(o.keyAt(i)); sx_assert(nm && sameName(f[i].n, *nm), "names in order");
        size_t first = 0; while (!sameName(f[first].n, f[i].n)) first++; sx_assert(num(o.get(o.keyAt(i))) == f[first].v, "a field is found by its name, the first one if there are several");
    }
    if (!full) return;
    int64_t k = sx_i64("index"); sx_assume((k < 0) | (k >= (int64_t)f.size())); sx_assert(!o.at(k), "no member out of range"); if (object) sx_assert(o.keyAt(k) == StringPool::Empty, "no name out of range");
    size_t n = 0; for (Ptr x : o) { sx_assert(n < f.size() && num(x) == f[n].v, "begin and end"); n++; } sx_assert(n == f.size(), "begin and end visit all");
    n = 0; sx_assert(o.iterate(ModelNode::IterLambda([&](const ModelNode& x) { sx_assert(n < f.size() && std::get<int64_t>(x.value()) == f[n].v, "iterate"); n++; return true; })), "iterate is not stopped"); sx_assert(n == f.size(), "iterate visits all");
    for (size_t stop = 1; stop <= f.size(); stop++) { n = 0; sx_assert(!o.iterate(ModelNode::IterLambda([&](const ModelNode&) { return ++n < stop; })), "iterate tells that it was stopped"); sx_assert(n == stop, "iterate stops"); }
    if (!object) return;
    n = 0; for (auto&& [id, x] : o.fields()) { sx_assert(n < f.size() && id == o.keyAt(n) && num(x) == f[n].v, "fields"); n++; } sx_assert(n == f.size(), "fields visits all");
    n = 0; for (StringId id : o.fieldNames()) { sx_assert(n < f.size() && id == o.keyAt(n), "field names"); n++; } sx_assert(n == f.size(), "field names visits all");
}
static void large(size_t n) {             // sizes that need more than 16 bits
    m = std::make_shared<ModelPool>(); auto o = m->newObject(sx_param("CAP", 2)); auto a = m->newArray(sx_param("CAP", 2)); bool object = sx_param("OBJ", 1); int64_t v = sx_i64("value"); sx_assume(v > 70000); size_t at = n - sx_choose(1, 2, "before the end");
    for (size_t i = 0; i < n; i++) if (object) { if (i == at) o->addField("last", v); else o->addField("n", uint16_t(i * 3)); } else { if (i == at) a->append(v); else a->append(uint16_t(i * 3)); }
    const ModelNode& x = object ? (const ModelNode&)*o : (const ModelNode&)*a; auto is = [&](const Ptr& p, size_t i) { auto s = p->value(); return std::holds_alternative<int64_t>(s) && std::get<int64_t>(s) == (i == at ? v : (int64_t)uint16_t(i * 3)); };
    sx_assert(x.size() == n, "size"); for (size_t i : {size_t(0), size_t(1), n / 2, n - 2, n - 1, size_t(65535), size_t(65536)}) sx_assert(is(x.at((int64_t)i), i), "members in order"); sx_assert(!x.at((int64_t)n), "no member out of range");
    size_t k = 0; sx_assert(x.iterate(ModelNode::IterLambda([&](const ModelNode& y) { if (k == at) sx_assert(std::get<int64_t>(y.value()) == v, "iterate"); k++; return true; })), "iterate is not stopped"); sx_assert(k == n, "iterate visits all");
    if (object) { auto p = o->get(std::string_view("last")); sx_assert(p && is(p, at), "a field is found by its name"); } sx_reach("large"); sx_observe(v); m.reset();
}
void sx_main() {
    if (sx_param("LARGE", 0)) return large((size_t)sx_param("LARGE", 0));
    int n = (int)sx_param("N", 4), len = (int)sx_param("L", 1), object = (int)sx_param("OBJ", 1); m = std::make_shared<ModelPool>();
    std::vector<F> f[2]; model_ptr<Object> o[2] = {m->newObject(sx_choose(0, 2, "capacity")), m->newObject(1)}; model_ptr<Array> a[2] = {m->newArray(sx_choose(0, 2, "capacity")), m->newArray(1)};
    for (int i = 0; i < n; i++) {
        int t = (int)sx_choose(0, 2, "target"); if (t == 2) { sx_reach("extend"); int d = (int)sx_choose(0, 1, "self"); if (object) o[0]->extend(o[d]); else a[0]->extend(a[d]); auto g = f[d]; f[0].insert(f[0].end(), g.begin(), g.end()); continue; }
        std::string s; if (object) { s = sx_string(len, "name"); o[t]->addField(s, int64_t(100000 + i)); } else a[t]->append(int64_t(100000 + i));
        f[t].push_back({s, 100000 + i});
    }
    for (int t = 0; t < 2; t++) {
        sx_reach(object ? "object" : "array"); if (object) check(*o[t], f[t], true, true); else check(*a[t], f[t], false, true);
        Ptr p = object ? Ptr(o[t]) : Ptr(a[t]); m->addRoot(p); check(*m->root(t), f[t], object, false); if (object) check(*m->resolveObject(m->root(t)), f[t], true, false); else check(*m->resolveArray(m->root(t)), f[t], false, false);
        bool thrown = false; try { if (object) (void)m->resolveArray(p); else (void)m->resolveObject(p); } catch (std::runtime_error&) { thrown = true; } sx_assert(thrown, "resolving as the wrong type is an error");
    }
    if (object) {
        std::string s = sx_string(len, "probe"); const F* hit = nullptr; for (auto& x : f[0]) if (sameName(x.n, s)) { hit = &x; break; }
        Ptr p = o[0]->get(s); sx_assert((bool)p == (hit != nullptr), "get by name finds exactly the fields"); if (hit) sx_assert(num(p) == hit->v, "get by name finds the first"); sx_observe(hit ? hit->v : 0);
        StringId id = (StringId)sx_var(16, "id"); bool any = false; for (size_t i = 0; i < f[0].size(); i++) any = any | (o[0]->keyAt(i) == id); Ptr q = o[0]->get(id); sx_assert((bool)q == any, "get by id finds exactly the fields");
    }
    sx_observe(f[0].size()); m.reset();
}
