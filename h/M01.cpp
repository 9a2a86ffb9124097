// Every value stored in a model reads back, from wherever it is stored and however it is reached.
#include "m.h"
static void everywhere(const std::shared_ptr<ModelPool>& m, const std::vector<MV>& v) {
    sx_assert(m->numRoots() == v.size() + 2, "as many roots");
    Ptr o = m->root(v.size()), a = m->root(v.size() + 1); sx_assert(o->type() == VT::Object && a->type() == VT::Array, "types of containers");
    sx_assert(std::holds_alternative<std::monostate>(o->value()) && std::holds_alternative<std::monostate>(a->value()), "containers have no scalar value");
    sx_assert(o->size() == 2 * v.size() && a->size() == 2 * v.size(), "as many members");
    for (size_t i = 0; i < v.size(); i++) {
        reads(m->root(i), v[i]); reads(o->at(2 * i), v[i]); reads(o->at(2 * i + 1), v[i]); reads(a->at(2 * i), v[i]); reads(a->at(2 * i + 1), v[i]);
        StringId id = o->keyAt(2 * i); reads(o->get(id), v[i]); auto name = m->lookupStringId(id); sx_assert(name && sameText(std::string("f") + (char)('0' + i), *name), "field names");
    }
    for (Ptr c : {o, a}) {
        size_t n = 0; c->iterate(ModelNode::IterLambda([&](const ModelNode& x) { sx_assert(n < 2 * v.size(), "iterate"); reads(x, v[n / 2]); n++; return true; })); sx_assert(n == 2 * v.size(), "iterate visits all");
        n = 0; for (Ptr x : *c) { sx_assert(n < 2 * v.size(), "begin and end"); reads(x, v[n / 2]); n++; } sx_assert(n == 2 * v.size(), "begin and end visit all");
    }
    bool thrown = false; size_t k = (size_t)sx_i64("root"); sx_assume(k >= v.size() + 2); try { (void)m->root(k); } catch (std::runtime_error&) { thrown = true; } sx_assert(thrown, "roots out of range are errors");
}
static void large() {                        // many values of every kind, and long texts
    auto m = std::make_shared<ModelPool>(); const int N = (int)sx_param("LARGE", 300); size_t L = (size_t)sx_param("TEXT", 66000); std::vector<MV> v(N); MV x = msym((int)sx_choose(0, MKCOUNT - 1, "kind"), "value", 2); static const int P[] = {0, 1, 128, 255, 256, 299}; int at = P[sx_choose(0, 5, "position")];
    auto a = m->newArray(1); auto o = m->newObject(1);
    for (int i = 0; i < N; i++) {
        MV& y = v[i]; y.k = i % MKCOUNT; y.i = y.k == MBool ? i % 2 : y.k == MI16 ? -i : y.k == MU16 ? i * 200 : 100000 + (int64_t)i * 4294967296ll; y.d = i / 8.0; if (y.k == MStr) y.s = std::string(i == 5 ? L : (size_t)i, (char)('a' + i % 26)) + "." + std::to_string(i);
        if (i == at) y = x; if (i == 12) { y = x; y.k = MStr; y.s = std::string(L, 'z') + x.s; }
        add(*m, a, y); add(*m, o, "f" + std::to_string(i), y); m->addRoot(node(*m, y));
    }
    m->addRoot(a); sx_assert(m->numRoots() == (size_t)N + 1 && a->size() == (size_t)N && o->size() == (size_t)N, "the number of many values"); sx_reach("stored");
    for (int i = 0; i < N; i++) { if (x.k == MInt && i == at) { Ptr p = m->root(i); auto s = p->value(); sx_assert(std::holds_alternative<int64_t>(s) && std::get<int64_t>(s) == x.i, "one of many values"); } reads(m->root(i), v[i]); reads(a->at(i), v[i]); reads(o->at(i), v[i]); }
    sx_assert(m->checkForErrors().empty(), "no errors"); mobs(x);
}
void sx_main() {
    if (sx_param("LARGE", 0)) { large(); return; }
    int n = (int)sx_param("N", 1); auto m = std::make_shared<ModelPool>(); std::vector<MV> v; auto o = m->newObject(1); auto a = m->newArray(1);
    for (int i = 0; i < n; i++) { int k = (int)sx_choose(0, MKCOUNT - 1, "kind"); v.push_back(msym(k, "value", k == MStr ? sx_choose(0, 2, "length") : 0)); }
    for (auto& x : v) m->addRoot(node(*m, x));
    for (int i = 0; i < n; i++) { std::string f = std::string("f") + (char)('0' + i); add(*m, o, f, v[i]); add(*m, o, f + "b", v[i], true); add(*m, a, v[i]); add(*m, a, v[i], true); }
    m->addRoot(o); m->addRoot(a); sx_reach("stored"); everywhere(m, v); sx_assert(m->checkForErrors().empty(), "no errors"); m->validate();
    { auto keep = m->root(0); auto e = a->at(0); std::weak_ptr<ModelPool> w = m; m.reset(); sx_assert(!w.expired(), "nodes keep their model alive"); reads(keep, v[0]); reads(e, v[0]); }
    for (auto& x : v) mobs(x);
}
