// Objects with procedural fields, in a model with node types of its own.
#include "m.h"
class Pool;
struct Proc : public ProceduralObject<2, Proc, Pool> {
    template <typename> friend struct simfil::model_ptr; friend class Pool;
    Proc() = default;
    Proc(ModelConstPtr p, ModelNodeAddress a, int n); Proc(ArrayIndex i, ModelConstPtr p, ModelNodeAddress a, int n);
    void fill(int n);
};
class Pool : public ModelPool {
public:
    int procedural = 0; ArrayIndex members = InvalidArrayIndex; int64_t v[4]; StringId ids[4];
    enum { ProcColumn = FirstCustomColumnId };
    void resolve(ModelNode const& n, ResolveFn const& cb) const override { if (n.addr().column() == ProcColumn) cb(*proc()); else ModelPool::resolve(n, cb); }
    model_ptr<Proc> proc() const { ModelNodeAddress a{ProcColumn, 7}; return members == InvalidArrayIndex ? model_ptr<Proc>::make(shared_from_this(), a, procedural) : model_ptr<Proc>::make(members, shared_from_this(), a, procedural); }
    ArrayIndex stored() { return objectMemberStorage().new_array(1); }
};
void Proc::fill(int n) { for (int i = 0; i < n; i++) { auto& p = model(); int64_t x = p.v[i]; fields_.emplace_back(p.ids[i], [x](Proc const& self) { return self.model().newValue(x); }); } }
Proc::Proc(ModelConstPtr p, ModelNodeAddress a, int n) : ProceduralObject(p, a) { fill(n); }
Proc::Proc(ArrayIndex i, ModelConstPtr p, ModelNodeAddress a, int n) : ProceduralObject(i, p, a) { fill(n); }
static int64_t num(const Ptr& p) { sx_assert(p && p->type() == VT::Int, "a number"); return std::get<int64_t>(p->value()); }
static void check(const Pool& m, const ModelNode& o, const std::vector<int64_t>& v, const std::vector<std::string>& names) {
    sx_assert(o.type() == VT::Object && o.size() == v.size(), "size");
    for (size_t i = 0; i < v.size(); i++) {
        sx_assert(num(o.at(i)) == v[i], "procedural fields come first"); auto nm = m.lookupStringId(o.keyAt(i)); sx_assert(nm && sameName(names[i], *nm), "names");
        size_t first = 0; while (!sameName(names[first], names[i])) first++; sx_assert(num(o.get(o.keyAt(i))) == v[first], "found by name");
    }
    int64_t k = sx_i64("index"); sx_assume((k < 0) | (k >= (int64_t)v.size())); sx_assert(!o.at(k) && o.keyAt(k) == StringPool::Empty, "nothing out of range");
    size_t n = 0; sx_assert(o.iterate(ModelNode::IterLambda([&](const ModelNode& x) { sx_assert(n < v.size() && std::get<int64_t>(x.value()) == v[n], "iterate"); n++; return true; })), "iterate is not stopped"); sx_assert(n == v.size(), "iterate visits all");
    for (size_t stop = 1; stop <= v.size(); stop++) { n = 0; sx_assert(!o.iterate(ModelNode::IterLambda([&](const ModelNode&) { return ++n < stop; })), "iterate tells that it was stopped"); sx_assert(n == stop, "iterate stops"); }
    n = 0; for (auto&& [id, x] : o.fields()) { sx_assert(n < v.size() && id == o.keyAt(n) && num(x) == v[n], "fields"); n++; } sx_assert(n == v.size(), "fields visits all");
}
void sx_main() {
    static const char* const names[] = {"p", "q", "s", "P", "t"}; auto m = std::make_shared<Pool>();
    int np = (int)sx_choose(0, (uint64_t)sx_param("P", 3), "procedural"), ns = (int)sx_choose(0, (uint64_t)sx_param("S", 2) + 1, "stored") - 1; std::vector<int64_t> v; std::vector<std::string> nm;
    for (int i = 0; i < np; i++) { m->v[i] = 200000 + i; m->ids[i] = m->strings()->emplace(names[i]); v.push_back(m->v[i]); nm.push_back(names[i]); }
    m->procedural = np; if (ns >= 0) m->members = m->stored();
    auto p = m->proc(); for (int i = 0; i < ns; i++) { std::string s = names[sx_choose(0, 4, "name")]; int64_t x = sx_i64("value"); sx_assume(x > 70000); p->addField(s, x); v.push_back(x); nm.push_back(s); }
    sx_reach(ns < 0 ? "procedural only" : "both"); check(*m, *p, v, nm); m->addRoot(p); check(*m, *m->root(0), v, nm);
    auto a = m->newArray(1); a->append(p); check(*m, *a->at(0), v, nm); auto o = m->newObject(1); o->addField("in", p); check(*m, *o->get("IN"), v, nm); sx_assert(m->checkForErrors().empty(), "no errors");
    for (auto x : v) sx_observe((uint64_t)x);
}
