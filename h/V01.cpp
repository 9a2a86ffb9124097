// An overlay adds fields to a value, hides fields of the same name, and leaves everything else alone.
#include "m.h"
#include "simfil/overlay.h"
static size_t stopAt;
struct S { StringId k; int kind; MV v; };
static void same(const ModelNode& x, const ModelNode& y) {       // the same members, in all ways but get
    sx_assert(x.size() == y.size(), "size");
    for (int64_t i = -1; i <= (int64_t)y.size(); i++) { sx_assert(x.keyAt(i) == y.keyAt(i), "names"); auto a = x.at(i), b = y.at(i); sx_assert((bool)a == (bool)b, "members"); if (a) sx_assert(a->addr().value_ == b->addr().value_ && a->type() == b->type(), "the same members"); }
    std::vector<uint32_t> a, b; size_t stop = stopAt;
    bool ra = x.iterate(ModelNode::IterLambda([&](const ModelNode& n) { a.push_back(n.addr().value_); return a.size() < stop; })), rb = y.iterate(ModelNode::IterLambda([&](const ModelNode& n) { b.push_back(n.addr().value_); return b.size() < stop; }));
    sx_assert(ra == rb && a == b, "iterate");
}
static void large() {                        // many fields set over an object with many fields
    auto m = std::make_shared<ModelPool>(); const int N = (int)sx_param("LARGE", 300); auto o = m->newObject(1); std::vector<StringId> id; for (int i = 0; i < N; i++) { std::string f = "f" + std::to_string(i); o->addField(f, int64_t(70000 + i)); id.push_back(m->strings()->get(f)); }
    for (int i = 0; i < N; i++) id.push_back(m->strings()->emplace("g" + std::to_string(i))); Ptr node = o; stopAt = N / 2; auto ov = model_ptr<OverlayNode>::make(Value::field(o)); MV x = msym(MInt, "value"); int skip = (int)sx_choose(0, 2, "left out");
    for (size_t i = 0; i < id.size(); i++) if (i % 3 != (size_t)skip) ov->set(id[i], Value::make((int64_t)((uint64_t)x.i + i)));
    sx_reach("set"); sx_reach("below"); sx_reach("node"); sx_reach("scalar"); same(*ov, *node);
    for (size_t i = 0; i < id.size(); i++) { Ptr g = ov->get(id[i]); MV w; w.k = MInt; w.i = i % 3 != (size_t)skip ? (int64_t)((uint64_t)x.i + i) : 70000 + (int64_t)i; if (i % 3 == (size_t)skip && i >= (size_t)N) sx_assert(!g, "other fields are not found"); else { sx_assert((bool)g, "a field of many"); ScalarValueType v = g->value(); sx_assert(std::holds_alternative<int64_t>(v) && std::get<int64_t>(v) == w.i, "the value of a field of many"); } }
    mobs(x);
}
void sx_main() {
    if (sx_param("LARGE", 0)) { large(); return; }
    auto m = std::make_shared<ModelPool>(); int n = (int)sx_param("N", 2); std::vector<std::string> names{"aa", "bb"}; std::vector<MV> base;
    int kind = (int)sx_choose(0, 3, "base"); stopAt = kind < 2 ? 1 : (size_t)sx_choose(1, 3, "stop"); Value val = Value::null(); Ptr node;
    if (kind == 0) { base.push_back(msym(sx_choose(0, MKCOUNT - 1, "kind"), "value", 1)); auto& b = base[0]; if (b.k == MInt || b.k == MU16 || b.k == MI16) val = Value::make(b.i); else if (b.k == MDouble) val = Value::make(b.d); else if (b.k == MBool) val = Value::make((bool)b.i); else if (b.k == MStr) val = Value::make(std::string_view(b.s)); }
    else if (kind == 1) { base.push_back(msym(sx_choose(0, MKCOUNT - 2, "kind"), "value", 1)); node = simfil::model_ptr<ModelNode>(::node(*m, base[0])); val = Value::field(node); }
    else if (kind == 2) { auto o = m->newObject(2); int c = (int)sx_choose(0, 2, "fields"); for (int i = 0; i < c; i++) { base.push_back(msym(MInt, "value")); sx_assume(base[i].i > 70000); o->addField(names[i], base[i].i); } node = o; val = Value::field(o); }
    else { auto a = m->newArray(2); int c = (int)sx_choose(0, 2, "elements"); for (int i = 0; i < c; i++) { base.push_back(msym(MInt, "value")); sx_assume(base[i].i > 70000); a->append(base[i].i); } node = a; val = Value::field(a); }
    sx_reach(kind < 2 ? "scalar" : "node");
    model_ptr<OverlayNode> o[2] = {model_ptr<OverlayNode>::make(val), model_ptr<OverlayNode>::make(val)}; std::vector<S> sets; auto aa = m->strings()->emplace("aa"); std::vector<StringId> ids{aa, (StringId)(aa + 1), StringPool::OverlaySum, StringPool::OverlayValue, 7777};
    m->strings()->emplace("bb");
    for (int i = 0; i < n; i++) {
        S s{ids[sx_choose(0, 4, "key")], (int)sx_choose(0, 2, "child"), {}}; Value c = Value::null();
        if (s.kind == 0) { s.v = msym(MInt, "child value"); c = Value::make(s.v.i); } else if (s.kind == 1) { s.v = msym(MStr, "child value", 1); c = Value::field(::node(*m, s.v)); } else s.v.k = MNull;
        o[0]->set(s.k, c); std::erase_if(sets, [&](auto& x) { return x.k == s.k; }); sets.push_back(s);
    }
    Ptr ptr = o[0]; Value asValue = Value::field(o[0]);
    for (int w = 0; w < 3; w++) {
        const ModelNode& x = w == 0 ? (const ModelNode&)*o[0] : w == 1 ? (const ModelNode&)*ptr : (const ModelNode&)*asValue.node;
        sx_assert(x.type() == VT::Object, "an overlay is an object");
        if (node) same(x, *node); else { sx_assert(x.size() == 0 && !x.at(0) && x.keyAt(0) == StringPool::Empty, "no members"); bool any = false; sx_assert(x.iterate(ModelNode::IterLambda([&](auto&&) { any = true; return true; })) && !any, "nothing to iterate"); }
        for (auto id : ids) {
            const S* hit = nullptr; for (auto& s : sets) if (s.k == id) hit = &s;
            Ptr g = x.get(id);
            if (hit) { sx_reach("set"); sx_assert((bool)g, "a field that was set is found"); reads(*g, hit->v); }
            else if (kind == 2 && id >= ids[0] && id < ids[0] + base.size()) { sx_reach("below"); reads(g, base[id - ids[0]]); }
            else sx_assert(!g, "other fields are not found");
        }
        if (kind < 2) { ScalarValueType v = x.value(); const MV& b = base[0]; if (b.k == MStr) { auto p = std::get_if<std::string_view>(&v); auto q = std::get_if<std::string>(&v); sx_assert((p && sameText(b.s, *p)) || (q && sameText(b.s, *q)), "the scalar"); } else if (b.k == MDouble) sx_assert(std::holds_alternative<double>(v) && dbits(std::get<double>(v)) == dbits(b.d), "the scalar"); else if (b.k == MBool) sx_assert(std::holds_alternative<bool>(v) && std::get<bool>(v) == (bool)b.i, "the scalar"); else if (b.k == MNull) sx_assert(std::holds_alternative<std::monostate>(v), "the scalar"); else sx_assert(std::holds_alternative<int64_t>(v) && std::get<int64_t>(v) == b.i, "the scalar"); mobs(b); }
    }
    for (auto id : ids) { Ptr g = o[1]->get(id); bool below = kind == 2 && id >= ids[0] && id < ids[0] + base.size(); sx_assert((bool)g == below, "another overlay of the same value is not affected"); }
    if (kind == 2) for (size_t i = 0; i < base.size(); i++) reads(node->get(ids[i]), base[i]);
    sx_observe(sets.size());
}
