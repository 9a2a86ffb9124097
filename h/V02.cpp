// Values and value nodes hold exactly what they are made of; a node without a model is null; addresses keep column and index.
#include "m.h"
#include "simfil/value.h"
#include "simfil/types.h"
#include "simfil/overlay.h"
struct Seen { int k = -1; int64_t i = 0; double d = 0; std::string s; };
struct Look { Seen* o; void operator()(UndefinedType) { o->k = 10; } void operator()(NullType) { o->k = MNull; } void operator()(bool b) { o->k = MBool; o->i = b; } void operator()(int64_t i) { o->k = MInt; o->i = i; } void operator()(double d) { o->k = MDouble; o->d = d; } void operator()(const std::string& s) { o->k = MStr; o->s = s; } void operator()(const TransientObject&) { o->k = 11; } void operator()(const ModelNode& n) { o->k = 12; o->i = n.addr().value_; } };
static int norm(int k) { return k == MU16 || k == MI16 ? MInt : k; }
static bool sameScalar(const ScalarValueType& x, const MV& v) {
    switch (norm(v.k)) { case MInt: { auto p = std::get_if<int64_t>(&x); return p && *p == v.i; } case MBool: { auto p = std::get_if<bool>(&x); return p && *p == (bool)v.i; } case MDouble: { auto p = std::get_if<double>(&x); return p && dbits(*p) == dbits(v.d); }
    case MStr: { auto p = std::get_if<std::string>(&x); auto q = std::get_if<std::string_view>(&x); return (p && sameText(v.s, *p)) || (q && sameText(v.s, *q)); } default: return std::holds_alternative<std::monostate>(x); }
}
static VT typeOf(const MV& v) { switch (norm(v.k)) { case MInt: return VT::Int; case MBool: return VT::Bool; case MDouble: return VT::Float; case MStr: return VT::String; default: return VT::Null; } }
static ScalarValueType scalar(const MV& v, bool view) { switch (norm(v.k)) { case MInt: return v.i; case MBool: return (bool)v.i; case MDouble: return v.d; case MStr: if (view) return std::string_view(v.s); return v.s; default: return std::monostate(); } }
static void holds(Value x, const MV& v, int k) {
    static const VT all[] = {VT::Undef, VT::Null, VT::Bool, VT::Int, VT::Float, VT::String, VT::TransientObject, VT::Object, VT::Array};
    for (VT t : all) sx_assert(x.isa(t) == (t == typeOf(v)), "exactly the type");
    Seen s; x.visit(Look{&s}); sx_assert(s.k == k, "visit gives the kind"); sx_assert(k != MInt || s.i == v.i, "an integer"); sx_assert(k != MBool || s.i == v.i, "a bool"); sx_assert(k != MDouble || dbits(s.d) == dbits(v.d), "a float"); sx_assert(k != MStr || sameText(v.s, s.s), "a string");
    if (k == MInt) sx_assert(x.as<VT::Int>() == v.i, "as int"); else if (k == MBool) sx_assert(x.as<VT::Bool>() == (bool)v.i, "as bool"); else if (k == MDouble) sx_assert(dbits(x.as<VT::Float>()) == dbits(v.d), "as float"); else if (k == MStr) sx_assert(sameText(v.s, x.as<VT::String>()), "as string");
    sx_assert(x.isBool(true) == (k == MBool && v.i) && x.isBool(false) == (k == MBool && !v.i), "isBool");
    sx_assert(sameScalar(x.getScalar(), v), "the scalar");
    auto n = getNumeric<double>(x); sx_assert(n.first == (k == MInt || k == MDouble), "numbers are numeric"); if (n.first) sx_assert(dbits(n.second) == dbits(k == MInt ? (double)v.i : v.d) || v.d != v.d, "the number");
    auto sv = x.stringViewValue(); sx_assert(!sv || (k == MStr && sameText(v.s, *sv)), "only strings have a view");
    if (k == MBool || k == MNull || k == MStr) { std::string t = x.toString(); sx_assert(sameText(k == MNull ? "null" : k == MStr ? v.s : v.i ? "true" : "false", t), "the spelling"); }
}
static void any(Value x, const MV& v) {
    int k = norm(v.k); holds(x, v, k); Value y = x; holds(y, v, k); holds(x, v, k); Value z = std::move(y); holds(z, v, k); Value u = Value::undef(); u = z; holds(u, v, k); u = Value::make(int64_t(7)); u = std::move(z); holds(u, v, k); u = static_cast<Value&>(u); holds(u, v, k);
}
void sx_main() {
    int part = (int)sx_param("PART", 0); auto m = std::make_shared<ModelPool>();
    if (part == 0) {                         // values
        int kind = (int)sx_choose(0, MKCOUNT - 1, "kind"); MV v = msym(kind, "value", kind == MStr ? sx_choose(0, 2, "length") : 0); bool view = kind == MStr && sx_choose(0, 1, "view"); int how = (int)sx_choose(0, 5, "how");
        ScalarValueType s = scalar(v, view);
        if (how == 0) { switch (norm(kind)) { case MInt: any(Value::make(v.i), v); break; case MBool: any(Value::make((bool)v.i), v); any(v.i ? Value::t() : Value::f(), v); break; case MDouble: any(Value::make(v.d), v); break; case MStr: if (view) { any(Value::make(std::string_view(v.s)), v); any(Value::strref(v.s), v); } else any(Value::make(std::string(v.s)), v); break; default: any(Value::null(), v); any(Value(VT::Null), v); } sx_reach("made"); }
        else if (how == 1) { ScalarValueType t = s; any(Value(std::move(t)), v); }
        else if (how == 2) { Ptr n = node(*m, v); if (!n) { sx_assert(v.k == MNull, "null has no node"); m->addRoot(n); return; } Value x = Value::field(*n); any(x, v); sx_assert(x.node && x.node->addr() == n->addr(), "the node"); Value y = Value::field(n); any(y, v); Value z = Value::field(std::move(*n)); any(z, v); reads(z.node, v); sx_reach("node"); }
        else if (how == 3) { ValueNode n(s); sx_assert(n.type() == typeOf(v) && sameScalar(n.value(), v), "a value node"); any(Value::field(n), v); sx_assert(n.size() == 0 && !n.at(0) && !n.get(0) && n.keyAt(0) == 0, "has no children"); model_ptr<ValueNode> p = model_ptr<ValueNode>::make(s, m); sx_assert(p->type() == typeOf(v) && sameScalar(p->value(), v), "a value node of a model"); Ptr b = p; sx_assert(b->type() == typeOf(v) && sameScalar(b->value(), v), "a value node as node"); ValueNode c(*b); sx_assert(c.type() == typeOf(v) && sameScalar(c.value(), v), "copied from a node"); sx_reach("value node"); }
        else if (how == 4) { Value x = Value::make(int64_t(3)); { auto o = m->newObject(1); add(*m, o, "a", v); Ptr n = o->get("a"); sx_assert((bool)n, "a field"); x = Value::field(*n); } any(x, v); m.reset(); any(x, v); reads(x.node, v); sx_reach("kept"); }
        else { auto a = m->newArray(2); add(*m, a, v); Ptr n = a->at(0); auto ov = model_ptr<OverlayNode>::make(Value::field(*n)); Value x = Value::field(ov); sx_assert(x.isa(VT::Object) && sameScalar(x.getScalar(), v), "an overlay is an object with the value below it"); }
        mobs(v);
    } else if (part == 1) {                  // addresses
        uint8_t c = (uint8_t)sx_var(8, "column"), d = (uint8_t)sx_var(8, "other column"); uint32_t i = (uint32_t)sx_var(32, "index"); ModelNodeAddress a{c, i}, e{c};
        sx_assert(a.column() == c && a.index() == (i & 0xffffff), "column and index"); sx_assert(a.uint16() == (uint16_t)i && a.int16() == (int16_t)i, "a small value"); sx_assert((bool)a == (c != 0 || (i & 0xffffff) != 0), "only the zero address is false");
        sx_assert(e.column() == c && e.index() == 0, "the index is 0 by default"); a.setColumn(d); sx_assert(a.column() == d && a.index() == (i & 0xffffff) && a.uint16() == (uint16_t)i, "another column, the same index"); ModelNodeAddress b; sx_assert(!b && b.value_ == 0, "no address"); b = a; sx_assert(b.value_ == a.value_, "a copy"); sx_reach("address"); sx_observe(a.value_);
    } else {                                 // objects, arrays, nothing
        auto o = m->newObject(1); o->addField("x", int64_t(sx_range(0, 9, "x"))); auto a = m->newArray(1); a->append(int64_t(1)); int w = (int)sx_choose(0, 2, "what");
        if (w < 2) {
            Ptr n = w ? Ptr(a) : Ptr(o); Value x = Value::field(*n); VT t = w ? VT::Array : VT::Object; Value y = x, z(std::move(y)); for (Value* p : {&x, &z}) { Seen s; p->visit(Look{&s}); sx_assert(p->isa(t) && s.k == 12 && (uint32_t)s.i == n->addr().value_, "a node is visited"); sx_assert(p->node->size() == 1 && p->node->addr() == n->addr(), "and kept"); sx_assert(std::holds_alternative<std::monostate>(p->getScalar()) && !p->stringViewValue() && !getNumeric<int64_t>(*p).first, "without scalar"); }
            Value k = Value::field(*n); o = {}; a = {}; n = {}; m.reset(); sx_assert(k.node->size() == 1 && k.node->at(0)->type() == VT::Int, "the model is kept alive");
            Ptr r = k.node->at(0); sx_assert(r->type() == VT::Int, "its child"); sx_reach("structure");
        } else {
            Ptr none; sx_assert(!none, "no node"); bool thrown = false; try { (void)none->type(); } catch (std::runtime_error& e) { thrown = e.what()[0] != 0; } sx_assert(thrown, "dereferencing no node is an error"); thrown = false; try { (void)(*none).size(); } catch (std::runtime_error&) { thrown = true; } sx_assert(thrown, "dereferencing no node is an error");
            Value e = Value::model(); Seen s; e.visit(Look{&s}); sx_assert(e.isa(VT::Object) && s.k == MNull, "an object without node is visited as null"); Value u = Value::undef(); Seen t; u.visit(Look{&t}); sx_assert(u.isa(VT::Undef) && t.k == 10 && u.toString() == "undef", "undefined");
            thrown = false; try { (void)m->resolveObject(Ptr(a)); } catch (std::runtime_error&) { thrown = true; } sx_assert(thrown, "an array is no object"); thrown = false; try { (void)m->resolveArray(Ptr(o)); } catch (std::runtime_error&) { thrown = true; } sx_assert(thrown, "an object is no array");
            sx_assert(m->resolveObject(Ptr(o))->size() == 1 && m->resolveArray(Ptr(a))->size() == 1, "objects and arrays are resolved"); thrown = false; try { (void)m->root(0); } catch (std::runtime_error&) { thrown = true; } sx_assert(thrown && m->numRoots() == 0, "there is no root");
            sx_reach("nothing");
        }
    }
}
