// Shared by the harnesses of the query engine: a model with named fields, and running a query on it.
#pragma once
#include "sx.h"
#include "simfil/simfil.h"
#include "simfil/environment.h"
#include "simfil/expression.h"
#include "simfil/function.h"
#include "simfil/model/model.h"
#include "simfil/model/nodes.h"
#include "simfil/operator.h"
#include "simfil/types.h"
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
using namespace simfil;
typedef ValueType VT;
struct R {                       // outcome of a query
    int err = 0;                 // 0 values, 1 runtime error, 2 anything else thrown
    std::string what;
    std::vector<Value> v;
    const Value& one() const { sx_assert(!err && v.size() == 1, "the query gives exactly one value"); return v[0]; }
    bool is(VT t) const { return !err && v.size() == 1 && v[0].isa(t); }
    bool isInt(int64_t x) const { return is(VT::Int) && v[0].as<VT::Int>() == x; }
    bool isBool(bool x) const { return is(VT::Bool) && v[0].as<VT::Bool>() == x; }
    bool isStr(const std::string& s) const { return is(VT::String) && v[0].as<VT::String>() == s; }
    bool isNull() const { return is(VT::Null); }
    int64_t i() const { return v[0].as<VT::Int>(); }
    double d() const { return v[0].as<VT::Float>(); }
    std::string s() const { return v[0].as<VT::String>(); }
};
inline uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
inline bool sameD(double a, double b) { return ((a != a) & (b != b)) | (dbits(a) == dbits(b)); }
struct W {                       // a model with one object as root
    std::shared_ptr<ModelPool> m = std::make_shared<ModelPool>();
    model_ptr<Object> o = m->newObject(4);
    Environment env{m->strings()};
    ExprPtr comp(std::string_view q, bool any = false, bool wild = false) { return compile(env, q, any, wild); }
    R ev(const Expr& e, const ModelNode& n) { R r; try { r.v = eval(env, e, n); } catch (std::runtime_error& x) { r.err = 1; r.what = x.what(); } catch (...) { r.err = 2; } return r; }
    R ev(const Expr& e) { return ev(e, *o); }
    R run(std::string_view q, bool any = false, bool wild = false) {
        R r; ExprPtr e;
        try { e = comp(q, any, wild); } catch (std::runtime_error& x) { r.err = 1; r.what = x.what(); return r; } catch (...) { r.err = 2; return r; }
        return ev(*e);
    }
};
// a symbolic value of a chosen type, stored as a field
enum K { KInt, KDouble, KStr, KBool, KNull, KObj, KArr, KCOUNT };
struct V {
    int k = KNull; int64_t i = 0; double d = 0; std::string s; bool b = false;
};
inline V symv(int k, const char* name, size_t len = 2) {
    V v; v.k = k;
    if (k == KInt) v.i = sx_i64(name); else if (k == KDouble) v.d = sx_double(name); else if (k == KStr) v.s = sx_string(len, name); else if (k == KBool) v.b = sx_bool(name);
    return v;
}
// integers of one digit where constants are folded (warnings spell the operands, which forks on the number of digits)
inline V smallv(bool fold, int k, const char* name, size_t len = 2) {
    if (!fold || k != KInt) return symv(k, name, len);
    V v; v.k = KInt; v.i = (int64_t)sx_range(0, 9, name); return v;
}
inline void put(W& w, const char* name, const V& v) {
    switch (v.k) {
    case KInt: w.o->addField(name, v.i); break;
    case KDouble: w.o->addField(name, v.d); break;
    case KStr: w.o->addField(name, std::string_view(v.s)); break;
    case KBool: w.o->addBool(name, v.b); break;
    case KObj: { auto x = w.m->newObject(1); x->addField("x", int64_t(1)); w.o->addField(name, x); break; }
    case KArr: { auto x = w.m->newArray(1); x->append(int64_t(1)); w.o->addField(name, x); break; }
    default: break;                                                          // a missing field reads as null
    }
}
inline Value val(const V& v) {
    switch (v.k) {
    case KInt: return Value::make(v.i); case KDouble: return Value::make(v.d); case KStr: return Value::make(v.s); case KBool: return Value::make(v.b);
    default: return Value::null();
    }
}
inline void obs(const Value& v) {
    sx_observe((uint64_t)v.type);
    if (v.isa(VT::Int)) sx_observe((uint64_t)v.as<VT::Int>()); else if (v.isa(VT::Float)) { double d = v.as<VT::Float>(); sx_observe_d(d != d ? 0.0 : d); }
    else if (v.isa(VT::Bool)) sx_observe(v.as<VT::Bool>()); else if (v.isa(VT::String)) sx_observe_str(v.as<VT::String>());
}
inline void obs(const R& r) { sx_observe((uint64_t)r.err); sx_observe(r.v.size()); for (auto& x : r.v) obs(x); }
