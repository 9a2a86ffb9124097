// Shared by the harnesses of the model: values of all kinds, stored in all ways, and what must be read back.
#pragma once
#include "sx.h"
#include "simfil/model/model.h"
#include "simfil/model/nodes.h"
#include "simfil/exception-handler.h"
#include <bitsery/bitsery.h>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
using namespace simfil;
typedef ValueType VT;
typedef ModelNode::Ptr Ptr;
inline uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
inline bool sameText(const std::string& a, std::string_view b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]); return r; }
inline unsigned char low(unsigned char c) { return c + 32 * ((c >= 'A') & (c <= 'Z')); }
inline bool sameName(const std::string& a, std::string_view b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & (low(a[i]) == low(b[i])); return r; }
enum MK { MInt, MU16, MI16, MBool, MDouble, MStr, MNull, MKCOUNT };
struct MV { int k = MNull; int64_t i = 0; double d = 0; std::string s; };
inline MV msym(int k, const char* n, size_t len = 2) {
    MV v; v.k = k;
    if (k == MInt) v.i = sx_i64(n); else if (k == MU16) v.i = (int64_t)sx_var(16, n); else if (k == MI16) v.i = (int16_t)sx_var(16, n); else if (k == MBool) v.i = sx_bool(n);
    else if (k == MDouble) v.d = sx_double(n); else if (k == MStr) v.s = sx_string(len, n);
    return v;
}
inline Ptr node(ModelPool& m, const MV& v) {
    switch (v.k) {
    case MInt: return m.newValue(v.i); case MU16: return m.newSmallValue((uint16_t)v.i); case MI16: return m.newSmallValue((int16_t)v.i); case MBool: return m.newSmallValue((bool)v.i);
    case MDouble: return m.newValue(v.d); case MStr: return m.newValue(std::string_view(v.s)); default: return {};
    }
}
inline void add(ModelPool& m, model_ptr<Object>& o, const std::string& name, const MV& v, bool viaNode = false) {
    if (viaNode || v.k == MNull) { o->addField(name, node(m, v)); return; }
    switch (v.k) {
    case MInt: o->addField(name, v.i); break; case MU16: o->addField(name, (uint16_t)v.i); break; case MI16: o->addField(name, (int16_t)v.i); break; case MBool: o->addBool(name, (bool)v.i); break;
    case MDouble: o->addField(name, v.d); break; default: o->addField(name, std::string_view(v.s));
    }
}
inline void add(ModelPool& m, model_ptr<Array>& a, const MV& v, bool viaNode = false) {
    if (viaNode || v.k == MNull) { a->append(node(m, v)); return; }
    switch (v.k) {
    case MInt: a->append(v.i); break; case MU16: a->append((uint16_t)v.i); break; case MI16: a->append((int16_t)v.i); break; case MBool: a->append((bool)v.i); break;
    case MDouble: a->append(v.d); break; default: a->append(std::string_view(v.s));
    }
}
// n reads as v
inline void reads(const ModelNode& n, const MV& v) {
    ScalarValueType x = n.value(); VT t = n.type();
    sx_assert(n.size() == 0 && !n.at(0) && !n.get(StringPool::Empty) && n.keyAt(0) == StringPool::Empty, "a scalar has no children");
    switch (v.k) {
    case MInt: case MU16: case MI16: sx_assert(t == VT::Int && std::holds_alternative<int64_t>(x), "an integer reads as integer"); sx_assert(std::get<int64_t>(x) == v.i, "an integer reads back"); break;
    case MBool: sx_assert(t == VT::Bool && std::holds_alternative<bool>(x), "a bool reads as bool"); sx_assert(std::get<bool>(x) == (bool)v.i, "a bool reads back"); break;
    case MDouble: sx_assert(t == VT::Float && std::holds_alternative<double>(x), "a float reads as float"); sx_assert(dbits(std::get<double>(x)) == dbits(v.d), "a float reads back"); break;
    case MStr: { sx_assert(t == VT::String, "a string reads as string"); auto p = std::get_if<std::string_view>(&x); auto q = std::get_if<std::string>(&x); sx_assert((p && sameText(v.s, *p)) || (q && sameText(v.s, *q)), "a string reads back"); break; }
    default: sx_assert(t == VT::Null && std::holds_alternative<std::monostate>(x), "null reads as null");
    }
}
inline void reads(const Ptr& p, const MV& v) { sx_assert((bool)p, "there is a value"); reads(*p, v); }
inline void mobs(const MV& v) { sx_observe(v.k); if (v.k == MStr) sx_observe_str(v.s); else if (v.k == MDouble) sx_observe(v.d != v.d ? 0 : dbits(v.d)); else sx_observe((uint64_t)v.i); }
