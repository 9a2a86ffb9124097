// Shared by the harnesses of the StringPool.
#pragma once
#include "sx.h"
#include "simfil/model/string-pool.h"
#include "simfil/exception-handler.h"
#include <bitsery/bitsery.h>
#include <stdexcept>
#include <string>
#include <vector>
using namespace simfil;
inline unsigned char low(unsigned char c) { return c + 32 * ((c >= 'A') & (c <= 'Z')); }
inline bool sameName(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & (low(a[i]) == low(b[i])); return r; }
inline bool sameText(const std::string& a, std::string_view b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]); return r; }
static const char* const kStatic[4] = {"", "$sum", "$val", "$idx"};
struct Ref {                        // what a pool must hold: names in the order of their ids
    std::vector<std::string> s;
    int find(const std::string& x) const { for (int i = 0; i < 4; i++) if (sameName(kStatic[i], x)) return i; for (size_t i = 0; i < s.size(); i++) if (sameName(s[i], x)) return (int)(StringPool::FirstDynamicId + i); return -1; }
    size_t bytes() const { size_t n = 0; for (auto& x : s) n += x.size(); return n; }
};
inline void agrees(const StringPool& p, const Ref& r) {
    sx_assert(p.size() == r.s.size() + 4, "size"); sx_assert(p.bytes() == r.bytes(), "bytes"); sx_assert(p.highest() == StringPool::FirstDynamicId + r.s.size() - 1, "highest id");
    for (StringId i = 0; i < 4; i++) { auto x = p.resolve(i); sx_assert(x && sameText(kStatic[i], *x), "static strings resolve"); }
    for (size_t i = 0; i < r.s.size(); i++) { auto x = p.resolve((StringId)(StringPool::FirstDynamicId + i)); sx_assert(x.has_value(), "an id resolves"); sx_assert(sameText(r.s[i], *x), "an id resolves to the string in its first spelling"); }
}
