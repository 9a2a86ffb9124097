// StringPool: copies are equal and independent.
#include "p.h"
#include <memory>
// a pool with gaps: what was written from an id on, read into a new one
static void gaps() {
    int n = (int)sx_param("N", 3); StringPool full; for (int i = 0; i < n; i++) full.emplace(std::string(1, (char)('a' + i)) + sx_string(1, "name"));
    SxStream st; StringId from = (StringId)(StringPool::FirstDynamicId + sx_choose(0, full.size() - 4, "from")); full.write(st.out(), from); StringPool p; p.read(st.in()); if (sx_choose(0, 1, "more")) p.emplace("more");
    StringPool q(p); sx_reach("gaps"); sx_assert(q == p && p == q, "a copy is equal"); sx_assert(q.size() == p.size() && q.bytes() == p.bytes() && q.highest() == p.highest(), "as many strings");
    for (StringId i = 0; i <= p.highest() + 2; i++) { auto x = p.resolve(i), y = q.resolve(i); sx_assert(x.has_value() == y.has_value(), "the same ids"); if (x) { sx_assert(sameText(std::string(*x), *y), "the same strings"); sx_assert(q.get(*x) == i, "found under the same ids"); } }
    std::string s = "new"; StringId a = p.emplace(s), b = q.emplace(s); sx_assert(a == b, "new strings get the same ids in both"); auto z = q.resolve(b); sx_assert(z && *z == s && q.highest() == p.highest(), "new strings resolve"); sx_observe(a);
}
void sx_main() {
    if (sx_param("PART", 0) == 1) return gaps();
    int n = (int)sx_param("N", 2), len = (int)sx_param("L", 1), big = (int)sx_param("LONG", 0);
    auto p = std::make_unique<StringPool>(); Ref r;
    auto name = [&](const char* nm) { size_t l = sx_choose(0, len, "length"); std::string s = sx_string(l, nm); return big ? s + "a string which does not fit into the string object" : s; };
    auto add = [&](StringPool& q, Ref& f, const std::string& s) { StringId id = q.emplace(s); int k = f.find(s); if (k < 0) { f.s.push_back(s); k = f.find(s); } sx_assert(id == k, "emplace"); };
    for (int i = 0; i < n; i++) add(*p, r, name("string"));
    auto q = std::make_unique<StringPool>(*p); Ref f = r; sx_reach("copied");
    sx_assert(*q == *p && *p == *q && *q == *q, "a copy is equal"); agrees(*q, f);
    std::string x = name("one"), y = name("other");
    add(*p, r, x); agrees(*q, f); bool grown = r.s.size() > f.s.size(); sx_assert((*p == *q) == !grown, "pools with different strings differ");
    add(*q, f, y); agrees(*p, r); agrees(*q, f);
    if (grown && sameText(x, y)) sx_assert(*p == *q, "pools with the same strings and ids are equal");
    if (sx_choose(0, 1, "first")) { p.reset(); agrees(*q, f); add(*q, f, x); for (auto& s : f.s) sx_assert(q->get(s) == f.find(s), "copies outlive the original"); }
    else { q.reset(); agrees(*p, r); add(*p, r, y); for (auto& s : r.s) sx_assert(p->get(s) == r.find(s), "originals outlive copies"); }
    sx_observe(r.s.size()); sx_observe(f.s.size());
}
