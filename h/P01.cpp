// StringPool: interning any strings.
#include "p.h"
void sx_main() {
    int n = (int)sx_param("N", 3), len = (int)sx_param("L", 2), st = (int)sx_param("STATIC", 0); StringPool p; Ref r; size_t hits = 0, misses = 0;
    for (int i = 0; i < n; i++) {
        size_t l = sx_choose(0, len, "length"); std::string s = sx_string(l, "string");
        if (st) s = (sx_choose(0, 1, "static") ? "$su" : "$id") + s;
        bool get = sx_choose(0, 1, "get"); StringId id = get ? p.get(s) : p.emplace(s); int k = r.find(s);
        if (k >= 0) { sx_reach("known"); sx_assert(id == k, "a known string has its id, in any case"); hits++; }
        else if (get) { sx_reach("unknown"); sx_assert(id == StringPool::Empty, "an unknown string is Empty"); }
        else { sx_reach("new"); r.s.push_back(s); sx_assert(id == StringPool::FirstDynamicId + r.s.size() - 1, "a new string has the next id"); misses++; s.assign(s.size(), '#'); }
        sx_assert(p.hits() == hits && p.misses() == misses, "hits and misses"); sx_observe(id);
    }
    agrees(p, r);
    StringId other = (StringId)sx_var(16, "id"); sx_assume(other >= 4 && (other < 128 || other >= 128 + r.s.size())); sx_assert(!p.resolve(other), "other ids do not resolve");
    for (auto& s : r.s) sx_assert(p.get(s) == r.find(s) && p.emplace(s) == r.find(s), "every string is found again");
}
