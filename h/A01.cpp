// ArrayArena: any interleaving of appends gives independent vectors.
#include "sx.h"
#include "simfil/model/arena.h"
#include <stdexcept>
#include <vector>
using namespace simfil;
using Arena = ArrayArena<int64_t, 4, 2>;
static void same(Arena& a, ArrayIndex i, const std::vector<int64_t>& r) {
    sx_assert(a.size(i) == r.size(), "size"); const Arena& c = a;
    for (size_t k = 0; k < r.size(); k++) { sx_assert(a.at(i, k) == r[k], "at"); sx_assert(&c.at(i, k) == &a.at(i, k), "const at"); }
    size_t n = 0; for (auto it = a.begin(i); it != a.end(i); ++it, ++n) { sx_assert(n < r.size(), "iterator stays inside"); sx_assert(*it == r[n], "iterator order"); }
    sx_assert(n == r.size(), "iterator reaches the end");
    n = 0; for (auto it = c.begin(i); it != c.end(i); ++it, ++n) { sx_assert(n < r.size(), "const iterator stays inside"); sx_assert(*it == r[n], "const iterator order"); }
    sx_assert(n == r.size(), "const iterator reaches the end");
    n = 0; auto rg = a.range(i); sx_assert(rg.size() == r.size(), "range size"); for (auto& x : rg) { sx_assert(x == r[n] && &x == &rg[n], "range order"); n++; } sx_assert(n == r.size(), "range end");
    n = 0; a.iterate(i, [&](int64_t& x) { sx_assert(n < r.size() && x == r[n], "iterate order"); n++; return true; }); sx_assert(n == r.size(), "iterate visits all");
    n = 0; a.iterate(i, [&](int64_t& x, size_t k) { sx_assert(k == n && n < r.size() && x == r[n], "iterate with index"); n++; }); sx_assert(n == r.size(), "iterate with index visits all");
    n = 0; a.iterate(i, [&](int64_t& x) { sx_assert(x == r[n], "iterate without result"); n++; }); sx_assert(n == r.size(), "iterate without result visits all");
    for (size_t stop = 1; stop <= r.size(); stop++) { n = 0; a.iterate(i, [&](int64_t&) { return ++n < stop; }); sx_assert(n == stop, "iterate stops"); }
}
static void outside(Arena& a, ArrayIndex i, size_t n) {
    size_t k = (size_t)sx_i64("outside"); sx_assume(k >= n); bool thrown = false;
    try { a.at(i, k); } catch (std::out_of_range&) { thrown = true; }
    sx_assert(thrown, "at beyond the end throws out_of_range");
    thrown = false; const Arena& c = a; try { c.at(i, k); } catch (std::out_of_range&) { thrown = true; } sx_assert(thrown, "const at beyond the end throws out_of_range");
}
void sx_main() {
    int n = (int)sx_param("N", 6), arrays = (int)sx_param("K", 2), maxcap = (int)sx_param("CAP", 3), late = (int)sx_param("LATE", 0), clr = (int)sx_param("CLEAR", 0);
    Arena a; std::vector<std::vector<int64_t>> ref; std::vector<std::vector<int64_t*>> addr;
    auto mk = [&] { size_t cap = sx_choose(0, maxcap, "capacity"); ArrayIndex i = a.new_array(cap); sx_assert(i == (ArrayIndex)ref.size(), "new arrays are numbered"); ref.emplace_back(); addr.emplace_back(); sx_assert(a.size() == ref.size() && a.size(i) == 0, "a new array is empty"); };
    for (int k = 0; k < arrays; k++) mk();
    for (int s = 0; s < n; s++) {
        size_t i = sx_choose(0, ref.size() - 1 + (late && s == n / 2), "array"); int64_t v = sx_i64("value");
        if (i == ref.size()) { mk(); continue; }
        int64_t& e = s & 1 ? a.emplace_back((ArrayIndex)i, v) : a.push_back((ArrayIndex)i, v);
        sx_assert(e == v && &e == &a.at((ArrayIndex)i, ref[i].size()), "the new element is the last"); ref[i].push_back(v); addr[i].push_back(&e);
        if (clr && s == n / 2) { sx_reach("clear"); a.clear(); sx_assert(a.size() == 0, "clear removes all"); ref.clear(); addr.clear(); for (int k = 0; k < arrays; k++) mk(); }
    }
    for (size_t i = 0; i < ref.size(); i++) {
        same(a, (ArrayIndex)i, ref[i]); for (size_t k = 0; k < ref[i].size(); k++) sx_assert(addr[i][k] == &a.at((ArrayIndex)i, k), "references stay valid");
        if (ref[i].size() > 3) sx_reach("grown");
    }
    size_t o = sx_choose(0, ref.size() - 1, "probe"); outside(a, (ArrayIndex)o, ref[o].size());
    a.shrink_to_fit(); size_t i = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++i) { auto rg = *it; sx_assert(i < ref.size() && rg.size() == ref[i].size(), "all arrays in order"); size_t k = 0; for (auto& x : rg) { sx_assert(x == ref[i][k], "elements of all arrays"); k++; } sx_assert(k == ref[i].size(), "all elements"); k = 0; for (auto x = it.begin(); x != it.end(); ++x) k++; sx_assert(k == ref[i].size(), "all elements"); }
    sx_assert(i == ref.size(), "all arrays are visited");
    for (auto& r : ref) for (auto x : r) sx_observe((uint64_t)x);
}
