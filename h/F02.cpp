// select(values, index, count): exactly the slice of the list, for every index and count.
#include "q.h"
void sx_main() {
    int n = (int)sx_param("N", 3), part = (int)sx_param("PART", 0); bool fold = sx_param("FOLD", 0);
    W w; static const char* nm[] = {"a", "b", "c", "d", "e"}; V v[5]; std::string args; auto l = w.m->newArray(8);
    for (int i = 0; i < n; i++) {
        v[i].k = KInt; v[i].i = (int64_t)sx_range(0, 9, nm[i]); args += (i ? ", " : "") + std::string(nm[i]); l->append(v[i].i);
        if (fold) w.env.constants.emplace(nm[i], val(v[i])); else put(w, nm[i], v[i]);
    }
    w.o->addField("l", l);
    auto num = [&](const char* nm) -> int64_t {          // constants are spelled in warnings, so they are enumerated: around the ends of the list and of the type
        static const int64_t T[] = {INT64_MIN, INT64_MIN + 1, -2, -1, 0, 1, 2, 3, 4, INT64_MAX - 1, INT64_MAX};
        return fold ? T[sx_choose(0, 10, nm)] : sx_i64(nm); };
    int64_t idx = num("index"), cnt = part == 1 ? 1 : num("count");
    for (auto& [k, x] : std::vector<std::pair<const char*, int64_t>>{{"i", idx}, {"n", cnt}}) { if (fold) w.env.constants.emplace(k, Value::make(x)); else w.o->addField(k, x); }
    std::vector<int64_t> want;
    for (int k = 0; k < n; k++) { __int128 p = (__int128)k - idx; if (p >= 0 && (cnt <= 0 || p < cnt)) want.push_back(v[k].i); }
    for (int src = 0; src < (fold ? 1 : 2); src++) {
        std::string q = std::string(src ? "l.*" : "arr(" + args + ")");
        R r = w.run("select(" + q + ", i" + (part == 1 ? ")" : ", n)")); obs(r);
        if (want.empty()) { sx_reach("nothing"); sx_assert(r.isNull(), "an empty selection is one null"); }
        else {
            sx_reach("slice"); sx_assert(!r.err && r.v.size() == want.size(), "as many values as in the slice");
            for (size_t k = 0; k < want.size(); k++) sx_assert(r.v[k].isa(VT::Int) && r.v[k].as<VT::Int>() == want[k], "the values of the slice in order");
        }
        R s = w.run("arr(select(" + q + ", i" + (part == 1 ? ")" : ", n)") + ", 77)");
        sx_assert(!s.err && s.v.size() == (want.empty() ? 1 : want.size()) + 1 && s.v.back().isa(VT::Int) && s.v.back().as<VT::Int>() == 77, "the expression around it goes on");
    }
}
