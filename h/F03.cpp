// split: for every string and separator, the parts are the maximal pieces without the separator and join back to the string.
#include "q.h"
static void large() {                        // many parts, long parts and a long separator
    W w; const int N = (int)sx_param("LARGE", 1); char c; sx_bytes(&c, 1, "c"); sx_assume((c != ',') & (c != ';')); size_t at = (size_t)sx_choose(0, 2, "part"); static const int P[] = {0, 256, 999}; int mark = P[at] < N ? P[at] : N - 1;
    bool longSep = sx_choose(0, 1, "long separator"); std::string sep = longSep ? std::string(40, ';') : ",", s, part = std::string(longSep ? 300 : 1, 'p');
    for (int i = 0; i < N; i++) { if (i) s += sep; s += i == mark ? part + c : i % 3 == 1 ? "" : part; }
    w.o->addField("s", std::string_view(s)); w.o->addField("t", std::string_view(sep)); sx_reach("split"); sx_reach("whole");
    R r = w.run("split(s, t)"), d = w.run("split(s, t, false)"); sx_assert(!r.err && r.v.size() == (size_t)N, "all parts of a long text"); size_t k = 0;
    for (int i = 0; i < N; i++) { std::string x = i == mark ? part + c : i % 3 == 1 ? "" : part; sx_assert(r.v[i].isa(VT::String) && r.v[i].as<VT::String>() == x, "the parts of a long text"); if (x.size()) { sx_assert(k < d.v.size() && d.v[k].as<VT::String>() == x, "the parts of a long text"); k++; } }
    sx_assert(d.v.size() == k, "only parts with text"); sx_observe(k);
}
void sx_main() {
    if (sx_param("LARGE", 0)) { large(); return; }
    int n = (int)sx_param("N", 3), m = (int)sx_param("M", 1); bool fold = sx_param("FOLD", 0);
    std::string s = sx_string(n, "s"), sep = sx_string(m, "sep");
    W w; for (auto& [k, x] : std::vector<std::pair<const char*, std::string>>{{"s", s}, {"t", sep}}) { if (fold) w.env.constants.emplace(k, Value::make(x)); else w.o->addField(k, std::string_view(x)); }
    std::vector<std::string> all, some;
    if (n) {
        std::string cur; size_t i = 0;
        while (m && i < s.size()) { if (i + m <= s.size() && memcmp(s.data() + i, sep.data(), m) == 0) { all.push_back(cur); cur.clear(); i += m; } else cur += s[i++]; }
        if (!m) cur = s;
        all.push_back(cur);
    }
    for (auto& x : all) if (x.size()) some.push_back(x);
    sx_reach(all.size() > 1 ? "split" : "whole");
    static const char* Q[] = {"split(s, t)", "split(s, t, true)", "split(s, t, false)"};
    for (int k = 0; k < 3; k++) {
        auto& want = k == 2 ? some : all; R r = w.run(Q[k]); obs(r);
        if (want.empty()) { sx_assert(r.isNull(), "no parts give one null"); continue; }
        sx_assert(!r.err && r.v.size() == want.size(), "as many parts as pieces between separators");
        for (size_t i = 0; i < want.size(); i++) sx_assert(r.v[i].isa(VT::String) && r.v[i].as<VT::String>() == want[i], "the parts in order");
    }
}
