// Paths, wildcards, subscripts and sub-queries over arbitrary small models, against a reference traversal.
#include "q.h"
struct N { int kind; int64_t id; std::vector<std::pair<std::string, int>> ch; uint32_t addr; };      // kind 0 int, 1 object, 2 array
static std::vector<N> T; static W* G; static int budget; static int64_t nextId; static bool SYM;
static ModelNode::Ptr gen(int depth, int& me) {
    me = (int)T.size(); T.push_back({0, 0, {}, 0});
    int kind = depth > 0 ? (int)sx_choose(0, 2, "kind") : 0;
    T[me].kind = kind;
    if (kind == 0) { T[me].id = SYM ? (int64_t)sx_range(0, 3, "leaf") : nextId++; return G->m->newSmallValue((int16_t)T[me].id); }
    int n = (int)sx_choose(0, 2, "children");
    if (n > budget) n = budget; budget -= n;
    if (kind == 1) {
        auto o = G->m->newObject(4); T[me].addr = o->addr().value_;
        for (int i = 0; i < n; i++) {
            int c; auto p = gen(depth - 1, c); std::string k = i == 0 && sx_bool("b first") ? "b" : i == 0 ? "a" : T[me].ch[0].first == "a" ? "b" : "c";
            o->addField(k, p); T[me].ch.push_back({k, c});
        }
        return o;
    }
    auto a = G->m->newArray(4); T[me].addr = a->addr().value_;
    for (int i = 0; i < n; i++) { int c; auto p = gen(depth - 1, c); a->append(p); T[me].ch.push_back({"", c}); }
    return a;
}
static void deep(int n, std::vector<int>& o) { o.push_back(n); for (auto& c : T[n].ch) deep(c.second, o); }
static std::vector<int> field(int n, const std::string& k) { if (T[n].kind == 1) for (auto& c : T[n].ch) if (c.first == k) return {c.second}; return {}; }
static std::vector<int> kids(int n) { std::vector<int> r; for (auto& c : T[n].ch) r.push_back(c.second); return r; }
struct Seg { const char* first; const char* next; };
static const Seg S[] = {{"_", "._"}, {"a", ".a"}, {"b", ".b"}, {"*", ".*"}, {"**", ".**"}, {"_[0]", "[0]"}, {"_[1]", "[1]"}, {"_[\"a\"]", "[\"a\"]"}, {"_{a}", "{a}"}, {"_{b == 1}", "{b == 1}"}, {"_{typeof _ == \"int\"}", "{typeof _ == \"int\"}"}, {"_{*}", "{*}"}, {"_{any(*.a)}", "{any(*.a)}"},
    {"_[count(*) - 1]", "[count(*) - 1]"}, {"_[keys(_)]", "[keys(_)]"}, {"_{*[count(*) - 1]}", "{*[count(*) - 1]}"}, {"a.*", ".(a.*)"}};
static int ROOT;
static std::vector<int> step(int s, int n) {
    switch (s) {
    case 0: return {n}; case 1: return field(n, "a"); case 2: return field(n, "b"); case 3: return kids(n);
    case 4: { std::vector<int> r; deep(n, r); return r; }
    case 5: case 6: { size_t i = s - 5; if (T[n].kind && i < T[n].ch.size()) return {T[n].ch[i].second}; return {}; }
    case 7: return field(n, "a");
    case 8: if (field(n, "a").size()) return {n}; return {};
    case 9: { auto f = field(n, "b"); if (f.size() && T[f[0]].kind == 0 && T[f[0]].id == 1) return {n}; return {}; }
    case 10: if (T[n].kind == 0) return {n}; return {};
    case 11: { std::vector<int> r; for (size_t i = 0; i < T[n].ch.size(); i++) r.push_back(n); return r; }       // one result per true value of the sub-query
    // the index is evaluated on the current node, not on the indexed one
    case 13: { size_t k = T[ROOT].ch.size(); if (k && T[n].kind && k - 1 < T[n].ch.size()) return {T[n].ch[k - 1].second}; return {}; }
    case 14: { std::vector<int> r; if (T[ROOT].kind == 1) for (auto& c : T[ROOT].ch) for (int f : field(n, c.first)) r.push_back(f); return r; }
    case 15: { std::vector<int> r; size_t k = T[n].ch.size(); for (int c : kids(n)) if (T[c].kind && k - 1 < T[c].ch.size()) r.push_back(n); return r; }
    case 16: { std::vector<int> r; for (int f : field(n, "a")) for (int c : kids(f)) r.push_back(c); return r; }
    default: for (int c : kids(n)) if (field(c, "a").size()) return {n}; return {};
    }
}
// large models: deep ones, and wide ones
static void large() {
    W w; static const int64_t PS[] = {0, 1, 127, 128, 255, 256, 299}; int64_t leaf = (int64_t)sx_choose(0, 3, "leaf"), pos = PS[sx_choose(0, 6, "index")]; const int D = 70, N = 300;
    ModelNode::Ptr p = w.m->newSmallValue((int16_t)leaf);
    for (int i = 0; i < D; i++) if (i % 2) { auto o = w.m->newObject(1); o->addField("a", p); p = o; } else { auto a = w.m->newArray(1); a->append(p); p = a; }
    w.o->addField("deep", p);
    auto l = w.m->newArray(1); for (int i = 0; i < N; i++) l->append(int64_t(i * 7)); w.o->addField("wide", l);
    auto o = w.m->newObject(1); for (int i = 0; i < N; i++) o->addField("f" + std::to_string(i), int64_t(i * 5)); w.o->addField("many", o);
    w.env.constants.emplace("pos", Value::make(pos));
    sx_assert(w.run("count(deep.**)").isInt(D + 1), "** visits every level"); sx_assert(w.run("any(deep.** == " + std::to_string(leaf) + ")").isBool(true), "** finds the deepest value");
    std::string path = "deep"; for (int i = D; i-- > 0;) path += i % 2 ? ".a" : ".*";
    sx_assert(w.run(path).isInt(leaf), "a long path");
    sx_assert(w.run("count(wide.*)").isInt(N) && w.run("count(many.*)").isInt(N) && w.run("count(many.**)").isInt(N + 1) && w.run("#many").isInt(N), "all members of large nodes");
    R r = w.run("wide[pos]"); sx_assert(r.isInt(pos * 7), "an index in a large array"); sx_assert(w.run("many['f' + pos]").isInt(pos * 5), "a name in a large object"); sx_observe((uint64_t)leaf);
    sx_reach("values"); sx_reach("nothing");
}
void sx_main() {
    if (sx_param("LARGE", 0)) { large(); return; }
    W w; G = &w; T.clear(); nextId = 1; SYM = sx_param("SYM", 1); budget = (int)sx_param("NODES", 4);
    int root; auto p = gen((int)sx_param("DEPTH", 2), root);
    sx_assume(T[root].kind != 0); ROOT = root;
    std::string q; bool listed = false; std::vector<int> cur = {root};
    int len = (int)sx_param("LEN", 2), first = (int)sx_param("S0", -1); static const char* nm[] = {"segment 1", "segment 2", "segment 3"};
    for (int i = 0; i < len; i++) {
        int s = i == 0 && first >= 0 ? first : (int)sx_choose(0, sizeof S / sizeof *S - 1, nm[i]);
        // a prefix sub-query or subscript directly after a path binds to the path's last part only through the path; start it from there
        q = i ? (s >= 5 && s != 16 ? "(" + q + ")" : q) + S[s].next : S[s].first;
        listed |= s == 14;          // null indexed by every key of a list gives one null for each
        std::vector<int> nx; for (int n : cur) for (int r : step(s, n)) nx.push_back(r); cur = nx;
    }
    R r = w.ev(*w.comp(q), *p);
    sx_assert(!r.err, "a path never fails");
    if (cur.empty()) { sx_reach("nothing"); bool nul = r.v.size() >= 1; for (auto& v : r.v) nul &= v.isa(VT::Null);
        sx_assert(listed ? nul : r.isNull(), "no match gives one null"); sx_observe(0); return; }
    sx_reach("values");
    sx_assert(r.v.size() == cur.size(), "as many values as the model has matches");
    for (size_t i = 0; i < cur.size(); i++) {
        const N& n = T[cur[i]]; const Value& v = r.v[i];
        sx_observe((uint64_t)n.id);
        if (n.kind == 0) sx_assert(v.isa(VT::Int) && v.as<VT::Int>() == n.id, "matches in model order: value");
        else sx_assert(v.node && v.node->type() == (n.kind == 1 ? VT::Object : VT::Array) && v.node->addr().value_ == n.addr, "matches in model order: node");
    }
}
