// Importing JSON gives the same values; text that is no JSON is an error and leaves the model alone.
#include "m.h"
#include "simfil/model/json.h"
#include <nlohmann/json.hpp>
#include <sstream>
static std::shared_ptr<ModelPool> m;
struct E; struct T { int k = 0; MV v; std::vector<E> f; T(); T(const T&); T& operator=(const T&); ~T(); }; struct E { std::string first; T second; };
T::T() = default; T::T(const T&) = default; T& T::operator=(const T&) = default; T::~T() = default;     // k: 0 scalar, 1 object, 2 array
static std::string digits(int n, const char* name, uint64_t& v, bool lead = false) { std::string s; for (int i = 0; i < n; i++) { unsigned char d = (unsigned char)sx_range(i == 0 && n > 1 && !lead ? 1 : 0, 9, name); s += (char)('0' + d); v = v * 10 + d; } return s; }
static std::string scalar(T& t) {
    switch (sx_choose(0, 9, "scalar")) {
    case 0: sx_reach("null"); t.v.k = MNull; return "null";
    case 1: t.v.k = MBool; t.v.i = sx_choose(0, 1, "bool"); return t.v.i ? "true" : "false";
    case 2: { t.v.k = MInt; uint64_t u = 0; std::string s = digits((int)sx_choose(1, 3, "digits"), "digit", u); t.v.i = (int64_t)u; return s; }
    case 3: { t.v.k = MInt; uint64_t u = 0; std::string s = digits((int)sx_choose(1, 3, "digits"), "digit", u); t.v.i = -(int64_t)u; return "-" + s; }
    case 4: { sx_reach("large"); uint64_t u = 922337203685477580ull; std::string s = digits(1, "digit", u, true); if (u > (uint64_t)INT64_MAX) { t.v.k = MDouble; t.v.d = (double)u; } else { t.v.k = MInt; t.v.i = (int64_t)u; } return "922337203685477580" + s; }
    case 5: { uint64_t u = 922337203685477580ull; unsigned char d = (unsigned char)sx_range(0, 8, "digit"); u = u * 10 + d; t.v.k = MInt; t.v.i = (int64_t)(0 - u); return std::string("-922337203685477580") + (char)('0' + d); }
    case 6: { uint64_t u = 1844674407370955161ull; unsigned char d = (unsigned char)sx_range(0, 5, "digit"); u = u * 10 + d; t.v.k = MDouble; t.v.d = (double)u; return std::string("1844674407370955161") + (char)('0' + d); }
    case 7: { sx_reach("float"); uint64_t u = 0; int i = (int)sx_choose(0, 9, "float digit"); t.v.k = MDouble; t.v.d = i + 0.5; bool neg = sx_choose(0, 1, "negative"); if (neg) t.v.d = -t.v.d; (void)u; return std::string(neg ? "-" : "") + (char)('0' + i) + ".5"; }
    case 8: { sx_reach("string"); t.v.k = MStr; size_t n = sx_choose(0, 2, "length"); std::string s; for (size_t i = 0; i < n; i++) { unsigned char c = (unsigned char)sx_range(32, 127, "char"); sx_assume((c != '"') & (c != '\\')); s += (char)c; } t.v.s = s; return "\"" + s + "\""; }
    default: { t.v.k = MStr; static const char* e[] = {"\\n", "\\\"", "\\\\", "\\u0041", "\\u00e9", "\\u20ac", "\\ud83d\\ude00", "\xc3\xa9", "\\u0000"}; static const std::string r[] = {"\n", "\"", "\\", "A", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc3\xa9", std::string(1, 0)}; int i = (int)sx_choose(0, 8, "escape"); t.v.s = r[i]; return std::string("\"") + e[i] + "\""; }
    }
}
static std::string ws() { return sx_choose(0, 1, "space") ? " \n" : ""; }
static std::string gen(T& t, int depth) {
    t.k = depth > 0 ? (int)sx_choose(0, 2, "shape") : 0; if (!t.k) return scalar(t);
    int n = (int)sx_choose(0, depth > 1 ? 1 : (int)sx_param("W", 2), "members"); bool o = t.k == 1; std::string s = o ? "{" : "["; if (!n) s += ws();
    for (int i = 0; i < n; i++) {
        T c; std::string k; if (i) s += ", ";
        if (o) { unsigned char x = (unsigned char)sx_range('A', 'Z', "key"); bool l = sx_choose(0, 1, "lower"); k = std::string(1, (char)(l ? x + 32 : x)) + (i == 0 && depth > 1 ? "x" : ""); s += "\"" + k + "\":"; }
        s += gen(c, depth - 1);
        bool placed = false; if (o) for (size_t j = 0; j < t.f.size(); j++) if (t.f[j].first == k) { t.f[j].second = c; placed = true; break; } else if (k < t.f[j].first) { t.f.insert(t.f.begin() + j, E{k, c}); placed = true; break; }
        if (!placed) t.f.push_back(E{k, c});
    }
    return s + (o ? "}" : "]");
}
static void check(const ModelNode& n, const T& t) {
    if (!t.k) { reads(n, t.v); mobs(t.v); return; }
    sx_assert(n.type() == (t.k == 1 ? VT::Object : VT::Array), "the type of a structure"); sx_assert(n.size() == t.f.size(), "the number of members"); sx_observe(n.size());
    for (size_t i = 0; i < t.f.size(); i++) {
        Ptr p = n.at((int64_t)i); sx_assert((bool)p, "a member"); check(*p, t.f[i].second);
        if (t.k == 1) { auto nm = m->lookupStringId(n.keyAt((int64_t)i)); sx_assert(nm && sameName(t.f[i].first, *nm), "the name of a member"); size_t first = 0; while (!sameName(t.f[first].first, t.f[i].first)) first++; Ptr g = n.get(n.keyAt((int64_t)i)); sx_assert(g && g->addr().value_ == n.at((int64_t)first)->addr().value_, "a member is found by name"); }
    }
}
// many elements, many fields, deep nesting, long texts: one of them arbitrary
static void large() {
    const int N = (int)sx_param("LARGE", 300), D = 60; static const int P[] = {0, 255, 299}; int at = P[sx_choose(0, 2, "position")]; T x; std::string sx; switch (sx_choose(0, 3, "scalar")) { case 0: sx = "null"; break; case 1: x.v.k = MBool; x.v.i = 1; sx = "true"; break; case 2: { x.v.k = MInt; unsigned char d = (unsigned char)sx_range(0, 9, "digit"); x.v.i = -10 - (int64_t)d; sx = std::string("-1") + (char)('0' + d); break; } default: x.v.k = MDouble; x.v.d = 2.5; sx = "2.5"; } std::string s = "{\"list\":["; 
    for (int i = 0; i < N; i++) s += (i ? "," : "") + (i == at ? sx : std::to_string(i * 300)); s += "],\"object\":{"; for (int i = 0; i < N; i++) s += (i ? ",\"f" : "\"f") + std::to_string(i) + "\":" + (i == at ? sx : std::to_string(i * 300)); s += "},\"deep\":";
    for (int i = 0; i < D; i++) s += i % 2 ? "[" : "{\"f1\":"; s += sx; for (int i = D; i-- > 0;) s += i % 2 ? "]" : "}"; s += ",\"text\":\"" + std::string(3000, 't') + "\",\"last\":" + sx + "}"; s.insert(1, std::string(500, ' '));
    m = json::parse(s); const auto r = m->root(0); auto id = [&](const std::string& n) { return m->strings()->get(n); }; auto num = [](int64_t i) { MV v; v.k = MInt; v.i = i; return v; };
    sx_assert(r->size() == 5, "all fields"); Ptr l = r->get(id("list")), o = r->get(id("object")), d = r->get(id("deep")), t = r->get(id("text")); sx_assert(l && o && d && t, "the fields"); check(*r->get(id("last")), x);
    sx_assert(l->size() == (size_t)N && o->size() == (size_t)N, "all members"); for (int i = 0; i < N; i++) { Ptr p = l->at(i), q = o->get(id("f" + std::to_string(i))); sx_assert(p && q, "all members"); if (i == at) { check(*p, x); check(*q, x); } else { reads(*p, num(i * 300)); reads(*q, num(i * 300)); } }
    for (int i = 0; i < D; i++) { sx_assert(d->size() == 1 && d->type() == (i % 2 ? VT::Array : VT::Object), "deep nesting"); d = d->at(0); } check(*d, x); MV v; v.k = MStr; v.s = std::string(3000, 't'); reads(*t, v); m.reset();
}
void sx_main() {
    if (sx_param("LARGE", 0)) { large(); return; }
    int d = (int)sx_param("D", 0), how = (int)sx_choose(0, sx_param("HOW", 0) ? 1 : 0, "overload");
    if (sx_param("ANY", 0)) {                                   // any bytes at all
        std::string s = sx_string((size_t)sx_param("ANY", 0), "text"); m = std::make_shared<ModelPool>(); m->addRoot(m->newValue(int64_t(100000)));
        bool ok = true; try { json::parse(s, m); } catch (std::exception&) { ok = false; }
        sx_reach(ok ? "accepted" : "rejected"); sx_assert(m->numRoots() == 1 + (size_t)ok, "a failed import adds nothing"); MV v; v.k = MInt; v.i = 100000; reads(*m->root(0), v); sx_assert(m->checkForErrors().empty(), "the model is sound");
        bool jok = nlohmann::json::accept(s); sx_assert(ok == jok, "exactly JSON texts are accepted"); sx_observe(ok); m.reset(); return;
    }
    T t; std::string s = gen(t, d);
    if (how == 0) m = json::parse(s); else { m = std::make_shared<ModelPool>(); T u; json::parse("7", m); json::parse(s, m); u.v.k = MInt; u.v.i = 7; sx_assert(m->numRoots() == 2, "an import adds a root"); check(*m->root(0), u); }
    sx_assert(m->numRoots() == 1 + (size_t)how, "an import adds one root"); check(*m->root((size_t)how), t); m.reset();
}
