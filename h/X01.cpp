// Transient objects keep their payload through any copies and moves, and every payload is released exactly once.
#include "m.h"
#include "simfil/typed-meta-type.h"
#include <algorithm>
#include <memory>
#include <optional>
struct Pay { int64_t v = 0; };
static int live, made; static Pay* alive[64];
static int idx(const void* p) { for (int i = 0; i < made; i++) if (alive[i] == p) return i; return -1; }
struct Meta final : MetaType {
    Meta(const char* n) : MetaType(n) {}
    auto add(Pay* p) const -> void* { sx_assert(made < 64, "payloads"); alive[made++] = p; live++; return p; }
    auto init() const -> void* override { return add(new Pay); }
    auto copy(void* p) const -> void* override { sx_assert(idx(p) >= 0, "only a payload that exists is copied"); return add(new Pay(*(Pay*)p)); }
    auto deinit(void* p) const -> void override { int i = idx(p); sx_assert(i >= 0, "a payload is released once"); alive[i] = nullptr; live--; delete (Pay*)p; }
    auto unaryOp(std::string_view, const TransientObject&) const -> Value override { return Value::null(); }
    auto binaryOp(std::string_view, const TransientObject&, const Value&) const -> Value override { return Value::null(); }
    auto binaryOp(std::string_view, const Value&, const TransientObject&) const -> Value override { return Value::null(); }
    auto unpack(const TransientObject&, std::function<bool(Value)>) const -> void override {}
};
static Meta A("a"), B("b");
struct Sh { int k = 0; int64_t v = 0; const Meta* m = nullptr; };            // k: 0 scalar, 1 transient, 2 moved from
static Value fresh(Sh& s) {
    s = {}; switch (sx_choose(0, 2, "fresh")) { case 0: s.v = sx_i64("scalar"); return Value::make(s.v); case 1: s.m = &A; break; default: s.m = &B; }
    s.k = 1; s.v = sx_i64("payload"); TransientObject o(s.m); ((Pay*)o.data)->v = s.v; return Value(VT::TransientObject, std::move(o));
}
static void same(const Value& x, const Sh& s) {
    if (s.k == 2) return;
    if (!s.k) { sx_assert(x.isa(VT::Int) && x.as<VT::Int>() == s.v, "a scalar keeps its value"); return; }
    sx_assert(x.isa(VT::TransientObject), "a transient object stays one"); auto& o = std::get<TransientObject>(x.value); sx_assert(o.meta == s.m && o.data && idx(o.data) >= 0, "an object has its type and a payload"); sx_assert(((Pay*)o.data)->v == s.v, "an object keeps its payload");
}
void sx_main() {
    int n = (int)sx_param("N", 2), slots = (int)sx_param("S", 2); live = made = 0;
    {
        std::vector<Value> v; std::vector<Sh> h(slots); for (int i = 0; i < slots; i++) v.push_back(fresh(h[i]));
        auto moved = [](Sh& s) { if (s.k == 1) s.k = 2; };
        for (int i = 0; i < n; i++) {
            int op = (int)sx_choose(0, 8, "op"); size_t a = sx_choose(0, v.size() - 1, "a"), b = sx_choose(0, v.size() - 1, "b");
            switch (op) {
            case 0: sx_reach("copy"); v[a] = v[b]; h[a] = h[b]; break;
            case 1: sx_reach("move"); v[a] = std::move(v[b]); { Sh s = h[b]; if (a != b) { moved(h[b]); h[a] = s; } } break;
            case 2: { Sh s; v[a] = fresh(s); h[a] = s; break; }
            case 3: std::swap(v[a], v[b]); std::swap(h[a], h[b]); break;
            case 4: sx_reach("erase"); if (v.size() > 1) { v.erase(v.begin() + a); h.erase(h.begin() + a); } break;
            case 5: v.insert(v.begin() + a, Value(v[b])); { Sh s = h[b]; h.insert(h.begin() + a, s); } break;
            case 6: std::rotate(v.begin(), v.begin() + a, v.end()); std::rotate(h.begin(), h.begin() + a, h.end()); break;
            case 7: { std::optional<Value> o = std::move(v[b]); Sh s = h[b]; moved(h[b]); same(*o, s); v[a] = std::move(*o); h[a] = s; break; }
            default: { std::vector<Value> c = v; for (size_t k = 0; k < v.size(); k++) same(c[k], h[k]); v = std::move(c); break; }
            }
            for (size_t k = 0; k < v.size(); k++) same(v[k], h[k]);
        }
        int want = 0; for (auto& s : h) want += s.k == 1; sx_assert(live == want, "there is one payload for each object"); sx_observe(live); sx_observe(made);
    }
    sx_assert(live == 0, "all payloads are released");
}
