// Warnings and traces from two threads: no race, none is lost.
#include "q.h"
static Environment* env; static int kind[2]; static int64_t payload[2];
static void body(int t) {
    if (kind[t] == 0) env->warn(t ? "second" : "first", t ? "b" : "a");
    else if (kind[t] == 1) env->trace("name", [t](Trace& x) { x.calls += 1; x.values.push_back(Value::make(payload[t])); });
    else if (kind[t] == 2) env->trace(t ? "b" : "a", [t](Trace& x) { x.calls += 1; x.values.push_back(Value::make(payload[t])); });
    else { try { env->trace("name", [](Trace&) { throw std::runtime_error("x"); }); } catch (std::runtime_error&) {} }
}
void sx_main() {
    W w; env = &w.env; payload[0] = sx_i64("p"); payload[1] = sx_i64("q"); for (int& k : kind) k = (int)sx_choose(0, 3, "operation"); if (sx_param("SAME", 0)) sx_assume(kind[0] == kind[1]); else sx_assume(kind[0] != kind[1]); int pre = (int)sx_choose(0, 2, "before"); sx_reach("two");
    for (int i = 0; i < pre; i++) { w.env.warn("old", ""); w.env.trace("name", [](Trace& x) { x.calls += 1; }); }
    sx_threads(body);
    size_t warns = (kind[0] == 0) + (kind[1] == 0), named = (kind[0] == 1) + (kind[1] == 1); sx_observe(w.env.warnings.size()); sx_observe(w.env.traces.size());
    sx_assert(w.env.warnings.size() == pre + warns, "every warning is kept"); size_t a = 0, b = 0, o = 0; for (auto& x : w.env.warnings) { a += x.first == "first" && x.second == "a"; b += x.first == "second" && x.second == "b"; o += x.first == "old"; }
    sx_assert(a == (kind[0] == 0) && b == (kind[1] == 0) && o == (size_t)pre, "as it was given");
    auto calls = [&](const char* n) { auto it = w.env.traces.find(n); return it == w.env.traces.end() ? size_t(0) : it->second.calls; };
    sx_assert(calls("name") == pre + named && calls("a") == (kind[0] == 2) && calls("b") == (kind[1] == 2), "every traced call is counted");
    size_t p = 0, q = 0; for (auto& t : w.env.traces) for (auto& v : t.second.values) { p += v.as<VT::Int>() == payload[0]; q += v.as<VT::Int>() == payload[1]; }
    bool t0 = kind[0] == 1 || kind[0] == 2, t1 = kind[1] == 1 || kind[1] == 2; sx_assert(p >= t0 && q >= t1, "every traced value is stored");
}
