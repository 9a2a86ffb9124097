// raising an error: the installed handler sees it exactly once, then the error itself is thrown
#include "tok.h"
#include <memory>
#include <typeinfo>
using namespace simfil;
struct Plain { int code; };                                        // an error type without a message
struct Rich : std::runtime_error { uint64_t a; int b; Rich(std::string m, uint64_t x, int y) : std::runtime_error(m), a(x), b(y) {} };
struct Movable : std::exception { std::unique_ptr<int> p; explicit Movable(std::unique_ptr<int>&& q) : p(std::move(q)) {} explicit Movable(const std::unique_ptr<int>&) {} Movable(Movable&&) = default; const char* what() const noexcept override { return "movable"; } };
static int calls, callsOther; static std::string gotType, gotMsg; static bool thrown, duringCall; static int order;
void sx_main() {
    size_t n = sx_param("N", 2); int mode = sx_param("MODE", 0);
    std::string msg = sx_string(n, "msg"); for (char c : msg) sx_assume(c != 0);
    uint64_t x = sx_var(64, "x"); int y = (int)sx_var(32, "y");
    int set = (int)sx_choose(0, 4, "handler");      // 0 never set, 1 set, 2 set and cleared, 3 replaced, 4 handler throws
    auto& H = ThrowHandler::instance();
    sx_assert(&H == &ThrowHandler::instance(), "there is more than one handler registry");
    auto rec = [](const std::string& t, const std::string& m) { calls++; gotType = t; gotMsg = m; duringCall = !thrown; };
    if (set == 1 || set == 2) H.set(rec);
    if (set == 2) H.set(nullptr);
    if (set == 3) { H.set([](const std::string&, const std::string&) { callsOther++; }); H.set(rec); }
    if (set == 4) H.set([](const std::string& t, const std::string& m) { calls++; gotType = t; gotMsg = m; throw 42; });
    sx_assert((bool)H.get() == (set != 0 && set != 2), "the registered handler is not the one that was set last");
    int rounds = (int)sx_param("ROUNDS", 2);
    for (int i = 0; i < rounds; i++) {
        calls = callsOther = 0; thrown = duringCall = false; gotType.clear(); gotMsg.clear();
        const char* type = nullptr; std::string wantMsg = msg; bool other = false; int fromHandler = 0;
        try {
            if (mode == 0) { type = typeid(std::runtime_error).name(); raise<std::runtime_error>(msg); }
            else if (mode == 1) { type = typeid(Rich).name(); raise<Rich>(msg, x, y); }
            else if (mode == 2) { type = typeid(Plain).name(); wantMsg.clear(); raise<Plain>(Plain{y}); }
            else if (mode == 3) { type = typeid(std::out_of_range).name(); raise<std::out_of_range>(msg.c_str()); }
            else { type = typeid(Movable).name(); wantMsg = "movable"; raise<Movable>(std::make_unique<int>(y)); }
        }
        catch (const Rich& e) { thrown = true; other = mode != 1; sx_assert(e.a == x && e.b == y && msg == e.what(), "a raised error lost its contents"); }
        catch (const Movable& e) { thrown = true; other = mode != 4; sx_assert(e.p && *e.p == y, "a raised error lost its contents"); }
        catch (const std::out_of_range& e) { thrown = true; other = mode != 3; sx_assert(msg == e.what(), "a raised error lost its message"); }
        catch (const std::runtime_error& e) { thrown = true; other = mode != 0; sx_assert(msg == e.what(), "a raised error lost its message"); }
        catch (const Plain& e) { thrown = true; other = mode != 2; sx_assert(e.code == y, "a raised error lost its contents"); }
        catch (int v) { fromHandler = v; }
        sx_observe(calls); sx_observe(thrown);
        if (set == 4) { sx_reach("handler throws"); sx_assert(fromHandler == 42 && !thrown && calls == 1, "an error thrown by the handler is not propagated"); continue; }
        sx_assert(thrown && !other, "raising did not throw an error of the requested type");
        sx_assert(callsOther == 0, "a replaced handler was still called");
        if (set == 1 || set == 3) {
            sx_reach("handled");
            sx_assert(calls == 1, "the handler was not called exactly once");
            sx_assert(duringCall, "the handler was called after the error had been thrown");
            sx_assert(gotType == type, "the handler got the wrong type name");
            sx_assert(gotMsg == wantMsg, "the handler got the wrong message");
        } else { sx_reach("unhandled"); sx_assert(calls == 0, "a handler that is not set was called"); }
    }
    H.set(nullptr);
}
