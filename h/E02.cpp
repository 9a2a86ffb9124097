// tokenizer errors: reported once, to handler and caller alike, with the position and the remaining input
#include "tok.h"
using namespace simfil;
static int calls; static std::string gotMsg, gotType;
void sx_main() {
    size_t n = sx_param("N", 2); int mode = sx_param("MODE", 0);
    std::string s = sx_string(n, "in"); for (char c : s) sx_assume(c != 0);
    if (mode == 1) s = "ab 12 " + s; else if (mode == 2) s = "'" + s; else if (mode == 3) s = "1" + s; else if (mode == 4) s = symStr(sx_param("PAD", 12), " \t\n", "ws") + "0b" + s;
    if (size_t post = sx_param("POST", 0)) s += symStr(post, "abcXYZ", "post");
    bool handler = sx_choose(0, 1, "handler");
    if (handler) ThrowHandler::instance().set([](const std::string& t, const std::string& m) { calls++; gotType = t; gotMsg = m; });
    auto r = lex(s);
    ThrowHandler::instance().set(nullptr);
    sx_observe(calls);
    if (r.ok) { sx_reach("accepted"); sx_assert(calls == 0, "the error handler was called although the input was accepted"); return; }
    sx_reach(handler ? "handled" : "unhandled");
    if (handler) {
        sx_assert(calls == 1, "the error handler was not called exactly once for one error");
        sx_assert(gotMsg == r.what, "handler and caller got different messages");
        sx_assert(gotType == typeid(std::runtime_error).name(), "the handler got the wrong error type");
    } else sx_assert(calls == 0, "an error handler that is not set was called");
    // "<what> at <position>[ (<rest of the input>)]"
    sx_assert(r.what.size() > 0, "an error without message");
    bool good = false; size_t where = 0;
    for (size_t p = 0; p <= s.size(); p++) {
        std::string e = " at " + std::to_string(p); if (p < s.size()) e += " (" + s.substr(p) + ")";
        if (r.what.size() > e.size() && r.what.compare(r.what.size() - e.size(), e.size(), e) == 0) { good = true; where = p; }
    }
    sx_assert(good, "the error message does not end with the position and the rest of the input");
    if (!good) return;
    // a character foreign to the language, after a valid beginning, is reported at its own position
    for (size_t p = 0; p < s.size(); p++) {
        char c = s[p]; bool known = isAlnum(c) | isWs(c); for (const char* q = "_$\\'\"(){}[],:.+-*/%~|&#^?<>=!"; *q; q++) known = known | (c == *q);
        if (known) continue;
        if (lex(s.substr(0, p)).ok) { sx_reach("foreign character"); sx_assert(where == p, "an invalid character is reported at a wrong position"); }
        break;
    }
}
