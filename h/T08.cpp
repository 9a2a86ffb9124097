// names: spelling is preserved, escapes make any character part of a name
#include "tok.h"
static const char* START = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_$";
static const char* NEXT = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
static bool kw(std::string s) { if (s.size() > 6) return false; for (auto& c : s) c = (char)(c | (((c >= 'A') & (c <= 'Z')) << 5)); for (auto k : {"_", "and", "or", "not", "typeof", "true", "false", "null", "as"}) if (s == k) return true; return false; }
void sx_main() {
    size_t k = sx_param("K", 2), esc = sx_param("ESC", 0), more = sx_param("MORE", 0); int at = sx_param("AT", 0);
    bool wide = k + more <= 8;      // longer names: letters and digits only (each underscore doubles the paths)
    std::string text, src;
    auto plain = [&](size_t n) { for (size_t i = 0; i < n; i++) { char c = symIn(text.empty() ? START : NEXT, "c"); if (!wide) sx_assume((c != '_') & (c != '$')); text += c; src += c; } };
    auto escaped = [&](size_t n) { for (size_t i = 0; i < n; i++) { char c; sx_bytes(&c, 1, "e"); text += c; src += '\\'; src += c; } };
    if (at == 0) { escaped(esc); plain(k); } else { plain(k); escaped(esc); }
    plain(more);
    sx_assume(!kw(text));
    std::string tail; size_t extra = 0;
    if (sx_param("CTX", 0)) { char c = symIn(" .+)]#", "t"); tail = c; extra = c == ' ' ? 0 : 1; }
    auto r = lex(src + tail);
    sx_reach("name");
    sx_assert(r.ok && r.t.size() == 2 + extra, "a name was not read as one token");
    if (!r.ok || r.t.empty()) return;
    auto* p = val<std::string>(r.t[0]);
    sx_assert(r.t[0].type == Token::WORD && p, "a name was not read as a name");
    if (!p) return;
    sx_assert(p->size() == text.size(), "a name has the wrong length");
    if (p->size() == text.size()) { bool eq = true; for (size_t j = 0; j < text.size(); j++) eq = eq & ((*p)[j] == text[j]); sx_assert(eq, "a name has the wrong spelling"); }
    sx_assert(r.t[0].begin == 0 && r.t[0].end == src.size(), "a name has the wrong span");
}
