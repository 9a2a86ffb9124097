// decimal fraction and scientific literals
#include "tok.h"
void sx_main() {
    int form = sx_param("FORM", 0); size_t a = sx_param("INTD", 1), b = sx_param("FRAC", 1), e = sx_param("EXPD", 0); int neg = sx_param("NEG", 0);
    size_t za = sx_param("ZI", 0), zb = sx_param("ZF", 0);       // concrete digits around the symbolic ones
    static const char fill[] = "31415926535897932384626433832795028841";
    std::string I = std::string(fill, za) + symStr(a, "0123456789", "i"), F = std::string(fill, zb) + symStr(b, "0123456789", "f"); std::string E; for (size_t i = 0; i < e; i++) E += (char)('0' + sx_choose(0, 9, "e"));
    bool dot = form != 1;      // form 1: no decimal point
    std::string s = I; if (dot) s += "." + F;
    if (!E.empty()) { s += symIn("eE", "E"); if (neg) s += '-'; s += E; }
    uint64_t m = 0; for (char c : I) m = m * 10 + (c - '0'); if (dot) for (char c : F) m = m * 10 + (c - '0');
    uint64_t x = 0; for (char c : E) x = x * 10 + (c - '0');
    auto r = lex(s);
    sx_reach("literal");
    sx_assert(r.ok && r.t.size() == 2, "a valid floating point literal was not read as one token");
    if (!r.ok || r.t.size() != 2) return;
    if (!dot && x == 0) { sx_reach("integer"); 
        if (I.size() < 19 && m != 0) { sx_assert(r.t[0].type == Token::INT, "a literal without fraction and with exponent 0 was not read as an integer"); auto* p = val<int64_t>(r.t[0]); if (p) sx_assert((uint64_t)*p == m, "an integer literal with exponent 0 has the wrong value"); }
        return; }
    auto* p = val<double>(r.t[0]);
    sx_assert(r.t[0].type == Token::FLOAT && p, "a literal with fraction or exponent was not read as a floating point number");
    if (!p) return;
    // expected = m * 10^(x - |F|), within a relative error of 1e-12 (or exactly, for 0)
    double md = 0; for (char c : I) md = md * 10 + (c - '0'); if (dot) for (char c : F) md = md * 10 + (c - '0');   // may exceed 64 bits
    double want = md, p10 = 1; if (dot) for (char c : F) { (void)c; want = want / 10; }
    for (uint64_t i = 0; i < x; i++) p10 *= 10;
    want = neg ? want / p10 : want * p10;
    double diff = *p - want; if (diff < 0) diff = -diff;
    double tol = want * 1e-12;
    sx_assert(diff <= tol, "a floating point literal has the wrong value");
    sx_assert(r.t[0].begin == 0 && r.t[0].end == s.size(), "a floating point literal has the wrong span");
}
