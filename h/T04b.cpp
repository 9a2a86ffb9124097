// decimal literals whose exponent alone is beyond the range of a double, or whose digits are all zero
#include "tok.h"
void sx_main() {
    int form = sx_param("FORM", 0), neg = sx_param("NEG", 0), hi = sx_param("HI", 3); size_t z = sx_param("ZEROS", 0), e = sx_param("EXPD", 2);
    std::string D = symStr(1, "0123456789", "digit"), E = hi ? std::to_string(hi) : ""; for (size_t i = 0; i < e; i++) E += (char)('0' + sx_choose(0, 9, "exponent"));
    std::string s; int64_t x = 0; for (char c : E) x = x * 10 + (c - '0'); if (neg) x = -x;
    if (form == 0) { s = D + std::string(z, '0'); x += (int64_t)z; }             // d000e-X
    else if (form == 1) { s = "0." + std::string(z, '0') + D; x -= (int64_t)z + 1; }   // 0.000deX
    else if (form == 2) { s = D + std::string(z, '0') + ".0"; x += (int64_t)z; }
    s += symIn("eE", "e"); if (neg) s += '-'; s += E;
    auto r = lex(s);
    sx_reach("literal");
    sx_assert(r.ok && r.t.size() == 2, "a valid floating point literal was not read as one token");
    if (!r.ok || r.t.size() != 2) return;
    auto* p = val<double>(r.t[0]);
    sx_assert(r.t[0].type == Token::FLOAT && p, "a literal with fraction or exponent was not read as a floating point number");
    if (!p) return;
    double v = *p;
    if (D[0] == '0') { sx_reach("zero"); sx_assert(v == 0, "a literal whose digits are all zero is not zero"); return; }
    if (x < -307 || x > 307) { sx_reach("beyond"); sx_assert(v >= 0, "a literal beyond the range of a double is not a number"); return; }
    sx_reach("in range");
    double p10 = 1; for (int64_t i = 0; i < (x < 0 ? -x : x); i++) p10 *= 10;
    double d = D[0] - '0', want = x < 0 ? d / p10 : d * p10, diff = v - want; if (diff < 0) diff = -diff;
    sx_assert(diff <= want * 1e-12, "a floating point literal has the wrong value");
}
