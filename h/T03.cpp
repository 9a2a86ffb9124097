// integer literals: exact value or error
#include "tok.h"
template <int BASE> static void check(const std::string& pre, const std::string& d) {
    // reference: the digits' value and whether it exceeds 2^63-1, without branching on the digits
    bool over = false; uint64_t v = 0;
    if (BASE == 10) {
        for (char c : d) { uint64_t x = (uint64_t)(int64_t)(c - '0'); over = over | (v > (INT64_MAX - x) / 10); v = v * 10 + x; }
    } else if (BASE == 2) {
        size_t i = 0;
        for (char c : d) { if (d.size() - i > 63) over = over | (c != '0'); v = v * 2 + (uint64_t)(int64_t)(c - '0'); i++; }
    } else {
        size_t i = 0;
        for (char c : d) {
            if (d.size() - i > 16) over = over | (c != '0');
            if (d.size() - i == 16) over = over | !((c >= '0') & (c <= '7'));
            int x = c <= '9' ? c - '0' : c <= 'F' ? c - 'A' + 10 : c - 'a' + 10;
            v = v * 16 + (uint64_t)(int64_t)x; i++;
        }
    }
    auto r = lex(pre + d);
    if (over) { sx_reach("too large"); sx_assert(!r.ok, "an integer literal above the 64 bit range was accepted"); return; }
    sx_reach("in range");
    sx_assert(r.ok && r.t.size() == 2, "a valid integer literal was not read as one token");
    if (!r.ok || r.t.empty()) return;
    auto* p = val<int64_t>(r.t[0]);
    sx_assert(r.t[0].type == Token::INT && p, "an integer literal was not read as an integer");
    if (p) sx_assert((uint64_t)*p == v, "an integer literal has the wrong value");
    sx_assert(r.t[0].begin == 0 && r.t[0].end == pre.size() + d.size(), "an integer literal has the wrong span");
}
void sx_main() {
    int base = sx_param("BASE", 10); size_t k = sx_param("K", 3), z = sx_param("Z", 0); int mode = sx_param("MODE", 0);
    const char* DIG = base == 16 ? "0123456789abcdefABCDEF" : base == 2 ? "01" : "0123456789"; const char* FEW = base == 16 ? "0189afAF" : DIG;
    std::string d, pre = base == 16 ? "0x" : base == 2 ? "0b" : "";
    if (mode == 0) d = In().lit(std::string(z, '0')).sym(k, DIG, "d").s;            // z leading zeros and k symbolic digits
    else if (mode == 1) {   // around the largest value: its first digits, then k symbolic digits
        std::string m = base == 16 ? "7fffffffffffffff" : base == 2 ? std::string(63, '1') : "9223372036854775807";
        d = In().lit(std::string(z, '0') + m.substr(0, m.size() - k)).sym(k, FEW, "d").s;
    } else if (mode == 2) {   // one more digit than the largest value has; first digit and last k digits symbolic
        std::string m = base == 16 ? "012345678abcdef12" : base == 2 ? std::string(64, '0') : "01234567890123456780";
        d = In().sym(1, base == 16 ? "0178fF" : DIG, "f").lit(m.substr(1, m.size() - 1 - k)).sym(k, FEW, "d").s;
    } else {                  // long literal with few symbolic digits
        d = base == 16 ? "1234567890ABCDE" : base == 2 ? "10110111011110111110111111011111110" : "123456789012345678";
        for (size_t i = 0; i < k; i++) d[i * (d.size() - 1) / (k > 1 ? k - 1 : 1)] = symIn(FEW, "d");
    }
    if (base == 10) check<10>(pre, d); else if (base == 2) check<2>(pre, d); else check<16>(pre, d);
}
