// malformed numeric literals are rejected, whatever precedes and follows them
#include "tok.h"
#define AZ "abcdfghijklmnopqrstuvwxyzABCDFGHIJKLMNOPQRSTUVWXYZ"    // without e and E
void sx_main() {
    int form = sx_param("FORM", 0); size_t tail = sx_param("TAIL", 1), k = sx_param("K", 2), pre = sx_param("PRE", 0);
    std::string s; const char* D = "0123456789";
    switch (form) {
    case 0: { s = In().sym(k, D, "d").sym(1, AZ, "l").s; char c = s.back(); if (k == 1) sx_assume(!((s[0] == '0') & ((c == 'x') | (c == 'b')))); break; }   // 12a
    case 1: s = In().sym(k, D, "d").lit(".").sym(1, D, "f").sym(1, AZ ".", "l").s; break;                                       // 1.5a 1.5.
    case 2: s = In().sym(k, D, "d").lit(".").sym(1, D, "f").sym(1, "eE", "E").sym(1, D, "x").sym(1, AZ "eE.", "l").s; break;    // 1.5e3x
    case 3: s = In().sym(k, D, "d").sym(1, "eE", "E").sym(1, D, "x").sym(1, AZ "eE.", "l").s; break;                            // 1e3x
    case 4: { char c = sx_string(1, "c")[0]; bool hex = isDig(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); sx_assume(!hex); s = std::string("0x") + c; break; }   // 0x without digit
    case 5: { char c = sx_string(1, "c")[0]; sx_assume((c != '0') & (c != '1')); s = std::string("0b") + c; break; }            // 0b without binary digit
    case 6: s = In().lit("0b").sym(k, "01", "d").sym(1, "23456789", "x").s; break;                                              // 0b102
    case 7: s = In().lit("0x").sym(k, "09afAF", "d").sym(1, "ghijklmnopqrstuvwxyzGHIJKLMNOPQRSTUVWXYZ.", "x").s; break;         // 0x1g 0x1.
    case 8: s = In().lit("0b").sym(k, "01", "d").sym(1, AZ ".", "x").s; break;                                                  // 0b1a 0b1.
    case 9: s = In().sym(k, D, "d").lit("..").s; break;                                                                         // 1..
    case 10: s = sx_choose(0, 1, "b") ? "0x" : "0b"; tail = 0; break;                                                           // nothing after the base
    case 11: case 12: {                                                                                                         // 1e 1e+ 1e- 1.5e without exponent digit
        s = In().sym(k, D, "d").lit(form == 12 ? ".5" : "").sym(1, "eE", "E").s; if (sx_bool("neg")) s += '-';
        if (tail) { char c = sx_string(1, "x")[0]; sx_assume(!(isDig(c)) & ((c != '-') | (s.back() == '-'))); s += c; } break; }
    }
    if (int z = sx_param("ZEROS", 0)) { size_t at = form == 4 || form == 5 || form == 6 || form == 7 || form == 8 ? 2 : 0; if (form != 4 && form != 5 && form != 10) s.insert(at, std::string(z, at ? '1' : '3')); }
    if (pre) { std::string p = symStr(pre, " (+,a", "pre"); sx_assume(p.back() != 'a'); s = p + s; }
    if (tail) s += sx_string(tail, "tail");
    auto r = lex(s);
    sx_reach("checked");
    sx_assert(!r.ok, "a malformed numeric literal was accepted");
}
