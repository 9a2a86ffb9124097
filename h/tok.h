// helpers shared by the tokenizer harnesses
#pragma once
#include "simfil/token.h"
#include "simfil/exception-handler.h"
#include "sx.h"
#include <initializer_list>
#include <stdexcept>
#include <string>
#include <vector>
using simfil::Token;
struct Lexed { bool ok = false; std::string what; std::vector<Token> t; };
// exact-size heap copy, so that reading past the end of the input is an out-of-bounds access
struct Buf { char* p; size_t n; explicit Buf(const std::string& s) : p(new char[s.size()]), n(s.size()) { if (n) memcpy(p, s.data(), n); } ~Buf() { delete[] p; } Buf(const Buf&) = delete; };
inline Lexed lex(const std::string& s) {
    Buf b(s); Lexed r;
    try { r.t = simfil::tokenize(std::string_view(b.p, b.n)); r.ok = true; }
    catch (const std::runtime_error& e) { r.what = e.what(); }
    sx_observe(r.ok); sx_observe(r.t.size());   // compared with the native run of the same input
    for (auto& t : r.t) { sx_observe(t.type); sx_observe(t.begin); sx_observe(t.end); if (t.type == Token::INT) if (auto p = std::get_if<int64_t>(&t.value)) sx_observe(*p); }
    return r;
}
inline bool sameValue(const Token& a, const Token& b) {
    if (a.type != b.type || a.value.index() != b.value.index()) return false;
    switch (a.value.index()) {
    case 1: return std::get<1>(a.value) == std::get<1>(b.value);
    case 2: return std::get<2>(a.value) == std::get<2>(b.value);
    case 3: { double x = std::get<3>(a.value), y = std::get<3>(b.value); return memcmp(&x, &y, 8) == 0; }
    default: return true;
    }
}
inline bool isWs(char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool isDig(char c) { return c >= '0' && c <= '9'; }
inline bool isAlph(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool isAlnum(char c) { return isDig(c) || isAlph(c); }
inline char symIn(const char* set, const char* name) {   // one symbolic byte out of a set, without forking
    char c; sx_bytes(&c, 1, name); bool in = false;
    for (const char* p = set; *p; p++) in = in | (c == *p);
    sx_assume(in); return c;
}
inline std::string symStr(size_t n, const char* set, const char* name) { std::string s; for (size_t i = 0; i < n; i++) s.push_back(symIn(set, name)); return s; }
// builds an input piece by piece (chained calls are sequenced, unlike operands of +)
struct In {
    std::string s;
    In& lit(const std::string& x) { s += x; return *this; }
    In& sym(size_t n, const char* set, const char* name) { s += symStr(n, set, name); return *this; }
    In& any(size_t n, const char* name) { s += sx_string(n, name); return *this; }
};
template <class T> const T* val(const Token& t) { return std::get_if<T>(&t.value); }
inline bool isNil(const Token& t) { return t.type == Token::NIL; }
