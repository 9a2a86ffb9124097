// Stand-in for the part of {fmt} used by simfil: "{}" fields filled with integers, strings and string-like values in order
#pragma once
#include <cstdint>
#include <string>
#include <string_view>
#include <type_traits>
namespace fmt {
namespace detail {
template <class T> std::string str(const T& v) {
    if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
    else if constexpr (std::is_same_v<T, char>) return std::string(1, v);
    else if constexpr (std::is_integral_v<T> || std::is_enum_v<T> || std::is_floating_point_v<T>) return std::to_string(v);
    else if constexpr (std::is_convertible_v<const T&, std::string_view>) return std::string(std::string_view(v));
    else return v.str();
}
template <size_t N> std::string str(const char (&v)[N]) { return std::string(v); }
}
template <class It, class S> struct join_view { It b, e; S sep; std::string str() const { std::string r; bool first = true; for (It i = b; i != e; ++i) { if (!first) r += sep; first = false; r += detail::str(*i); } return r; } };
template <class R> auto join(const R& r, std::string_view sep) { return join_view<decltype(r.begin()), std::string_view>{r.begin(), r.end(), sep}; }
template <class... A> std::string format(std::string_view f, const A&... a) {
    std::string args[sizeof...(A) + 1] = {detail::str(a)...}; std::string r; size_t n = 0;
    for (size_t i = 0; i < f.size(); i++) {
        if (f[i] == '{' && i + 1 < f.size() && f[i + 1] == '{') { r += '{'; i++; continue; }
        if (f[i] == '}' && i + 1 < f.size() && f[i + 1] == '}') { r += '}'; i++; continue; }
        if (f[i] == '{') { while (i < f.size() && f[i] != '}') i++; if (n < sizeof...(A)) r += args[n++]; continue; }
        r += f[i];
    }
    return r;
}
}
