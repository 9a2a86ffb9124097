// CaseInsensitiveHash and CaseInsensitiveEqual agree.
#include "p.h"
void sx_main() {
    int n = (int)sx_param("N", 2), m = (int)sx_param("M", n); std::string a = sx_string(n, "a"), b;
    detail::CaseInsensitiveHash h; detail::CaseInsensitiveEqual eq;
    if (sx_param("PART", 0) == 0) {              // equality is equality up to the case of ASCII letters
        b = sx_string(m, "b"); bool e = eq(a, b); sx_assert(e == sameName(a, b), "strings are equal up to the case of letters"); sx_reach(e ? "equal" : "different");
        sx_assert(eq(b, a) == e && eq(a, a), "symmetric and reflexive"); sx_observe(e);
    } else if (sx_param("PART", 0) == 2) {       // long strings which differ in the case of one letter, or of all
        b = std::string(n, 'x'); for (int i = 0; i < n; i++) b[i] = (char)(i % 27 ? 'a' + i % 26 : '_'); a = b; size_t at = sx_choose(0, n, "position"); char c = (char)sx_range('a', 'z', "c");
        if (at == (size_t)n) { for (auto& x : a) if (x != '_') x = (char)(x - 32); } else { b[at] = c; a[at] = (char)(c - 32); } sx_assert(eq(a, b), "equal up to the case of letters"); sx_assert(h(a) == h(b), "equal strings have equal hashes"); sx_reach("long"); sx_observe(h(a));
    } else if (sx_param("PART", 0) == 3) {       // long strings which differ in one byte
        b = std::string(n, 'x'); a = b; size_t at = sx_choose(0, n - 1, "position"); a[at] = (char)sx_var(8, "a"); b[at] = (char)sx_var(8, "b"); bool e = eq(a, b); sx_assert(e == sameName(a, b), "strings are equal up to the case of letters"); sx_assert(!eq(a, b + "x") && !eq(a + "x", b), "of the same length"); sx_observe(e);
    } else {                                     // equal strings have equal hashes
        b = a; for (int i = 0; i < n; i++) if (sx_choose(0, 1, "letter")) { char c = (char)sx_range('a', 'z', "c"); a[i] = sx_choose(0, 1, "upper") ? (char)(c - 32) : c; b[i] = sx_choose(0, 1, "upper") ? (char)(c - 32) : c; }
        sx_assert(h(a) == h(b), "equal strings have equal hashes"); sx_reach("hash"); sx_observe(h(a));
    }
}
