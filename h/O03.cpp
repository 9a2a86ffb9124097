// Comparison operators agree with the order of numbers and strings, with each other, and with the rule for incompatible types.
#include "q.h"
struct Six { bool lt, le, gt, ge, eq, ne; };
static bool bit(const R& r) { sx_assert(r.is(VT::Bool), "a comparison gives one boolean"); return r.v[0].as<VT::Bool>(); }
static int scmp(const std::string& a, const std::string& b) {
    size_t n = a.size() < b.size() ? a.size() : b.size();
    for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
    return a.size() < b.size() ? -1 : a.size() > b.size();
}
void sx_main() {
    int mode = (int)sx_param("MODE", 0);
    int ka = (int)sx_param("KA", -1), kb = (int)sx_param("KB", -1);
    if (ka < 0) ka = (int)sx_choose(0, KCOUNT - 1, "kind of a");
    if (kb < 0) kb = (int)sx_choose(0, KCOUNT - 1, "kind of b");
    V a = smallv(mode == 1, ka, "a", sx_param("LA", 1)), b = smallv(mode == 1, kb, "b", sx_param("LB", 1));
    W w;
    auto def = [&](const char* n, const V& v) { if (mode == 1 && v.k < KNull) w.env.constants.emplace(n, val(v)); else put(w, n, v); };
    def("a", a); def("b", b);
    R ra = w.run("a"), rb = w.run("b");
    if (ka == KInt) { sx_assert(ra.isInt(a.i), "operands read back"); a.i = ra.i(); }
    if (kb == KInt) { sx_assert(rb.isInt(b.i), "operands read back"); b.i = rb.i(); }
    Six s;
    s.lt = bit(w.run("a < b")); s.le = bit(w.run("a <= b")); s.gt = bit(w.run("a > b")); s.ge = bit(w.run("a >= b")); s.eq = bit(w.run("a == b")); s.ne = bit(w.run("a != b"));
    if (sx_param("ALIAS", 0)) sx_assert(bit(w.run("a = b")) == s.eq, "= is an alias of ==");
    sx_observe(s.lt); sx_observe(s.le); sx_observe(s.gt); sx_observe(s.ge); sx_observe(s.eq); sx_observe(s.ne);
    sx_assert(s.ne == !s.eq, "!= is the opposite of ==");
    bool na = ka == KInt || ka == KDouble, nb = kb == KInt || kb == KDouble;
    if (na && nb) {
        sx_reach("numbers");
        bool lt, le, gt, ge, eq;
        if (ka == KInt && kb == KInt) { lt = a.i < b.i; le = a.i <= b.i; gt = b.i < a.i; ge = b.i <= a.i; eq = a.i == b.i; }
        else { double x = ka == KInt ? (double)a.i : a.d, y = kb == KInt ? (double)b.i : b.d; lt = x < y; le = x <= y; gt = y < x; ge = y <= x; eq = x == y; }
        sx_assert(s.lt == lt, "< on numbers"); sx_assert(s.le == le, "<= on numbers"); sx_assert(s.gt == gt, "> on numbers"); sx_assert(s.ge == ge, ">= on numbers"); sx_assert(s.eq == eq, "== on numbers");
    } else if (ka == KStr && kb == KStr) {
        sx_reach("strings");
        int c = scmp(a.s, b.s);
        sx_assert(s.lt == (c < 0) && s.gt == (c > 0) && s.eq == (c == 0) && s.le == (c <= 0) && s.ge == (c >= 0), "strings compare byte by byte");
    } else if (ka == KBool && kb == KBool) { sx_reach("booleans"); sx_assert(s.eq == (a.b == b.b), "== on booleans"); }
    else if (ka == KNull && kb == KNull) { sx_reach("nulls"); sx_assert(s.eq, "null equals null"); }
    else if (ka != kb && !(ka >= KObj && kb >= KObj)) { sx_reach("incompatible"); sx_assert(!s.lt && !s.le && !s.gt && !s.ge && !s.eq, "comparing incompatible types is false"); }
}
