// Model of the parts of libstdc++/libc that live in shared libraries: compiled to bitcode and
// linked with the code under test for symbolic execution.  Natively (replay) the real libraries are used.
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <exception>
#include <functional>
#include <new>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_map>
#include <map>
#include <list>
#include <optional>
#include <variant>
#include <clocale>
#include <locale>
#include <regex>
#include <chrono>
#include <memory>
#include <regex>
#include <shared_mutex>

extern "C" { int sx_errno_cell; }

template void std::string::_M_replace_cold(char*, size_type, const char*, const size_type, const size_type);

namespace std {
// --- reference counted message string of the standard exceptions
struct sx_rep { long rc; };
static char* cow_make(const char* s, size_t n) {
    char* p = (char*)malloc(sizeof(sx_rep) + n + 1);
    ((sx_rep*)p)->rc = 1; p += sizeof(sx_rep); memcpy(p, s, n); p[n] = 0; return p;
}
static void cow_drop(const char* p) { if (!p) return; auto* r = (sx_rep*)(const_cast<char*>(p) - sizeof(sx_rep)); if (--r->rc == 0) free(r); }
static const char* cow_ref(const char* p) { ++((sx_rep*)(const_cast<char*>(p) - sizeof(sx_rep)))->rc; return p; }
__cow_string::__cow_string() : _M_p(cow_make("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(cow_make(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(cow_make(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(cow_ref(o._M_p)) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { const char* n = cow_ref(o._M_p); cow_drop(_M_p); _M_p = n; return *this; }
__cow_string::~__cow_string() { cow_drop(_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(cow_ref(o._M_p)) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* n = cow_ref(o._M_p); cow_drop(_M_p); _M_p = n; return *this; }

exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

#define SX_EXC(T) \
    T::T(const std::string& s) : exception(), _M_msg(s) {} \
    T::T(const char* s) : exception(), _M_msg(s, strlen(s)) {} \
    T::T(const T& o) noexcept : exception(o), _M_msg(o._M_msg) {} \
    T::T(T&& o) noexcept : exception(o), _M_msg(o._M_msg) {} \
    T& T::operator=(const T& o) noexcept { _M_msg = o._M_msg; return *this; } \
    T& T::operator=(T&& o) noexcept { _M_msg = o._M_msg; return *this; } \
    T::~T() noexcept {} \
    const char* T::what() const noexcept { return _M_msg._M_p; }
SX_EXC(runtime_error)
SX_EXC(logic_error)
#define SX_SUB(T, B) T::T(const std::string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
SX_SUB(domain_error, logic_error)
SX_SUB(invalid_argument, logic_error)
SX_SUB(length_error, logic_error)
SX_SUB(out_of_range, logic_error)
SX_SUB(range_error, runtime_error)
SX_SUB(overflow_error, runtime_error)
SX_SUB(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_out_of_range_fmt(const char* f, ...) { throw out_of_range(f); }
void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept { std::terminate(); }

// --- unordered containers
size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) {   // MurmurHashUnaligned2, as in libstdc++
    static const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL;
    const char* const buf = (const char*)ptr;
    auto shift_mix = [](size_t v) { return v ^ (v >> 47); };
    const size_t len_aligned = len & ~(size_t)0x7;
    const char* const end = buf + len_aligned;
    size_t hash = seed ^ (len * mul);
    for (const char* p = buf; p != end; p += 8) { size_t w; memcpy(&w, p, 8); const size_t data = shift_mix(w * mul) * mul; hash ^= data; hash *= mul; }
    if ((len & 0x7) != 0) { size_t data = 0; int n = len & 7; --n; do data = (data << 8) + (unsigned char)end[n]; while (--n >= 0); hash ^= data; hash *= mul; }
    hash = shift_mix(hash) * mul; hash = shift_mix(hash);
    return hash;
}
namespace __detail {
static const unsigned long primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273, 11113, 12011, 12983, 14033, 15173, 16411, 17749, 19183, 20753, 22447, 24281, 26267, 28411, 30727, 33223, 35933, 38873, 42043, 45481, 49201, 53201, 57557, 62233, 67307, 72817, 78779, 85229, 92203, 99733, 107897};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
    if (n < sizeof(fast)) { if (n == 0) return 1; _M_next_resize = (size_t)__builtin_floor(fast[n] * (double)_M_max_load_factor); return fast[n]; }
    for (unsigned long p : primes) if (p >= n) { _M_next_resize = (size_t)__builtin_floor(p * (double)_M_max_load_factor); return p; }
    _M_next_resize = 2 * n + 1; return 2 * n + 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const {
    if (n_elt + n_ins > _M_next_resize) {
        double min_bkts = (double)std::max<size_t>(n_elt + n_ins, _M_next_resize ? 0 : 11) / (double)_M_max_load_factor;
        if (min_bkts >= n_bkt) return {true, _M_next_bkt(std::max<size_t>((size_t)__builtin_floor(min_bkts) + 1, n_bkt * 2))};
        _M_next_resize = (size_t)__builtin_floor(n_bkt * (double)_M_max_load_factor);
        return {false, 0};
    }
    return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto* n = _M_next; auto* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
    if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first; auto* const tmp = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp; }
}
}
// --- red-black tree
typedef _Rb_tree_node_base N;
N* _Rb_tree_increment(N* x) noexcept {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { N* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
}
const N* _Rb_tree_increment(const N* x) noexcept { return _Rb_tree_increment(const_cast<N*>(x)); }
N* _Rb_tree_decrement(N* x) noexcept {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { N* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else { N* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x;
}
const N* _Rb_tree_decrement(const N* x) noexcept { return _Rb_tree_decrement(const_cast<N*>(x)); }
static void rotL(N* const x, N*& root) { N* const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotR(N* const x, N*& root) { N* const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& header) noexcept {
    N*& root = header._M_parent;
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
    else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        N* const xpp = x->_M_parent->_M_parent;
        if (x->_M_parent == xpp->_M_left) {
            N* const y = xpp->_M_right;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root); }
        } else {
            N* const y = xpp->_M_left;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root); }
        }
    }
    root->_M_color = _S_black;
}
N* _Rb_tree_rebalance_for_erase(N* const z, N& header) noexcept {
    N *&root = header._M_parent, *&leftmost = header._M_left, *&rightmost = header._M_right; N *y = z, *x = 0, *xp = 0;
    if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
    } else {
        xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { N* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
        if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { N* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (x == 0 || x->_M_color == _S_black))
            if (x == xp->_M_left) {
                N* w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
                if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else { if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; }
            } else {
                N* w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
                if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else { if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; }
            }
        if (x) x->_M_color = _S_black;
    }
    return y;
}
}

// --- C library pieces with data dependent control flow (executed symbolically)
extern "C" {
static const unsigned short* sx_b_tab() {
    static unsigned short t[384]; static bool init;
    if (!init) { init = true; for (int i = 0; i < 384; i++) { int c = i - 128; unsigned short v = 0; if (c < 0) c = c; if (c >= 0 && c < 128) {
        if (c >= 'A' && c <= 'Z') v |= 256 | 1024 | 8; if (c >= 'a' && c <= 'z') v |= 512 | 1024 | 8; if (c >= '0' && c <= '9') v |= 2048 | 8 | 4096;
        if ((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) v |= 4096; if (c == ' ' || (c >= 9 && c <= 13)) v |= 8192; if (c >= 32 && c < 127) v |= 16384; if (c > 32 && c < 127) v |= 32768;
        if (c == ' ' || c == '\t') v |= 1; if (c < 32 || c == 127) v |= 2; if (c > 32 && c < 127 && !(v & 8)) v |= 4; } t[i] = v; } }
    return t + 128;
}
const unsigned short** __ctype_b_loc() { static const unsigned short* p; p = sx_b_tab(); return &p; }
const int** __ctype_tolower_loc() { static int t[384]; static const int* p; if (!p) { for (int i = 0; i < 384; i++) { int c = i - 128; t[i] = c >= 'A' && c <= 'Z' ? c + 32 : c < -1 ? c + 256 : c; } p = t + 128; } return &p; }
const int** __ctype_toupper_loc() { static int t[384]; static const int* p; if (!p) { for (int i = 0; i < 384; i++) { int c = i - 128; t[i] = c >= 'a' && c <= 'z' ? c - 32 : c < -1 ? c + 256 : c; } p = t + 128; } return &p; }

static unsigned long long sx_strtoull(const char* s, char** end, int base, bool sgn, bool& neg, bool& ovf) {
    const char* p = s; neg = false; ovf = false;
    while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
    if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) {
        char c = p[2]; bool hx = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
        if (hx) { p += 2; base = 16; } else if (base == 0) base = 8;
    } else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0; bool any = false;
    for (;; p++) {
        int d; char c = *p;
        if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
        if (d >= base) break;
        any = true;
        if (v > (~0ull - d) / base) ovf = true; else v = v * base + d;
    }
    if (end) *end = const_cast<char*>(any ? p : s);
    return v;
}
static long long sx_ll(const char* s, char** e, int b) { bool n, o; unsigned long long v = sx_strtoull(s, e, b, true, n, o); if (o || v > 0x7fffffffffffffffull + (n ? 1 : 0)) { sx_errno_cell = ERANGE; return n ? (-0x7fffffffffffffffll - 1) : 0x7fffffffffffffffll; } return n ? (long long)(0 - v) : (long long)v; }
static unsigned long long sx_ull(const char* s, char** e, int b) { bool n, o; unsigned long long v = sx_strtoull(s, e, b, false, n, o); if (o) { sx_errno_cell = ERANGE; return ~0ull; } return n ? 0 - v : v; }
#define SX_STRTO(fn, impl, R) R sx_p_##fn(const char*, char**, int) asm(#fn); R sx_p_##fn(const char* s, char** e, int b) { return impl(s, e, b); } \
    R sx_i_##fn(const char*, char**, int) asm("__isoc23_" #fn); R sx_i_##fn(const char* s, char** e, int b) { return impl(s, e, b); }
SX_STRTO(strtoll, sx_ll, long long)
SX_STRTO(strtol, sx_ll, long)
SX_STRTO(strtoull, sx_ull, unsigned long long)
SX_STRTO(strtoul, sx_ull, unsigned long)
}

// --- locales: the C locale only
namespace std {
typedef ctype<char> CT;
alignas(16) static char sx_impl_mem[sizeof(locale::_Impl)];
alignas(16) static char sx_ct_mem[sizeof(CT)];
static const locale::facet* sx_facets[64]; static size_t sx_nfacets; static bool sx_loc_init;
size_t locale::id::_M_id() const throw() { if (!_M_index) _M_index = ++sx_nfacets; return _M_index - 1; }
locale::id CT::id;
locale::facet::~facet() {}
CT::ctype(const mask* t, bool, size_t refs) : facet(refs), _M_del(false), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(t ? t : ::sx_b_tab()), _M_widen_ok(1), _M_narrow_ok(1) { for (int i = 0; i < 256; i++) { _M_widen[i] = (char)i; _M_narrow[i] = (char)i; } }
CT::~ctype() {}
char CT::do_toupper(char c) const { return c >= 'a' && c <= 'z' ? c - 32 : c; }
const char* CT::do_toupper(char* b, const char* e) const { for (; b < e; b++) *b = do_toupper(*b); return e; }
char CT::do_tolower(char c) const { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
const char* CT::do_tolower(char* b, const char* e) const { for (; b < e; b++) *b = do_tolower(*b); return e; }
void CT::_M_widen_init() const { _M_widen_ok = 1; }
void CT::_M_narrow_init() const { _M_narrow_ok = 1; }
alignas(16) static char sx_co_mem[sizeof(collate<char>)]; static int sx_c_locale;
__c_locale locale::facet::_S_get_c_locale() { return (__c_locale)&sx_c_locale; }
template <> int collate<char>::_M_compare(const char* a, const char* b) const noexcept { return __builtin_strcmp(a, b); }
template <> size_t collate<char>::_M_transform(char* d, const char* s, size_t n) const noexcept { size_t l = __builtin_strlen(s); for (size_t i = 0; i < n && i <= l; i++) d[i] = s[i]; return l; }
template class __cxx11::collate<char>;
template <> int regex_traits<char>::value(char c, int radix) const { int v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; return v < radix ? v : -1; }
static locale::_Impl* sx_loc() {
    auto* im = (locale::_Impl*)sx_impl_mem;
    if (!sx_loc_init) { sx_loc_init = true; im->_M_facets = sx_facets; im->_M_facets_size = 64; sx_facets[CT::id._M_id()] = new (sx_ct_mem) CT(nullptr, false, 1); sx_facets[collate<char>::id._M_id()] = new (sx_co_mem) collate<char>(1); }
    return im;
}
locale::locale() throw() : _M_impl(sx_loc()) {}
locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { _M_impl = o._M_impl; return *this; }
const locale& locale::classic() { static locale l; return l; }
bool locale::operator==(const locale&) const throw() { return true; }

bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
regex_error::~regex_error() noexcept {}
void __throw_system_error(int) { throw runtime_error("system_error"); }
regex_error::regex_error(regex_constants::error_type c) : runtime_error("regex_error"), _M_code(c) {}
void __throw_regex_error(regex_constants::error_type c) { throw regex_error(c); }
namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { static long long t; return time_point(duration(__atomic_add_fetch(&t, 1000, __ATOMIC_RELAXED))); } } }
}
extern "C" {
extern double sx_strtod(const char*, char**) asm("strtod");
// the two conversions the code uses
static int sx_vsscanf(const char* s, const char* f, va_list ap) {      // conversions of numbers, %c-free: white space, literals, %%, %n, %*; no field widths
    int done = 0; const char* p = s;
    auto sp = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
    for (; *f; f++) {
        if (sp(*f)) { while (sp(*p)) p++; continue; }
        if (*f != '%' || f[1] == '%') { if (*f == '%') { f++; while (sp(*p)) p++; } if (!*p) return done ? done : -1; if (*p != *f) return done; p++; continue; }
        f++; bool skip = *f == '*'; if (skip) f++;
        int l = 0, h = 0; for (;; f++) { if (*f == 'l' || *f == 'q') l++; else if (*f == 'j' || *f == 'z' || *f == 't' || *f == 'L') l = 2; else if (*f == 'h') h++; else break; }
        if (*f == 'n') { if (!skip) { if (l) *va_arg(ap, long long*) = p - s; else *va_arg(ap, int*) = (int)(p - s); } continue; }
        while (sp(*p)) p++;
        if (!*p) return done ? done : -1;
        if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X' || *f == 'o') {
            int base = *f == 'i' ? 0 : *f == 'o' ? 8 : *f == 'x' || *f == 'X' ? 16 : 10; char* e;
            long long v = *f == 'd' || *f == 'i' ? sx_ll(p, &e, base) : (long long)sx_ull(p, &e, base); if (e == p) return done;
            p = e; if (skip) continue;
            if (l) *va_arg(ap, long long*) = v; else if (h == 1) *va_arg(ap, short*) = (short)v; else if (h > 1) *va_arg(ap, signed char*) = (signed char)v; else *va_arg(ap, int*) = (int)v;
            done++; continue;
        }
        if (*f == 'f' || *f == 'e' || *f == 'g' || *f == 'F' || *f == 'E' || *f == 'G') {
            char* e; double v = sx_strtod(p, &e); if (e == p) return done;
            // scanf reads one character past an incomplete exponent and then fails
            if (*e == 'e' || *e == 'E') { const char* q = p; while (q != e && *q != 'x' && *q != 'X' && *q != 'n' && *q != 'N' && *q != 'i' && *q != 'I') q++; if (q == e) return done; }
            p = e; if (skip) continue;
            if (l) *va_arg(ap, double*) = v; else *va_arg(ap, float*) = (float)v;
            done++; continue;
        }
        __builtin_trap();
    }
    return done;
}
#define SX_SSCANF(n, a) int n(const char*, const char*, ...) asm(a); int n(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = sx_vsscanf(s, f, ap); va_end(ap); return r; }
SX_SSCANF(sx_sscanf_c23, "__isoc23_sscanf")
SX_SSCANF(sx_sscanf_c99, "__isoc99_sscanf")
lconv* localeconv() noexcept { static lconv l; static char dot[] = ".", e[] = ""; l.decimal_point = dot; l.thousands_sep = e; l.grouping = e; return &l; }
}
extern "C" void sx_freeze(int);
extern "C" void sx_guard(int);
extern "C" int pthread_once(int* c, void (*f)()) { if (__atomic_load_n(c, __ATOMIC_ACQUIRE) == 2) return 0; sx_guard(1); f(); sx_guard(-1); __atomic_store_n(c, 2, __ATOMIC_RELEASE); return 0; }
extern "C" void sx_threads(void (*f)(int)) { for (int t = 0; t < 2; t++) { sx_freeze(t + 1); f(t); sx_freeze(0); } }
