#include "exec.h"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <charconv>
#include <functional>
#include <unistd.h>

#define BI(name) static bool name(Exec& X, State& s, Inst& in, std::vector<Val>& a)
typedef bool (*BFn)(Exec&, State&, Inst&, std::vector<Val>&);

struct ExecB : Exec {
    template <BFn F> bool call(State& s, Inst& in, std::vector<Val>& a) { return F(*this, s, in, a); }
};
template <BFn F> Builtin wrap() { return static_cast<Builtin>(&ExecB::call<F>); }

static bool C(Exec& X, State& s, std::vector<Val>& a, size_t i, Inst& in) { return X.conc(s, a[i], i < in.argSlotW.size() ? in.argSlotW[i] : 64); }
#define CONC(i) do { if (!C(X, s, a, i, in)) return false; } while (0)
#define RET(v) do { X.ret = Val{(u64)(v), nullptr}; return true; } while (0)
#define RETV(v) do { X.ret = (v); return true; } while (0)

// ---- memory
static bool doAlloc(Exec& X, State& s, Inst& in, std::vector<Val>& a, size_t i, u8 kind, bool thr) {
    CONC(i);
    u64 n = a[i].c;
    if (n > (256u << 20)) {
        if (!thr) RET(0);
        X.violate(s, "memory", "allocation of " + std::to_string(n) + " bytes requested"); return false;
    }
    u64 p = X.alloc(s, n, kind, nullptr);
    RET(p);
}
BI(b_new) { return doAlloc(X, s, in, a, 0, K_Heap, true); }
BI(b_newa) { return doAlloc(X, s, in, a, 0, K_HeapArr, true); }
BI(b_malloc) { return doAlloc(X, s, in, a, 0, K_Malloc, false); }
BI(b_calloc) {
    CONC(0); CONC(1);
    u64 n = a[0].c * a[1].c; u64 p = X.alloc(s, n, K_Malloc, nullptr);
    u64 off; Obj* o = X.findW(s, p, off); memset(o->data, 0, n); RET(p);
}
BI(b_free) {
    CONC(0); if (!a[0].c) RET(0);
    std::string err; if (!X.freeObj(s, a[0].c, err)) { X.violate(s, "memory", err); return false; } RET(0);
}
static bool copyMem(Exec& X, State& s, u64 d, u64 src, u64 n);
BI(b_realloc) {
    CONC(0); CONC(1);
    u64 p = X.alloc(s, a[1].c, K_Malloc, nullptr);
    if (a[0].c) {
        u64 off; Obj* o = X.find(s, a[0].c, off); if (!o) { X.violate(s, "memory", "realloc of invalid pointer"); return false; }
        if (!copyMem(X, s, p, a[0].c, std::min(o->size, a[1].c))) return false;
        std::string err; X.freeObj(s, a[0].c, err);
    }
    RET(p);
}
static bool copyMem(Exec& X, State& s, u64 d, u64 src, u64 n) {
    if (!n) return true;
    std::string e = X.check(s, src, n, false); if (!e.empty()) { X.violate(s, "memory", e); return false; }
    e = X.check(s, d, n, true); if (!e.empty()) { X.violate(s, "memory", e); return false; }
    u64 so, dof; Obj* D = X.findW(s, d, dof); Obj* S = X.find(s, src, so);
    if (s.frozen) X.lockedWrite(s, d, (u32)n, D);
    memmove(D->data + dof, S->data + so, n);
    if (S->nsym || D->nsym) {
        if (!D->sym) { D->sym = (Expr**)calloc(D->size, sizeof(Expr*)); }
        std::vector<Expr*> t(n, nullptr);
        if (S->nsym) for (u64 i = 0; i < n; i++) t[i] = S->sym[so + i];
        for (u64 i = 0; i < n; i++) { if (D->sym[dof + i]) D->nsym--; D->sym[dof + i] = t[i]; if (t[i]) D->nsym++; }
    }
    return true;
}
BI(b_memcpy) { CONC(0); CONC(1); CONC(2); if (!copyMem(X, s, a[0].c, a[1].c, a[2].c)) return false; RETV(a[0]); }
BI(b_mempcpy) { CONC(0); CONC(1); CONC(2); if (!copyMem(X, s, a[0].c, a[1].c, a[2].c)) return false; RET(a[0].c + a[2].c); }
BI(b_memset) {
    CONC(0); CONC(2);
    u64 n = a[2].c; if (!n) RETV(a[0]);
    std::string e = X.check(s, a[0].c, n, true); if (!e.empty()) { X.violate(s, "memory", e); return false; }
    if (a[1].e) { Val b = X.val(mkExtract(a[1].e, 0, 8)); for (u64 i = 0; i < n; i++) X.storeC(s, a[0].c + i, 1, 8, b, e); RETV(a[0]); }
    u64 off; Obj* o = X.findW(s, a[0].c, off);
    if (s.frozen) X.lockedWrite(s, a[0].c, (u32)n, o);
    memset(o->data + off, (int)a[1].c, n);
    if (o->nsym) for (u64 i = 0; i < n; i++) if (o->sym[off + i]) { o->sym[off + i] = nullptr; o->nsym--; }
    RETV(a[0]);
}
static bool cmpMem(Exec& X, State& s, Inst& in, std::vector<Val>& a, bool order) {
    CONC(0); CONC(1); CONC(2);
    u64 n = a[2].c; if (!n) RET(0);
    std::string e = X.check(s, a[0].c, n, false); if (e.empty()) e = X.check(s, a[1].c, n, false);
    if (!e.empty()) {
        // memcmp may legitimately stop early, but reading beyond an object is reported by ASan as well
        X.violate(s, "memory", e); return false;
    }
    u64 o1, o2; Obj* A = X.find(s, a[0].c, o1); Obj* B = X.find(s, a[1].c, o2);
    if (!A->nsym && !B->nsym) { int r = memcmp(A->data + o1, B->data + o2, n); RET((u32)(r < 0 ? -1 : r > 0 ? 1 : 0)); }
    Expr* r = mkConst(0, 32);
    for (u64 i = n; i-- > 0;) {
        Expr *x = X.byteExpr(s, A, o1 + i), *y = X.byteExpr(s, B, o2 + i);
        if (order) r = mkIte(mkEq(x, y), r, mkIte(mkBin(Op::Ult, x, y), mkConst(0xffffffffu, 32), mkConst(1, 32)));
        else r = mkIte(mkEq(x, y), r, mkConst(1, 32));
    }
    RETV(X.val(r));
}
BI(b_memcmp) { return cmpMem(X, s, in, a, true); }
BI(b_bcmp) { return cmpMem(X, s, in, a, false); }
BI(b_strlen) {
    CONC(0);
    u64 p = a[0].c, n = 0;
    for (;; n++) {
        Val v; std::string e; if (!X.loadC(s, p + n, 1, 8, v, e)) { X.violate(s, "memory", e); return false; }
        if (!v.e) { if (!v.c) RET(n); continue; }
        int d = X.decide(s, mkEq(v.e, mkConst(0, 8))); if (d < 0) return false;
        if (d) RET(n);
    }
}
static bool strCmp(Exec& X, State& s, Inst& in, std::vector<Val>& a, bool ci, bool hasN) {
    CONC(0); CONC(1); if (hasN) CONC(2);
    u64 n = hasN ? a[2].c : ~0ull;
    auto low = [&](Expr* e) { if (!ci) return e; Expr* up = mkAnd(mkBin(Op::Ule, mkConst('A', 8), e), mkBin(Op::Ule, e, mkConst('Z', 8))); return mkIte(up, mkBin(Op::Add, e, mkConst(32, 8)), e); };
    for (u64 i = 0; i < n; i++) {
        Val x, y; std::string e;
        if (!X.loadC(s, a[0].c + i, 1, 8, x, e) || !X.loadC(s, a[1].c + i, 1, 8, y, e)) { X.violate(s, "memory", e); return false; }
        Expr *ex = low(X.ex(x, 8)), *ey = low(X.ex(y, 8));
        int d = X.decide(s, mkEq(ex, ey)); if (d < 0) return false;
        if (!d) { int l = X.decide(s, mkBin(Op::Ult, ex, ey)); if (l < 0) return false; RET((u32)(l ? -1 : 1)); }
        int z = X.decide(s, mkEq(ex, mkConst(0, 8))); if (z < 0) return false;
        if (z) RET(0);
    }
    RET(0);
}
BI(b_strcmp) { return strCmp(X, s, in, a, false, false); }
BI(b_strncmp) { return strCmp(X, s, in, a, false, true); }
BI(b_strcasecmp) { return strCmp(X, s, in, a, true, false); }
BI(b_strncasecmp) { return strCmp(X, s, in, a, true, true); }
static bool chrIn(Exec& X, State& s, Inst& in, std::vector<Val>& a, bool hasN) {
    CONC(0); if (hasN) CONC(2);
    Expr* c = mkExtract(X.ex(a[1], 32), 0, 8);
    u64 n = hasN ? a[2].c : ~0ull;
    for (u64 i = 0; i < n; i++) {
        Val v; std::string e; if (!X.loadC(s, a[0].c + i, 1, 8, v, e)) { X.violate(s, "memory", e); return false; }
        int d = X.decide(s, mkEq(X.ex(v, 8), c)); if (d < 0) return false;
        if (d) RET(a[0].c + i);
        if (!hasN) { int z = X.decide(s, mkEq(X.ex(v, 8), mkConst(0, 8))); if (z < 0) return false; if (z) RET(0); }
    }
    RET(0);
}
BI(b_memchr) { return chrIn(X, s, in, a, true); }
BI(b_strchr) { return chrIn(X, s, in, a, false); }

// ---- C++ ABI
BI(b_cxa_alloc) { CONC(0); u64 p = X.alloc(s, a[0].c, K_Exc, nullptr); RET(p); }
BI(b_cxa_free_exc) { CONC(0); std::string e; X.freeObj(s, a[0].c, e); RET(0); }
BI(b_cxa_throw) {
    CONC(0); CONC(1); CONC(2);
    X.res.throws++;
    s.exc.push_back({a[0].c, a[1].c, a[2].c, 0, false, a[0].c});
    s.uncaught++;
    X.jumped = true;
    return X.unwind(s, a[0].c, false);
}
BI(b_cxa_begin_catch) {
    CONC(0);
    for (auto& r : s.exc) if (r.ptr == a[0].c) { if (r.handlers < 0) r.handlers = -r.handlers; r.handlers++; s.uncaught--; s.caught.push_back(r.ptr); RET(r.adj); }
    X.incomplete(s, "begin_catch of unknown exception"); return false;
}
BI(b_cxa_get_exception_ptr) { for (auto& r : s.exc) if (r.ptr == a[0].c) RET(r.adj); RET(a[0].c); }
BI(b_cxa_end_catch) {
    if (s.caught.empty()) { X.incomplete(s, "end_catch without caught exception"); return false; }
    u64 p = s.caught.back();
    for (size_t i = 0; i < s.exc.size(); i++) if (s.exc[i].ptr == p) {
        ExcRec& r = s.exc[i];
        if (r.rethrown) { s.caught.pop_back(); r.rethrown = false; r.handlers--; RET(0); }
        if (--r.handlers == 0) {
            s.caught.pop_back();
            u64 dtor = r.dtor; s.exc.erase(s.exc.begin() + i);
            if (dtor) {
                u64 k = ((dtor & 0xffffffffu) - 0x1000) / 16;
                if ((dtor >> 32) == 1 && k < X.funcs.size() && !X.funcs[k]->isDecl) { X.jumped = true; X.pushFrame(s, X.funcs[k], {Val{p, nullptr}}, 1, nullptr); return true; }
            }
            RET(0);
        }
        s.caught.pop_back();
        RET(0);
    }
    RET(0);
}
BI(b_cxa_rethrow) {
    if (s.caught.empty()) { X.violate(s, "terminate", "rethrow without active exception"); return false; }
    u64 p = s.caught.back();
    for (auto& r : s.exc) if (r.ptr == p) { r.rethrown = true; s.uncaught++; r.adj = p; }
    X.jumped = true;
    return X.unwind(s, p, false);
}
BI(b_uncaught) { RET(s.uncaught); }
BI(b_guard_acquire) { CONC(0); Val v; std::string e; if (!X.loadC(s, a[0].c, 1, 8, v, e)) { X.violate(s, "memory", e); return false; } if (!v.c) s.guards++; RET(v.c ? 0 : 1); }
BI(b_guard_release) { CONC(0); std::string e; X.storeC(s, a[0].c, 1, 8, Val{1, nullptr}, e); s.guards--; RET(0); }
BI(b_guard_abort) { s.guards--; RET(0); }
// locks; only sx_freeze looks at them (P05 brings lock functions of its own)
static bool take(std::vector<u64>& v, u64 l) { auto it = std::find(v.begin(), v.end(), l); if (it == v.end()) return false; v.erase(it); return true; }
BI(b_wrlock) { CONC(0); s.wrLocks.push_back(a[0].c); RET(0); }
BI(b_rdlock) { CONC(0); s.rdLocks.push_back(a[0].c); RET(0); }
BI(b_unlock) { CONC(0); if (!take(s.rdLocks, a[0].c) && !take(s.wrLocks, a[0].c) && s.frozen) { X.violate(s, "memory", "a lock is released that is not held"); return false; } RET(0); }
BI(sx_guard) { s.guards += (int)a[0].c; RET(0); }     // what happens in between happens before everything that waits for it
BI(sx_freeze) { // from now on all memory but this thread's stack is shared with other threads
    CONC(0);
    s.thread = (u32)a[0].c; if (s.thread == 1) { s.lw.clear(); s.rel.clear(); }
    if (s.thread) { s.frozen = s.nextId; s.wrLocks.clear(); s.rdLocks.clear(); s.guards = 0; }
    else { s.frozen = 0; if (!s.wrLocks.empty() || !s.rdLocks.empty()) { X.violate(s, "memory", "a lock is not released"); return false; } }
    RET(0);
}
BI(b_nop) { RET(0); }
BI(b_one) { RET(1); }
BI(b_terminate) { X.violate(s, "terminate", in.callee ? in.callee->name + " called" : "terminate called"); return false; }
BI(b_assert_fail) { bool ok; std::string m = X.cstr(s, a[0].c, ok); if (!ok) return false; X.violate(s, "assert", "assertion failed in the code: " + m); return false; }
BI(b_ubsan) {
    static const char* n[] = {"add_overflow", "builtin_unreachable", "cfi_check_fail", "divrem_overflow", "dynamic_type_cache_miss", "float_cast_overflow", "function_type_mismatch", "implicit_conversion", "invalid_builtin", "invalid_objc_cast", "load_invalid_value", "missing_return", "mul_overflow", "negate_overflow", "nullability_arg", "nullability_return", "nonnull_arg", "nonnull_return", "out_of_bounds", "pointer_overflow", "shift_out_of_bounds", "sub_overflow", "type_mismatch", "alignment_assumption", "vla_bound_not_positive"};
    X.violate(s, "ub", std::string("undefined behaviour: ") + (a[0].c < 25 ? n[a[0].c] : "trap")); return false;
}
BI(b_trap) { X.violate(s, "ub", "llvm.trap reached"); return false; }
BI(b_typeid_for) { RET((u32)(a[0].c == 0 ? 1 : a[0].c >> 32)); }
BI(b_dynamic_cast) {
    CONC(0); CONC(1); CONC(2); CONC(3);
    if (!a[0].c) RET(0);
    std::string e; Val vp, ti, top;
    if (!X.loadC(s, a[0].c, 8, 64, vp, e) || !X.loadC(s, vp.c - 8, 8, 64, ti, e) || !X.loadC(s, vp.c - 16, 8, 64, top, e)) { X.violate(s, "memory", e); return false; }
    u64 full = a[0].c + top.c, adj = 0;
    if (X.matchType(s, a[2].c, ti.c, full, adj)) RET(adj);
    RET(0);
}
BI(b_hash_bytes) {
    CONC(0); CONC(1); CONC(2);
    u64 n = a[1].c;
    if (n) {
        std::string e = X.check(s, a[0].c, n, false); if (!e.empty()) { X.violate(s, "memory", e); return false; }
        u64 off; Obj* o = X.find(s, a[0].c, off);
        if (o->nsym) for (u64 i = 0; i < n; i++) if (o->sym[off + i]) { X.defer = true; return true; }
        RET(std::_Hash_bytes(o->data + off, n, a[2].c));
    }
    RET(std::_Hash_bytes("", 0, a[2].c));
}

// ---- ctype
static Expr* rng(Expr* c, int lo, int hi) { u32 w = c->w; return mkBin(Op::Ule, mkBin(Op::Sub, c, mkConst((u128)(i128)lo, w)), mkConst((u64)(hi - lo), w)); }
template <int (*HOST)(int)> static bool ctypeFn(Exec& X, State& s, Inst& in, std::vector<Val>& a) {
    if (!a[0].e) {
        int v = (int)(u32)a[0].c;
        if (v < -128 || v > 255) { X.violate(s, "memory", "ctype function called with out-of-range argument"); return false; }
        RET((u32)(v < -1 ? HOST(v) : HOST(v)));
    }
    Expr* c = a[0].e; u32 w = c->w;
    // group values with equal results into ranges
    Expr* r = nullptr;
    std::map<u32, Expr*> by; std::map<u32, int> cnt;
    int lo = -128;
    while (lo <= 255) {
        u32 v = (u32)HOST(lo); int hi = lo;
        while (hi + 1 <= 255 && (u32)HOST(hi + 1) == v) hi++;
        Expr* g = rng(c, lo, hi);
        by[v] = by.count(v) ? mkOr(by[v], g) : g; cnt[v]++;
        lo = hi + 1;
    }
    u32 def = 0; int best = -1; for (auto& p : cnt) if (p.second > best) { best = p.second; def = p.first; }
    if (by.count(0)) def = 0;
    r = mkConst(def, 32);
    for (auto& p : by) if (p.first != def) r = mkIte(p.second, mkConst(p.first, 32), r);
    (void)w;
    RETV(X.val(r));
}
static int h_isalpha(int c) { return isalpha(c); } static int h_isdigit(int c) { return isdigit(c); } static int h_isalnum(int c) { return isalnum(c); }
static int h_isspace(int c) { return isspace(c); } static int h_isxdigit(int c) { return isxdigit(c); } static int h_isupper(int c) { return isupper(c); }
static int h_islower(int c) { return islower(c); } static int h_ispunct(int c) { return ispunct(c); } static int h_isprint(int c) { return isprint(c); }
static int h_isgraph(int c) { return isgraph(c); } static int h_iscntrl(int c) { return iscntrl(c); } static int h_isblank(int c) { return isblank(c); }
template <bool UP> static bool caseFn(Exec& X, State& s, Inst& in, std::vector<Val>& a) {
    if (!a[0].e) { int v = (int)(u32)a[0].c; if (v < -128 || v > 255) RETV(a[0]); RET((u32)(UP ? toupper(v) : tolower(v))); }
    Expr* c = a[0].e;
    Expr* g = UP ? rng(c, 'a', 'z') : rng(c, 'A', 'Z');
    Expr* neg = mkBin(Op::Ult, mkBin(Op::Add, c, mkConst(128, c->w)), mkConst(127, c->w));   // glibc's table maps -128..-2 to 128..254
    if (c->sup->size() == 1 && gVars[*c->sup->begin()].w <= 8) {   // decided by the byte's domain
        if (feasible(s.C, g, nullptr) == SatRes::Unsat && feasible(s.C, neg, nullptr) == SatRes::Unsat) RETV(a[0]);
        if (feasible(s.C, mkNot(g), nullptr) == SatRes::Unsat) RETV(X.val(mkBin(Op::Add, c, mkConst((u128)(i128)(UP ? -32 : 32), c->w))));
    }
    RETV(X.val(mkIte(g, mkBin(Op::Add, c, mkConst((u128)(i128)(UP ? -32 : 32), c->w)), mkIte(neg, mkBin(Op::Add, c, mkConst(256, c->w)), c))));
}

// ---- math
template <int FN, int ARITY> static bool hostFn(Exec& X, State& s, Inst& in, std::vector<Val>& a) {
    u32 w = in.w;
    Expr* x = X.ex(a[0], in.argSlotW[0]); Expr* y = ARITY > 1 ? X.ex(a[1], in.argSlotW[1]) : nullptr;
    // lists of at most a few byte variables are handled by the solver through exact tables; anything else is concretized
    std::set<u32> sup(x->sup->begin(), x->sup->end()); if (y) sup.insert(y->sup->begin(), y->sup->end());
    u64 prod = 1; bool ok = true;
    for (u32 v : sup) { if (gVars[v].w > 8) { ok = false; break; } prod *= domainOf(s.C, v)->count(); if (prod > gTableLimit) { ok = false; break; } }
    if (!ok) { CONC(0); if (ARITY > 1) CONC(1); x = X.ex(a[0], in.argSlotW[0]); if (y) y = X.ex(a[1], in.argSlotW[1]); }
    RETV(X.val(mkHost((HostFn)FN, x, y, w)));
}
template <int MODE> static bool roundFn(Exec& X, State& s, Inst& in, std::vector<Val>& a) { RETV(X.val(mkUn(Op::FRound, X.ex(a[0], in.w), MODE))); }
BI(b_sqrt) { RETV(X.val(mkUn(Op::FSqrt, X.ex(a[0], in.w), 0))); }
BI(b_fabs) { RETV(X.val(mkBin(Op::And, X.ex(a[0], in.w), mkConst(maskW(in.w) >> 1, in.w)))); }
BI(b_fma) { RETV(X.val(mkFma(X.ex(a[0], in.w), X.ex(a[1], in.w), X.ex(a[2], in.w)))); }
BI(b_fmuladd) { RETV(X.val(mkFBin(Op::FAdd, mkFBin(Op::FMul, X.ex(a[0], in.w), X.ex(a[1], in.w)), X.ex(a[2], in.w)))); }
BI(b_copysign) { u32 w = in.w; RETV(X.val(mkBin(Op::Or, mkBin(Op::And, X.ex(a[0], w), mkConst(maskW(w) >> 1, w)), mkBin(Op::And, X.ex(a[1], w), mkConst((u128)1 << (w - 1), w))))); }
template <bool MAX> static bool fminmax(Exec& X, State& s, Inst& in, std::vector<Val>& a) {
    u32 w = in.w; Expr *x = X.ex(a[0], w), *y = X.ex(a[1], w);
    Expr* xn = mkFCmp(Op::FUno, x, x); Expr* yn = mkFCmp(Op::FUno, y, y);
    Expr* c = MAX ? mkFCmp(Op::FOlt, x, y) : mkFCmp(Op::FOlt, y, x);
    RETV(X.val(mkIte(xn, y, mkIte(yn, x, mkIte(c, y, x)))));
}
BI(b_isfpclass) {
    u32 w = in.argSlotW[0]; Expr* x = X.ex(a[0], w); u64 m = a[1].c;
    u32 mb = w == 64 ? 52 : 23, eb = w == 64 ? 11 : 8;
    Expr* mant = mkExtract(x, 0, mb); Expr* exp = mkExtract(x, mb, eb); Expr* sg = mkExtract(x, w - 1, 1);
    Expr* emax = mkEq(exp, mkConst(maskW(eb), eb)); Expr* ez = mkEq(exp, mkConst(0, eb)); Expr* mz = mkEq(mant, mkConst(0, mb));
    Expr* quiet = mkExtract(x, mb - 1, 1);
    Expr* r = mkBool(false);
    auto add = [&](int bit, Expr* e) { if (m >> bit & 1) r = mkOr(r, e); };
    Expr* nan = mkAnd(emax, mkNot(mz));
    add(0, mkAnd(nan, mkNot(quiet))); add(1, mkAnd(nan, quiet));
    Expr* inf = mkAnd(emax, mz); Expr* norm = mkAnd(mkNot(emax), mkNot(ez)); Expr* sub = mkAnd(ez, mkNot(mz)); Expr* zero = mkAnd(ez, mz);
    add(2, mkAnd(inf, sg)); add(3, mkAnd(norm, sg)); add(4, mkAnd(sub, sg)); add(5, mkAnd(zero, sg));
    add(6, mkAnd(zero, mkNot(sg))); add(7, mkAnd(sub, mkNot(sg))); add(8, mkAnd(norm, mkNot(sg))); add(9, mkAnd(inf, mkNot(sg)));
    RETV(X.val(r));
}
BI(b_powi) { CONC(1); Val n = a[1]; double e = (double)(int)(u32)n.c; u64 eb; memcpy(&eb, &e, 8); RETV(X.val(mkHost(H_pow, X.ex(a[0], 64), mkConst(eb, 64), 64))); }

// ---- integer intrinsics
static Expr* E0(Exec& X, Inst& in, std::vector<Val>& a, int i) { return X.ex(a[i], in.argSlotW[i]); }
BI(b_abs) { Expr* x = E0(X, in, a, 0); RETV(X.val(mkIte(mkBin(Op::Slt, x, mkConst(0, x->w)), mkBin(Op::Sub, mkConst(0, x->w), x), x))); }
BI(b_smax) { Expr *x = E0(X, in, a, 0), *y = E0(X, in, a, 1); RETV(X.val(mkIte(mkBin(Op::Slt, x, y), y, x))); }
BI(b_smin) { Expr *x = E0(X, in, a, 0), *y = E0(X, in, a, 1); RETV(X.val(mkIte(mkBin(Op::Slt, x, y), x, y))); }
BI(b_umax) { Expr *x = E0(X, in, a, 0), *y = E0(X, in, a, 1); RETV(X.val(mkIte(mkBin(Op::Ult, x, y), y, x))); }
BI(b_umin) { Expr *x = E0(X, in, a, 0), *y = E0(X, in, a, 1); RETV(X.val(mkIte(mkBin(Op::Ult, x, y), x, y))); }
static bool ovf(Exec& X, Inst& in, std::vector<Val>& a, Op op, bool sg) {
    Expr *x = E0(X, in, a, 0), *y = E0(X, in, a, 1); u32 w = x->w;
    Expr* r = mkBin(op, x, y); Expr* o;
    if (op == Op::Mul && w > 64) { X.retv = {}; return false; }
    if (op == Op::Mul) {
        if (sg && w == 64) {
            // overflow of a 64-bit product; constants get a cheap range test
            Expr *k = x->isConst() ? x : y->isConst() ? y : nullptr, *v = x->isConst() ? y : x;
            if (k) {
                i64 c = (i64)(u64)k->c;
                if (c == 0) o = mkBool(false);
                else if (c == -1) o = mkEq(v, mkConst((u128)1 << 63, 64));
                else { i64 hi = c > 0 ? INT64_MAX / c : INT64_MIN / c, lo = c > 0 ? INT64_MIN / c : INT64_MAX / c; o = mkOr(mkBin(Op::Slt, v, mkConst((u64)lo, 64)), mkBin(Op::Slt, mkConst((u64)hi, 64), v)); }
            } else { Expr* p = mkBin(Op::Mul, mkSExt(x, 128), mkSExt(y, 128)); o = mkNot(mkEq(p, mkSExt(r, 128))); }
        } else if (!sg && (x->isConst() || y->isConst())) {
            Expr *k = x->isConst() ? x : y, *v = x->isConst() ? y : x;
            o = k->c == 0 ? mkBool(false) : mkBin(Op::Ult, mkConst(maskW(w) / k->c, w), v);
        } else { Expr* p = sg ? mkBin(Op::Mul, mkSExt(x, 2 * w), mkSExt(y, 2 * w)) : mkBin(Op::Mul, mkZExt(x, 2 * w), mkZExt(y, 2 * w)); o = mkNot(mkEq(p, sg ? mkSExt(r, 2 * w) : mkZExt(r, 2 * w))); }
    } else if (op == Op::Add) {
        if (sg) { Expr* sx = mkExtract(x, w - 1, 1); Expr* sy = mkExtract(y, w - 1, 1); Expr* sr = mkExtract(r, w - 1, 1); o = mkAnd(mkEq(sx, sy), mkNot(mkEq(sx, sr))); }
        else o = mkBin(Op::Ult, r, x);
    } else {
        if (sg) { Expr* sx = mkExtract(x, w - 1, 1); Expr* sy = mkExtract(y, w - 1, 1); Expr* sr = mkExtract(r, w - 1, 1); o = mkAnd(mkNot(mkEq(sx, sy)), mkNot(mkEq(sx, sr))); }
        else o = mkBin(Op::Ult, x, y);
    }
    X.retv = {X.val(r), X.val(o)};
    return true;
}
BI(b_saddo) { return ovf(X, in, a, Op::Add, true); } BI(b_uaddo) { return ovf(X, in, a, Op::Add, false); }
BI(b_ssubo) { return ovf(X, in, a, Op::Sub, true); } BI(b_usubo) { return ovf(X, in, a, Op::Sub, false); }
BI(b_smulo) { return ovf(X, in, a, Op::Mul, true); } BI(b_umulo) { return ovf(X, in, a, Op::Mul, false); }
BI(b_uaddsat) { Expr *x = E0(X, in, a, 0), *y = E0(X, in, a, 1); Expr* r = mkBin(Op::Add, x, y); RETV(X.val(mkIte(mkBin(Op::Ult, r, x), mkConst(maskW(x->w), x->w), r))); }
BI(b_usubsat) { Expr *x = E0(X, in, a, 0), *y = E0(X, in, a, 1); RETV(X.val(mkIte(mkBin(Op::Ult, x, y), mkConst(0, x->w), mkBin(Op::Sub, x, y)))); }
BI(b_ctpop) { Expr* x = E0(X, in, a, 0); u32 w = x->w; Expr* r = mkConst(0, w); for (u32 i = 0; i < w; i++) r = mkBin(Op::Add, r, mkZExt(mkExtract(x, i, 1), w)); if (x->isConst()) RET(__builtin_popcountll((u64)x->c)); RETV(X.val(r)); }
BI(b_ctlz) { Expr* x = E0(X, in, a, 0); u32 w = x->w; Expr* r = mkConst(w, w); for (u32 i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); RETV(X.val(r)); }
BI(b_cttz) { Expr* x = E0(X, in, a, 0); u32 w = x->w; Expr* r = mkConst(w, w); for (u32 i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); RETV(X.val(r)); }
BI(b_bswap) { Expr* x = E0(X, in, a, 0); Expr* r = mkExtract(x, 0, 8); for (u32 i = 8; i < x->w; i += 8) r = mkConcat(r, mkExtract(x, i, 8)); RETV(X.val(r)); }
BI(b_bitreverse) { Expr* x = E0(X, in, a, 0); Expr* r = mkExtract(x, 0, 1); for (u32 i = 1; i < x->w; i++) r = mkConcat(r, mkExtract(x, i, 1)); RETV(X.val(r)); }
static bool fsh(Exec& X, State& s, Inst& in, std::vector<Val>& a, bool left) {
    Expr *x = E0(X, in, a, 0), *y = E0(X, in, a, 1), *z = E0(X, in, a, 2); u32 w = x->w;
    Expr* m = mkBin(Op::URem, z, mkConst(w, w));
    Expr* inv = mkBin(Op::Sub, mkConst(w, w), m);
    Expr* r = left ? mkBin(Op::Or, mkBin(Op::Shl, x, m), mkBin(Op::LShr, y, inv)) : mkBin(Op::Or, mkBin(Op::LShr, y, m), mkBin(Op::Shl, x, inv));
    RETV(X.val(r));
}
BI(b_fshl) { return fsh(X, s, in, a, true); } BI(b_fshr) { return fsh(X, s, in, a, false); }
BI(b_fptosi_sat) {
    u32 w = in.w, fw = in.argSlotW[0]; Expr* x = X.ex(a[0], fw);
    auto D = [&](double d) { if (fw == 64) { u64 b; memcpy(&b, &d, 8); return mkConst(b, 64); } float f = (float)d; u32 b; memcpy(&b, &f, 4); return mkConst(b, 32); };
    Expr* nan = mkFCmp(Op::FUno, x, x);
    Expr* ge = mkFCmp(Op::FOle, D(std::ldexp(1.0, w - 1)), x); Expr* lt = mkFCmp(Op::FOlt, x, D(-std::ldexp(1.0, w - 1)));
    RETV(X.val(mkIte(nan, mkConst(0, w), mkIte(ge, mkConst(maskW(w) >> 1, w), mkIte(lt, mkConst((u128)1 << (w - 1), w), mkCvt(Op::FPToSI, x, w))))));
}

// ---- varargs / printf family
BI(b_va_start) {
    CONC(0);
    Frame* f = s.st.back();
    u64 n = f->varargs.size();
    u64 area = X.alloc(s, 8 * (n ? n : 1) + 16, K_Stack, nullptr);
    std::string e;
    for (u64 i = 0; i < n; i++) { Val v = f->varargs[i]; u32 w = f->varargW[i]; if (v.e && w < 64) v = X.val(mkZExt(v.e, 64)); if (!X.storeC(s, area + 8 * i, 8, 64, v, e)) { X.violate(s, "memory", e); return false; } }
    u64 p = a[0].c;
    X.storeC(s, p, 4, 32, Val{48, nullptr}, e); X.storeC(s, p + 4, 4, 32, Val{176, nullptr}, e);
    X.storeC(s, p + 8, 8, 64, Val{area, nullptr}, e); X.storeC(s, p + 16, 8, 64, Val{area, nullptr}, e);
    RET(0);
}
BI(b_va_copy) { CONC(0); CONC(1); if (!copyMem(X, s, a[0].c, a[1].c, 24)) return false; RET(0); }
static bool fmtInto(Exec& X, State& s, Inst& in, u64 fmtp, std::function<bool(Val&)> next, std::string& out) {
    bool ok; std::string fmt = X.cstr(s, fmtp, ok); if (!ok) return false;
    for (size_t i = 0; i < fmt.size(); i++) {
        if (fmt[i] != '%') { out += fmt[i]; continue; }
        std::string sp = "%"; i++;
        if (fmt[i] == '%') { out += '%'; continue; }
        int lng = 0;
        while (i < fmt.size() && strchr("-+ #0123456789.*hlzjtLq", fmt[i])) {
            if (fmt[i] == '*') { Val v; if (!next(v) || (v.e && !X.conc(s, v, v.e->w))) return false; sp += std::to_string((int)(u32)v.c); }
            else { if (fmt[i] == 'l' || fmt[i] == 'z' || fmt[i] == 'j' || fmt[i] == 't') lng++; else if (fmt[i] != 'h') sp += fmt[i]; }
            i++;
        }
        char c = fmt[i]; char buf[512]; Val v;
        if (!next(v)) return false;
        if (v.e && strchr("fFgGeEa", c)) { out += "<number>"; X.res.reach["(text of a symbolic floating point number is a placeholder)"]++; continue; }
        if (v.e && !X.conc(s, v, v.e->w)) return false;
        switch (c) {
        case 'd': case 'i': sp += "lld"; snprintf(buf, sizeof buf, sp.c_str(), lng ? (long long)v.c : (long long)(int)(u32)v.c); out += buf; break;
        case 'u': case 'x': case 'X': case 'o': sp += "ll"; sp += c; snprintf(buf, sizeof buf, sp.c_str(), lng ? (unsigned long long)v.c : (unsigned long long)(u32)v.c); out += buf; break;
        case 'c': sp += c; snprintf(buf, sizeof buf, sp.c_str(), (int)v.c); out += buf; break;
        case 'p': snprintf(buf, sizeof buf, "%p", (void*)v.c); out += buf; break;
        case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': case 'a': { double d; memcpy(&d, &v.c, 8); sp += c; snprintf(buf, sizeof buf, sp.c_str(), d); out += buf; break; }
        case 's': { std::string t = X.cstr(s, v.c, ok); if (!ok) return false; sp += 's'; std::vector<char> big(t.size() + 64); snprintf(big.data(), big.size(), sp.c_str(), t.c_str()); out += big.data(); break; }
        default: X.incomplete(s, "printf conversion"); return false;
        }
    }
    return true;
}
static bool putStr(Exec& X, State& s, u64 dst, u64 n, const std::string& r) {
    if (!n) return true;
    u64 k = std::min<u64>(r.size(), n - 1);
    std::string e = X.check(s, dst, k + 1, true); if (!e.empty()) { X.violate(s, "memory", e); return false; }
    for (u64 i = 0; i < k; i++) X.storeC(s, dst + i, 1, 8, Val{(u8)r[i], nullptr}, e);
    X.storeC(s, dst + k, 1, 8, Val{0, nullptr}, e);
    return true;
}
BI(b_vsnprintf) {
    CONC(0); CONC(1); CONC(2); CONC(3);
    std::string e; Val area, gp, fp, save;
    X.loadC(s, a[3].c + 8, 8, 64, area, e); X.loadC(s, a[3].c, 4, 32, gp, e);
    u64 p = area.c; std::string out;
    auto next = [&](Val& v) { if (!X.loadC(s, p, 8, 64, v, e)) { X.violate(s, "memory", e); return false; } p += 8; return true; };
    if (!fmtInto(X, s, in, a[2].c, next, out)) return false;
    if (!putStr(X, s, a[0].c, a[1].c, out)) return false;
    RET((u32)out.size());
}
BI(b_snprintf) {
    CONC(0); CONC(1); CONC(2);
    size_t k = 3; std::string out;
    auto next = [&](Val& v) { if (k >= a.size()) { v = {0, nullptr}; return true; } v = a[k]; k++; return true; };
    if (!fmtInto(X, s, in, a[2].c, next, out)) return false;
    if (!putStr(X, s, a[0].c, a[1].c, out)) return false;
    RET((u32)out.size());
}
BI(b_strtod) {
    CONC(0); CONC(1);
    bool ok; std::string t = X.cstr(s, a[0].c, ok); if (!ok) return false;
    char* end; double d = strtod(t.c_str(), &end); u64 b; memcpy(&b, &d, 8);
    std::string e; if (a[1].c && !X.storeC(s, a[1].c, 8, 64, Val{a[0].c + (end - t.c_str()), nullptr}, e)) { X.violate(s, "memory", e); return false; }
    RET(b);
}
BI(b_from_chars_double) { // (first,last,&value,fmt) -> {ptr,ec}
    CONC(0); CONC(1); CONC(2); if (a.size() > 3) CONC(3);
    std::string t; for (u64 p = a[0].c; p < a[1].c; p++) { Val v; std::string e; if (!X.loadC(s, p, 1, 8, v, e)) { X.violate(s, "memory", e); return false; } if (!X.conc(s, v, 8)) return false; t.push_back((char)v.c); }
    double d = 0; auto r = std::from_chars(t.data(), t.data() + t.size(), d, a.size() > 3 ? (std::chars_format)(int)a[3].c : std::chars_format::general);
    std::string e;
    if (r.ec == std::errc()) { u64 b; memcpy(&b, &d, 8); X.storeC(s, a[2].c, 8, 64, Val{b, nullptr}, e); }
    X.retv = {Val{a[0].c + (r.ptr - t.data()), nullptr}, Val{(u64)(u32)(int)r.ec, nullptr}};
    return true;
}
BI(b_to_chars_double) { // (first,last,double[,fmt[,prec]])
    for (size_t i = 0; i < a.size(); i++) CONC(i);
    double d; memcpy(&d, &a[2].c, 8); char buf[512]; std::to_chars_result r;
    if (a.size() == 3) r = std::to_chars(buf, buf + 512, d);
    else if (a.size() == 4) r = std::to_chars(buf, buf + 512, d, (std::chars_format)(int)a[3].c);
    else r = std::to_chars(buf, buf + 512, d, (std::chars_format)(int)a[3].c, (int)a[4].c);
    u64 n = r.ptr - buf, cap = a[1].c - a[0].c; std::string e;
    if (n > cap) { X.retv = {a[1], Val{(u64)EOVERFLOW, nullptr}}; return true; }
    for (u64 i = 0; i < n; i++) if (!X.storeC(s, a[0].c + i, 1, 8, Val{(u8)buf[i], nullptr}, e)) { X.violate(s, "memory", e); return false; }
    X.retv = {Val{a[0].c + n, nullptr}, Val{0, nullptr}};
    return true;
}
BI(b_errno) { auto it = X.globByName.find("sx_errno_cell"); if (it == X.globByName.end()) { X.incomplete(s, "errno"); return false; } RET(it->second); }

// ---- harness API
static std::string nm(Exec& X, State& s, Val& v, bool& ok) { return X.cstr(s, v.c, ok); }
static std::map<std::string, u32> gVarByName;
static u32 varFor(const std::string& n, u32 w) {
    auto it = gVarByName.find(n); if (it != gVarByName.end()) return it->second;
    mkVar(n, w); u32 id = gVars.size() - 1; gVarByName[n] = id; return id;
}
static void grow(State& s) { if (s.C.model.size() < gVars.size()) s.C.model.resize(gVars.size()); if (s.C.dom.size() < gVars.size()) s.C.dom.resize(gVars.size(), nullptr); if (s.C.inMulti.size() < gVars.size()) s.C.inMulti.resize(gVars.size(), 0); }
BI(sx_bytes) {
    CONC(0); CONC(1); CONC(2);
    bool ok; std::string n = nm(X, s, a[2], ok); if (!ok) return false; for (auto& ch : n) if (ch == ' ') ch = '_';
    u32 occ = s.nameCount[n]++; std::string base = occ ? n + "#" + std::to_string(occ) : n;
    InputRec r; r.name = n; r.bytes = true; r.w = 8;
    std::string e = a[1].c ? X.check(s, a[0].c, a[1].c, true) : ""; if (!e.empty()) { X.violate(s, "memory", e); return false; }
    for (u64 i = 0; i < a[1].c; i++) {
        u32 id = varFor(base + "[" + std::to_string(i) + "]", 8); r.vars.push_back(id);
        grow(s);
        X.storeC(s, a[0].c + i, 1, 8, Val{0, gVars[id].e}, e);
    }
    s.inputs.push_back(r);
    RET(0);
}
BI(sx_var) { // (width, name)
    CONC(0); CONC(1);
    bool ok; std::string n = nm(X, s, a[1], ok); if (!ok) return false; for (auto& ch : n) if (ch == ' ') ch = '_';
    u32 w = (u32)a[0].c; u32 occ = s.nameCount[n]++; std::string base = (occ ? n + "#" + std::to_string(occ) : n) + ":" + std::to_string(w);
    u32 id = varFor(base, w); grow(s);
    InputRec r; r.name = n; r.bytes = false; r.w = w; r.vars.push_back(id); s.inputs.push_back(r);
    RETV(X.val(mkZExt(gVars[id].e, 64)));
}
static Expr* nz(Exec& X, Inst& in, std::vector<Val>& a, int i) { Expr* e = X.ex(a[i], in.argSlotW[i]); return e->w == 1 ? e : mkNot(mkEq(e, mkConst(0, e->w))); }
BI(sx_assume) {
    Expr* c = nz(X, in, a, 0);
    if (c->isConst()) { if (c->c) RET(0); X.res.assumed++; X.pathEnded = true; return false; }
    std::vector<u64> m; SatRes r = feasible(s.C, c, &m);
    if (r == SatRes::Unknown) { X.incomplete(s, "solver undecided (assume)"); return false; }
    if (r == SatRes::Unsat) { X.res.assumed++; X.pathEnded = true; return false; }
    addConstraint(s.C, c, m);
    RET(0);
}
BI(sx_assert) {
    CONC(1);
    Expr* c = nz(X, in, a, 0);
    X.res.asserts++;
    bool ok;
    if (c->isConst()) {
        if (c->c) { X.res.assertsTrivial++; RET(0); }
        std::string m = nm(X, s, a[1], ok); if (!ok) return false;
        X.violate(s, "property", m); return false;
    }
    Expr* n = mkNot(c);
    std::vector<u64> m; SatRes r;
    if (evalExpr(n, s.C.model)) { m = s.C.model; r = SatRes::Sat; }
    else { X.res.assertQueries++; r = feasible(s.C, n, &m, true); }
    if (r == SatRes::Unknown) { X.incomplete(s, "solver undecided (assertion)"); return false; }
    if (r == SatRes::Sat) {
        std::string t = nm(X, s, a[1], ok); if (!ok) return false;
        X.violate(s, "property", t, n);
        if (X.stop) return false;
        X.pathEnded = false;
        std::vector<u64> m2;
        if (feasible(s.C, c, &m2) != SatRes::Sat) { X.pathEnded = true; return false; }
        addConstraint(s.C, c, m2);
    }
    RET(0);
}
BI(sx_observe) { s.log.push_back({in.argSlotW[0], a[0].e ? X.val(mkZExt(a[0].e, 64)) : a[0]}); RET(0); }
BI(sx_reach) { CONC(0); bool ok; std::string n = nm(X, s, a[0], ok); if (!ok) return false; X.res.reach[n]++; RET(0); }
BI(sx_param) { CONC(0); bool ok; std::string n = nm(X, s, a[0], ok); if (!ok) return false; auto it = X.opt.params.find(n); RETV((Val{it == X.opt.params.end() ? a[1].c : (u64)it->second, nullptr})); }
BI(sx_concrete) { CONC(0); RETV(a[0]); }
BI(sx_issym) { RET(a[0].e != nullptr); }
BI(sx_protect) { // (ptr, size, mode)
    CONC(0); CONC(1); CONC(2); u64 off; Obj* o = X.findW(s, a[0].c, off);
    if (!o || off > o->size || a[1].c > o->size - off) { X.incomplete(s, "sx_protect"); return false; }
    o->pmode = (u8)a[2].c; o->plo = off; o->phi = off + a[1].c; RET(0);
}
BI(sx_native) { RET(0); }
BI(b_exit) { X.violate(s, "terminate", "exit() called"); return false; }
BI(b_dbg) { if (a[0].e) fprintf(stderr, "sx_debug: %s\n", toStr(a[0].e, 20).c_str()); else fprintf(stderr, "sx_debug: %llu\n", (unsigned long long)a[0].c); RET(0); }
BI(b_ptrmask) { RETV(X.val(mkBin(Op::And, X.ex(a[0], 64), X.ex(a[1], 64)))); }

std::map<std::string, BuiltinEnt>& Exec::table() {
    static std::map<std::string, BuiltinEnt> T;
    if (!T.empty()) return T;
    auto add = [&](const char* names, Builtin f, bool opt = false) { std::string n = names; size_t p = 0; while (p < n.size()) { size_t q = n.find(' ', p); if (q == std::string::npos) q = n.size(); T[n.substr(p, q - p)] = {f, opt}; p = q + 1; } };
#define A(names, fn) add(names, wrap<fn>())
    A("_Znwm _ZnwmRKSt9nothrow_t _ZnwmSt11align_val_t", b_new); A("_Znam _ZnamRKSt9nothrow_t _ZnamSt11align_val_t", b_newa);
    A("malloc", b_malloc); A("calloc", b_calloc); A("realloc", b_realloc);
    A("free cfree _ZdlPv _ZdlPvm _ZdaPv _ZdaPvm _ZdlPvSt11align_val_t _ZdlPvmSt11align_val_t _ZdaPvSt11align_val_t _ZdaPvmSt11align_val_t", b_free);
    A("memcpy memmove llvm.memcpy llvm.memmove llvm.memcpy.inline", b_memcpy); A("mempcpy __mempcpy", b_mempcpy); A("memset llvm.memset", b_memset);
    A("memcmp", b_memcmp); A("bcmp", b_bcmp); A("strlen", b_strlen); A("strcmp", b_strcmp); A("strncmp", b_strncmp); A("strcasecmp", b_strcasecmp); A("strncasecmp", b_strncasecmp);
    A("memchr", b_memchr); A("strchr", b_strchr);
    A("__cxa_allocate_exception", b_cxa_alloc); A("__cxa_free_exception", b_cxa_free_exc); A("__cxa_throw", b_cxa_throw); A("__cxa_begin_catch", b_cxa_begin_catch); A("__cxa_end_catch", b_cxa_end_catch);
    A("__cxa_rethrow", b_cxa_rethrow); A("__cxa_get_exception_ptr", b_cxa_get_exception_ptr); A("_ZSt19uncaught_exceptionsv", b_uncaught);
    A("__cxa_guard_acquire", b_guard_acquire); A("__cxa_guard_release", b_guard_release); A("__cxa_guard_abort", b_guard_abort);
    A("__cxa_atexit atexit __cxa_thread_atexit _ZNSt8ios_base4InitC1Ev _ZNSt8ios_base4InitD1Ev", b_nop);
    A("printf puts putchar fprintf fwrite fputs fputc putc fflush vfprintf vprintf setlocale getenv", b_nop);
    A("pthread_mutex_lock pthread_mutex_trylock pthread_rwlock_wrlock pthread_rwlock_trywrlock", b_wrlock); A("pthread_mutex_unlock", b_unlock); A("pthread_rwlock_rdlock pthread_rwlock_tryrdlock", b_rdlock); A("pthread_rwlock_unlock", b_unlock); A("sx_guard", sx_guard);
    A("pthread_mutex_init pthread_mutex_destroy pthread_rwlock_init pthread_rwlock_destroy pthread_cond_destroy pthread_self", b_nop);
    A("__libc_single_threaded", b_one);
    A("_ZSt9terminatev abort __cxa_pure_virtual __cxa_deleted_virtual __cxa_call_unexpected __stack_chk_fail", b_terminate);
    A("__assert_fail", b_assert_fail); A("exit _exit quick_exit", b_exit);
    A("llvm.ubsantrap", b_ubsan); A("llvm.trap llvm.debugtrap", b_trap); A("llvm.eh.typeid.for", b_typeid_for);
    A("__dynamic_cast", b_dynamic_cast);
    add("_ZSt11_Hash_bytesPKvmm", wrap<b_hash_bytes>(), true);
    add("isalpha", wrap<ctypeFn<h_isalpha>>()); add("isdigit", wrap<ctypeFn<h_isdigit>>()); add("isalnum", wrap<ctypeFn<h_isalnum>>()); add("isspace", wrap<ctypeFn<h_isspace>>());
    add("isxdigit", wrap<ctypeFn<h_isxdigit>>()); add("isupper", wrap<ctypeFn<h_isupper>>()); add("islower", wrap<ctypeFn<h_islower>>()); add("ispunct", wrap<ctypeFn<h_ispunct>>());
    add("isprint", wrap<ctypeFn<h_isprint>>()); add("isgraph", wrap<ctypeFn<h_isgraph>>()); add("iscntrl", wrap<ctypeFn<h_iscntrl>>()); add("isblank", wrap<ctypeFn<h_isblank>>());
    add("tolower", wrap<caseFn<false>>()); add("toupper", wrap<caseFn<true>>());
    add("pow llvm.pow", wrap<hostFn<H_pow, 2>>()); add("exp llvm.exp", wrap<hostFn<H_exp, 1>>()); add("exp2 llvm.exp2", wrap<hostFn<H_exp2, 1>>()); add("exp10 __exp10 llvm.exp10", wrap<hostFn<H_exp10, 1>>());
    add("log llvm.log", wrap<hostFn<H_log, 1>>()); add("log2 llvm.log2", wrap<hostFn<H_log2, 1>>()); add("log10 llvm.log10", wrap<hostFn<H_log10, 1>>());
    add("fmod", wrap<hostFn<H_fmod, 2>>()); add("ldexp scalbn llvm.ldexp", wrap<hostFn<H_ldexp, 2>>()); add("powf", wrap<hostFn<H_powf, 2>>()); add("lround llround", wrap<hostFn<H_lround, 1>>());
    add("cos llvm.cos", wrap<hostFn<H_cos, 1>>()); add("sin llvm.sin", wrap<hostFn<H_sin, 1>>()); add("cbrt", wrap<hostFn<H_cbrt, 1>>()); add("hypot", wrap<hostFn<H_hypot, 2>>());
    add("floor floorf llvm.floor", wrap<roundFn<0>>()); add("ceil ceilf llvm.ceil", wrap<roundFn<1>>()); add("trunc truncf llvm.trunc", wrap<roundFn<2>>()); add("rint nearbyint llvm.rint llvm.nearbyint llvm.roundeven", wrap<roundFn<3>>()); add("round llvm.round", wrap<roundFn<4>>());
    A("sqrt sqrtf llvm.sqrt", b_sqrt); A("fabs fabsf llvm.fabs", b_fabs); A("fma llvm.fma", b_fma); A("llvm.fmuladd", b_fmuladd); A("copysign llvm.copysign", b_copysign);
    add("fmin llvm.minnum", wrap<fminmax<false>>()); add("fmax llvm.maxnum", wrap<fminmax<true>>());
    A("llvm.is.fpclass", b_isfpclass); A("llvm.powi", b_powi);
    A("llvm.abs abs labs llabs", b_abs); A("llvm.smax", b_smax); A("llvm.smin", b_smin); A("llvm.umax", b_umax); A("llvm.umin", b_umin);
    A("llvm.sadd.with.overflow", b_saddo); A("llvm.uadd.with.overflow", b_uaddo); A("llvm.ssub.with.overflow", b_ssubo); A("llvm.usub.with.overflow", b_usubo); A("llvm.smul.with.overflow", b_smulo); A("llvm.umul.with.overflow", b_umulo);
    A("llvm.uadd.sat", b_uaddsat); A("llvm.usub.sat", b_usubsat); A("llvm.ctpop", b_ctpop); A("llvm.ctlz", b_ctlz); A("llvm.cttz", b_cttz); A("llvm.bswap", b_bswap); A("llvm.bitreverse", b_bitreverse);
    A("llvm.fshl", b_fshl); A("llvm.fshr", b_fshr); A("llvm.fptosi.sat", b_fptosi_sat); A("llvm.ptrmask", b_ptrmask);
    A("llvm.va_start", b_va_start); A("llvm.va_copy", b_va_copy); A("vsnprintf", b_vsnprintf); A("snprintf", b_snprintf); A("strtod __isoc23_strtod", b_strtod);
    A("_ZSt10from_charsPKcS0_RdSt12chars_format", b_from_chars_double); A("_ZSt8to_charsPcS_d _ZSt8to_charsPcS_dSt12chars_format _ZSt8to_charsPcS_dSt12chars_formati", b_to_chars_double);
    A("__errno_location", b_errno);
    A("sx_bytes", sx_bytes); A("sx_var", sx_var); A("sx_assume", sx_assume); A("sx_assert_", sx_assert); A("sx_observe", sx_observe); A("sx_reach", sx_reach); A("sx_param", sx_param); A("sx_concrete", sx_concrete); A("sx_issym", sx_issym); A("sx_native", sx_native); A("sx_protect", sx_protect); A("sx_freeze", sx_freeze); A("sx_debug", b_dbg);
    return T;
}
BI(b_zero) { RET(0); }
std::vector<std::string> gZero;   // functions (by prefix of the mangled name) taken to return 0
const BuiltinEnt* Exec::builtin(const std::string& n) {
    static BuiltinEnt zero{wrap<b_zero>(), true};
    for (auto& z : gZero) if (n.compare(0, z.size(), z) == 0) return &zero;
    auto& t = table(); auto it = t.find(n); return it == t.end() ? nullptr : &it->second; }
