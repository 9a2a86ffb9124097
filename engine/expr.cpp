#include "expr.h"
#include <cassert>
#include <cfenv>
#include <cmath>
#include <set>
#include <algorithm>
#include <map>

std::vector<VarInfo> gVars;
static std::vector<Expr*> gTab;      // open addressing hash table
static u64 gCount = 0;
static u32 gNextId = 1;

u64 exprCount() { return gCount; }

static char* arenaPtr = nullptr; static size_t arenaLeft = 0;
static void* arenaAlloc(size_t n) {
    n = (n + 15) & ~size_t(15);
    if (arenaLeft < n) { arenaLeft = 1 << 20; arenaPtr = (char*)aligned_alloc(64, arenaLeft); }
    void* r = arenaPtr; arenaPtr += n; arenaLeft -= n; return r;
}

struct SupHash { size_t operator()(const Support& s) const { size_t h = 0xcbf29ce484222325ull; for (u32 v : s) h = (h ^ v) * 0x100000001b3ull; return h; } };
static std::unordered_map<Support, const Support*, SupHash> gSup;
static const Support* internSup(const Support& s) {
    auto it = gSup.find(s);
    if (it != gSup.end()) return it->second;
    auto* p = new Support(s);
    gSup.emplace(s, p);
    return p;
}
static const Support* emptySup() { static const Support* s = internSup({}); return s; }
static const Support* unionSup(const Support* a, const Support* b) {
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    static std::unordered_map<u64, const Support*> cache;
    static std::unordered_map<const Support*, u32> ids;
    auto ia = ids.emplace(a, (u32)ids.size()).first->second, ib = ids.emplace(b, (u32)ids.size()).first->second;
    u64 key = ia < ib ? ((u64)ia << 32 | ib) : ((u64)ib << 32 | ia);
    auto it = cache.find(key);
    if (it != cache.end()) return it->second;
    Support r; std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    return cache[key] = internSup(r);
}

static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; return h; }

static Expr* intern(Op op, u32 w, u32 aux, u128 c, Expr* a, Expr* b, Expr* d) {
    u64 h = mix((u64)op * 0x9E3779B97F4A7C15ull, w);
    h = mix(h, aux); h = mix(h, (u64)c); h = mix(h, (u64)(c >> 64));
    h = mix(h, a ? a->id : 0); h = mix(h, b ? b->id : 0); h = mix(h, d ? d->id : 0);
    if (gTab.empty()) gTab.resize(1 << 16);
    size_t m = gTab.size() - 1, i = h & m;
    while (Expr* e = gTab[i]) {
        if (e->hash == h && e->op == op && e->w == w && e->aux == aux && e->c == c && e->k[0] == a && e->k[1] == b && e->k[2] == d) return e;
        i = (i + 1) & m;
    }
    Expr* e = (Expr*)arenaAlloc(sizeof(Expr));
    memset((void*)e, 0, sizeof(Expr));
    e->op = op; e->w = w; e->aux = aux; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d;
    e->nk = d ? 3 : b ? 2 : a ? 1 : 0;
    e->id = gNextId++; e->hash = h;
    if (op == Op::Var) e->sup = internSup({aux});
    else {
        e->sup = emptySup();
        for (int j = 0; j < e->nk; j++) e->sup = unionSup(e->sup, e->k[j]->sup);
    }
    if (op == Op::Const) { e->constLeaves = true; e->leaves = 1; }
    else if (op == Op::Ite && b->constLeaves && d->constLeaves) { e->constLeaves = true; e->leaves = b->leaves + d->leaves; }
    e->fp = op >= Op::FAdd;
    for (int j = 0; j < e->nk; j++) e->fp |= e->k[j]->fp;
    gTab[i] = e;
    if (++gCount * 2 > gTab.size()) {
        std::vector<Expr*> n(gTab.size() * 2);
        size_t mm = n.size() - 1;
        for (Expr* x : gTab) if (x) { size_t j = x->hash & mm; while (n[j]) j = (j + 1) & mm; n[j] = x; }
        gTab.swap(n);
    }
    return e;
}

Expr* mkConst(u128 v, u32 w) { return intern(Op::Const, w, 0, v & maskW(w), nullptr, nullptr, nullptr); }
Expr* mkVar(const std::string& name, u32 w) {
    u32 id = gVars.size();
    Expr* e = intern(Op::Var, w, id, 0, nullptr, nullptr, nullptr);
    gVars.push_back({name, w, e});
    return e;
}

static inline double toD(u128 v) { double d; u64 x = (u64)v; memcpy(&d, &x, 8); return d; }
static inline float toF(u128 v) { float d; u32 x = (u32)v; memcpy(&d, &x, 4); return d; }
static inline u128 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static inline u128 fromF(float d) { u32 x; memcpy(&x, &d, 4); return x; }

const char* hostNames[] = {"pow", "exp", "exp2", "exp10", "log", "log2", "log10", "fmod", "ldexp", "cos", "sin", "tan", "atan", "atan2", "powf", "lround", "cbrt", "hypot"};
u128 evalHost(u32 fn, u128 a, u128 b) {
    switch (fn) {
    case H_pow: return fromD(pow(toD(a), toD(b)));
    case H_exp: return fromD(exp(toD(a)));
    case H_exp2: return fromD(exp2(toD(a)));
    case H_exp10: return fromD(pow(10.0, toD(a)));
    case H_log: return fromD(log(toD(a)));
    case H_log2: return fromD(log2(toD(a)));
    case H_log10: return fromD(log10(toD(a)));
    case H_fmod: return fromD(fmod(toD(a), toD(b)));
    case H_ldexp: return fromD(ldexp(toD(a), (int)(u32)b));
    case H_cos: return fromD(cos(toD(a)));
    case H_sin: return fromD(sin(toD(a)));
    case H_tan: return fromD(tan(toD(a)));
    case H_atan: return fromD(atan(toD(a)));
    case H_atan2: return fromD(atan2(toD(a), toD(b)));
    case H_powf: return fromF(powf(toF(a), toF(b)));
    case H_lround: return (u64)lround(toD(a));
    case H_cbrt: return fromD(cbrt(toD(a)));
    case H_hypot: return fromD(hypot(toD(a), toD(b)));
    }
    abort();
}

template <class F> static F fround_(F x, u32 mode) {
    switch (mode) { case 0: return std::floor(x); case 1: return std::ceil(x); case 2: return std::trunc(x); case 3: return std::nearbyint(x); default: return std::round(x); }
}

// w: result width; kw: width of operand 0; kw1: width of operand 1
u128 evalOp(Op op, u32 w, u32 aux, u32 kw, u32 kw1, u128 a, u128 b, u128 c) {
    u128 m = maskW(w);
    switch (op) {
    case Op::Add: return (a + b) & m;
    case Op::Sub: return (a - b) & m;
    case Op::Mul: return (a * b) & m;
    case Op::UDiv: return b == 0 ? m : (a / b) & m;
    case Op::URem: return b == 0 ? a : (a % b) & m;
    case Op::SDiv: {
        i128 x = sextW(a, w), y = sextW(b, w);
        if (y == 0) return x < 0 ? 1 : m;
        if (y == -1) return (u128)(0 - (u128)x) & m;
        return (u128)(x / y) & m;
    }
    case Op::SRem: {
        i128 x = sextW(a, w), y = sextW(b, w);
        if (y == 0) return a;
        if (y == -1) return 0;
        return (u128)(x % y) & m;
    }
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case Op::LShr: return b >= w ? 0 : (a >> (unsigned)b) & m;
    case Op::AShr: { i128 x = sextW(a, w); return (u128)(b >= w ? (x < 0 ? -1 : 0) : (x >> (unsigned)b)) & m; }
    case Op::Eq: return a == b;
    case Op::Ult: return a < b;
    case Op::Ule: return a <= b;
    case Op::Slt: return sextW(a, kw) < sextW(b, kw);
    case Op::Sle: return sextW(a, kw) <= sextW(b, kw);
    case Op::Ite: return a ? b : c;
    case Op::Concat: return ((a << kw1) | b) & m;
    case Op::Extract: return (a >> aux) & m;
    case Op::ZExt: return a;
    case Op::SExt: return (u128)sextW(a, kw) & m;
    case Op::FAdd: return w == 64 ? fromD(toD(a) + toD(b)) : fromF(toF(a) + toF(b));
    case Op::FSub: return w == 64 ? fromD(toD(a) - toD(b)) : fromF(toF(a) - toF(b));
    case Op::FMul: return w == 64 ? fromD(toD(a) * toD(b)) : fromF(toF(a) * toF(b));
    case Op::FDiv: return w == 64 ? fromD(toD(a) / toD(b)) : fromF(toF(a) / toF(b));
    case Op::FRem: return w == 64 ? fromD(fmod(toD(a), toD(b))) : fromF(fmodf(toF(a), toF(b)));
    case Op::FOeq: return kw == 64 ? toD(a) == toD(b) : toF(a) == toF(b);
    case Op::FOlt: return kw == 64 ? toD(a) < toD(b) : toF(a) < toF(b);
    case Op::FOle: return kw == 64 ? toD(a) <= toD(b) : toF(a) <= toF(b);
    case Op::FUno: return kw == 64 ? (std::isnan(toD(a)) || std::isnan(toD(b))) : (std::isnan(toF(a)) || std::isnan(toF(b)));
    case Op::SIToFP: { i128 x = sextW(a, kw); return w == 64 ? fromD((double)x) : fromF((float)x); }
    case Op::UIToFP: return w == 64 ? fromD((double)a) : fromF((float)a);
    case Op::FPToSI: {
        double d = kw == 64 ? toD(a) : toF(a);
        // x86 semantics for out-of-range values (they are undefined in C++; flagged by the sanitizer build)
        if (w == 64) { if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return (u128)1 << 63; return (u64)(i64)d; }
        if (w == 32) { if (!(d > -2147483649.0 && d < 2147483648.0)) return (u128)1 << 31; return (u32)(int)d; }
        if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0;
        return (u128)(i128)(i64)d & m;
    }
    case Op::FPToUI: {
        double d = kw == 64 ? toD(a) : toF(a);
        if (!(d > -1.0 && d < 18446744073709551616.0)) return ((u128)1 << 63) & m;
        return (u128)(u64)d & m;
    }
    case Op::FPCvt: return kw == w ? a : w == 64 ? fromD((double)toF(a)) : fromF((float)toD(a));
    case Op::FSqrt: return w == 64 ? fromD(std::sqrt(toD(a))) : fromF(std::sqrt(toF(a)));
    case Op::FRound: return w == 64 ? fromD(fround_(toD(a), aux)) : fromF(fround_(toF(a), aux));
    case Op::FFma: return w == 64 ? fromD(std::fma(toD(a), toD(b), toD(c))) : fromF(std::fma(toF(a), toF(b), toF(c)));
    case Op::Host: return evalHost(aux, a, b) & m;
    default: break;
    }
    abort();
}

static Expr* mk(Op op, u32 w, u32 aux, Expr* a, Expr* b = nullptr, Expr* c = nullptr) {
    return intern(op, w, aux, 0, a, b, c);
}
static bool commut(Op op) { return op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq; }
static bool isAllOnes(Expr* e) { return e->isConst() && e->c == maskW(e->w); }

static std::unordered_map<u64, Expr*> gMemoPush;

// apply f to each constant leaf of an ite tree
template <class F> static Expr* mapLeaves(Expr* e, F f, std::unordered_map<Expr*, Expr*>& memo) {
    if (e->isConst()) return f(e);
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    Expr* r = mkIte(e->k[0], mapLeaves(e->k[1], f, memo), mapLeaves(e->k[2], f, memo));
    memo[e] = r;
    return r;
}
static const u32 PUSH_LIMIT = 600;
static bool pushable(Expr* e) { return e->op == Op::Ite && e->constLeaves && e->leaves <= PUSH_LIMIT; }

Expr* mkNot(Expr* a) {
    if (a->isConst()) return mkConst(!a->c, 1);
    if (a->op == Op::Xor && a->w == 1 && isAllOnes(a->k[1])) return a->k[0];
    switch (a->op) {
    case Op::Ult: return mkBin(Op::Ule, a->k[1], a->k[0]);
    case Op::Ule: return mkBin(Op::Ult, a->k[1], a->k[0]);
    case Op::Slt: return mkBin(Op::Sle, a->k[1], a->k[0]);
    case Op::Sle: return mkBin(Op::Slt, a->k[1], a->k[0]);
    default: break;
    }
    return mk(Op::Xor, 1, 0, a, mkConst(1, 1));
}

static bool isNotOf(Expr* a, Expr* b) { return a->op == Op::Xor && a->w == 1 && isAllOnes(a->k[1]) && a->k[0] == b; }

// number of known-zero high bits
static u32 highZeros(Expr* e) {
    if (e->op == Op::ZExt) return e->w - e->k[0]->w + highZeros(e->k[0]);
    if (e->op == Op::Const) { u32 n = 0; for (int i = (int)e->w - 1; i >= 0 && !((e->c >> i) & 1); i--) n++; return n; }
    if (e->op == Op::And) return std::max(highZeros(e->k[0]), highZeros(e->k[1]));
    if (e->op == Op::LShr && e->k[1]->isConst() && e->k[1]->c < e->w) return std::min<u32>(e->w, (u32)e->k[1]->c + highZeros(e->k[0]));
    if (e->op == Op::Ite && !e->constLeaves) return std::min(highZeros(e->k[1]), highZeros(e->k[2]));
    return 0;
}

Expr* mkBin(Op op, Expr* a, Expr* b) {
    u32 w = (op >= Op::Eq && op <= Op::Sle) ? 1 : a->w;
    assert(a->w == b->w);
    if (a->isConst() && b->isConst()) return mkConst(evalOp(op, w, 0, a->w, b->w, a->c, b->c, 0), w);
    if (commut(op) && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
    if (pushable(a) && b->isConst()) {
        std::unordered_map<Expr*, Expr*> memo;
        return mapLeaves(a, [&](Expr* l) { return mkConst(evalOp(op, w, 0, a->w, b->w, l->c, b->c, 0), w); }, memo);
    }
    if (pushable(b) && a->isConst()) {
        std::unordered_map<Expr*, Expr*> memo;
        return mapLeaves(b, [&](Expr* l) { return mkConst(evalOp(op, w, 0, a->w, b->w, a->c, l->c, 0), w); }, memo);
    }
    u128 m = maskW(a->w);
    u32 aw = a->w;
    switch (op) {
    case Op::Add:
        if (b->isConst()) {
            if (b->c == 0) return a;
            if (a->op == Op::Add && a->k[1]->isConst()) return mkBin(Op::Add, a->k[0], mkConst(a->k[1]->c + b->c, aw));
        } else {
            if (a->op == Op::Add && a->k[1]->isConst()) return mkBin(Op::Add, mkBin(Op::Add, a->k[0], b), a->k[1]);
            if (b->op == Op::Add && b->k[1]->isConst()) return mkBin(Op::Add, mkBin(Op::Add, a, b->k[0]), b->k[1]);
            // x + (y * -1)  with x == y
            if (a->op == Op::Sub && a->k[1] == b) return a->k[0];
            if (b->op == Op::Sub && b->k[1] == a) return b->k[0];
        }
        break;
    case Op::Sub:
        if (a == b) return mkConst(0, aw);
        if (b->isConst()) return mkBin(Op::Add, a, mkConst(0 - b->c, aw));
        if (a->op == Op::Add) {
            if (a->k[0] == b) return a->k[1];
            if (a->k[1] == b) return a->k[0];
            if (a->k[1]->isConst()) {
                if (b->op == Op::Add && b->k[1]->isConst()) return mkBin(Op::Add, mkBin(Op::Sub, a->k[0], b->k[0]), mkConst(a->k[1]->c - b->k[1]->c, aw));
                return mkBin(Op::Add, mkBin(Op::Sub, a->k[0], b), a->k[1]);
            }
        }
        if (b->op == Op::Add && b->k[1]->isConst()) return mkBin(Op::Add, mkBin(Op::Sub, a, b->k[0]), mkConst(0 - b->k[1]->c, aw));
        if (b->op == Op::Add) { if (b->k[0] == a) return mkBin(Op::Sub, mkConst(0, aw), b->k[1]); if (b->k[1] == a) return mkBin(Op::Sub, mkConst(0, aw), b->k[0]); }
        break;
    case Op::Mul:
        if (b->isConst()) {
            if (b->c == 0) return b;
            if (b->c == 1) return a;
            if (a->op == Op::Mul && a->k[1]->isConst()) return mkBin(Op::Mul, a->k[0], mkConst(a->k[1]->c * b->c, aw));
            // power of two -> shift
            if ((b->c & (b->c - 1)) == 0) { u32 s = 0; while (!((b->c >> s) & 1)) s++; return mkBin(Op::Shl, a, mkConst(s, aw)); }
        }
        break;
    case Op::UDiv:
        if (b->isConst() && b->c == 1) return a;
        if (b->isConst() && b->c && (b->c & (b->c - 1)) == 0) { u32 s = 0; while (!((b->c >> s) & 1)) s++; return mkBin(Op::LShr, a, mkConst(s, aw)); }
        break;
    case Op::SDiv:
        if (b->isConst() && b->c == 1) return a;
        break;
    case Op::URem:
        if (b->isConst() && b->c == 1) return mkConst(0, aw);
        if (b->isConst() && b->c && (b->c & (b->c - 1)) == 0) return mkBin(Op::And, a, mkConst(b->c - 1, aw));
        break;
    case Op::And:
        if (a == b) return a;
        if (b->isConst()) {
            if (b->c == 0) return b;
            if (b->c == m) return a;
            if (a->op == Op::And && a->k[1]->isConst()) return mkBin(Op::And, a->k[0], mkConst(a->k[1]->c & b->c, aw));
            // mask of low bits
            if ((b->c & (b->c + 1)) == 0) {
                u32 n = 0; while ((b->c >> n) & 1) n++;
                if (highZeros(a) >= aw - n) return a;
                if (aw > n) return mkZExt(mkExtract(a, 0, n), aw);
            }
            if (a->op == Op::ZExt) {
                u32 iw = a->k[0]->w;
                return mkZExt(mkBin(Op::And, a->k[0], mkConst(b->c, iw)), aw);
            }
        }
        if (aw == 1) {
            if (isNotOf(a, b) || isNotOf(b, a)) return mkConst(0, 1);
            if (a->op == Op::And && (a->k[0] == b || a->k[1] == b)) return a;
            if (b->op == Op::And && (b->k[0] == a || b->k[1] == a)) return b;
            if (a->op == Op::Or && (a->k[0] == b || a->k[1] == b)) return b;
            if (b->op == Op::Or && (b->k[0] == a || b->k[1] == a)) return a;
        }
        break;
    case Op::Or:
        if (a == b) return a;
        if (b->isConst()) {
            if (b->c == 0) return a;
            if (b->c == m) return b;
            if (a->op == Op::Or && a->k[1]->isConst()) return mkBin(Op::Or, a->k[0], mkConst(a->k[1]->c | b->c, aw));
        }
        if (aw == 1) {
            if (isNotOf(a, b) || isNotOf(b, a)) return mkConst(1, 1);
            if (a->op == Op::Or && (a->k[0] == b || a->k[1] == b)) return a;
            if (b->op == Op::Or && (b->k[0] == a || b->k[1] == a)) return b;
            if (a->op == Op::And && (a->k[0] == b || a->k[1] == b)) return b;
            if (b->op == Op::And && (b->k[0] == a || b->k[1] == a)) return a;
        } else {
            // (x << n) | zext(y) with y narrower than n  -> concat
            auto tryConcat = [&](Expr* hi, Expr* lo) -> Expr* {
                if (hi->op == Op::Shl && hi->k[1]->isConst() && hi->k[1]->c > 0 && hi->k[1]->c < aw) {
                    u32 n = (u32)hi->k[1]->c;
                    if (highZeros(lo) >= aw - n) return mkConcat(mkExtract(hi->k[0], 0, aw - n), mkExtract(lo, 0, n));
                }
                if (hi->op == Op::Concat && hi->k[1]->isConst() && hi->k[1]->c == 0) {
                    u32 n = hi->k[1]->w;
                    if (highZeros(lo) >= aw - n) return mkConcat(hi->k[0], mkExtract(lo, 0, n));
                }
                return nullptr;
            };
            if (Expr* r = tryConcat(a, b)) return r;
            if (Expr* r = tryConcat(b, a)) return r;
        }
        break;
    case Op::Xor:
        if (a == b) return mkConst(0, aw);
        if (b->isConst()) {
            if (b->c == 0) return a;
            if (aw == 1) return mkNot(a);
            if (a->op == Op::Xor && a->k[1]->isConst()) return mkBin(Op::Xor, a->k[0], mkConst(a->k[1]->c ^ b->c, aw));
        }
        if (aw == 1) {
            if (isNotOf(a, b) || isNotOf(b, a)) return mkConst(1, 1);
            if (a->op == Op::Xor && isAllOnes(a->k[1])) return mkNot(mkBin(Op::Xor, a->k[0], b));
            if (b->op == Op::Xor && isAllOnes(b->k[1])) return mkNot(mkBin(Op::Xor, a, b->k[0]));
        }
        break;
    case Op::Shl: case Op::LShr: case Op::AShr:
        if (b->isConst()) {
            if (b->c == 0) return a;
            if (b->c >= aw) { if (op != Op::AShr) return mkConst(0, aw); break; }
            u32 n = (u32)b->c;
            if (op == Op::Shl) return mkConcat(mkExtract(a, 0, aw - n), mkConst(0, n));
            if (op == Op::LShr) return mkZExt(mkExtract(a, n, aw - n), aw);
            if (op == Op::AShr) return mkSExt(mkExtract(a, n, aw - n), aw);
        }
        if (a->isConst() && a->c == 0) return a;
        break;
    case Op::Eq:
        if (a == b) return mkConst(1, 1);
        if (aw == 1) {
            if (b->isConst()) return b->c ? a : mkNot(a);
            return mkNot(mkBin(Op::Xor, a, b));
        }
        if (b->isConst()) {
            if (a->op == Op::Add && a->k[1]->isConst()) return mkBin(Op::Eq, a->k[0], mkConst(b->c - a->k[1]->c, aw));
            if (a->op == Op::Sub && b->c == 0) return mkBin(Op::Eq, a->k[0], a->k[1]);
            if (a->op == Op::Sub && a->k[0]->isConst()) return mkBin(Op::Eq, a->k[1], mkConst(a->k[0]->c - b->c, aw));
            if (a->op == Op::Xor && a->k[1]->isConst()) return mkBin(Op::Eq, a->k[0], mkConst(b->c ^ a->k[1]->c, aw));
            if (a->op == Op::Xor && b->c == 0) return mkBin(Op::Eq, a->k[0], a->k[1]);
            if (a->op == Op::ZExt) {
                u32 iw = a->k[0]->w;
                if (b->c >> iw) return mkConst(0, 1);
                return mkBin(Op::Eq, a->k[0], mkConst(b->c, iw));
            }
            if (a->op == Op::SExt) {
                u32 iw = a->k[0]->w;
                Expr* n = mkConst(b->c, iw);
                if (((u128)sextW(n->c, iw) & m) != b->c) return mkConst(0, 1);
                return mkBin(Op::Eq, a->k[0], n);
            }
            if (a->op == Op::Concat) {
                u32 lw = a->k[1]->w;
                return mkAnd(mkBin(Op::Eq, a->k[0], mkConst(b->c >> lw, a->k[0]->w)), mkBin(Op::Eq, a->k[1], mkConst(b->c, lw)));
            }
            if (a->op == Op::Ite) {
                // one constant leaf
                if (a->k[1]->isConst()) return a->k[1]->c == b->c ? mkOr(a->k[0], mkBin(Op::Eq, a->k[2], b)) : mkAnd(mkNot(a->k[0]), mkBin(Op::Eq, a->k[2], b));
                if (a->k[2]->isConst()) return a->k[2]->c == b->c ? mkOr(mkNot(a->k[0]), mkBin(Op::Eq, a->k[1], b)) : mkAnd(a->k[0], mkBin(Op::Eq, a->k[1], b));
            }
        } else {
            if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mkBin(Op::Eq, a->k[0], b->k[0]);
            if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return mkBin(Op::Eq, a->k[0], b->k[0]);
            if (a->op == Op::Add && b->op == Op::Add && a->k[1] == b->k[1]) return mkBin(Op::Eq, a->k[0], b->k[0]);
            if (a->op == Op::Add && (a->k[0] == b)) return mkBin(Op::Eq, a->k[1], mkConst(0, aw));
            if (a->op == Op::Add && (a->k[1] == b)) return mkBin(Op::Eq, a->k[0], mkConst(0, aw));
            if (b->op == Op::Add && (b->k[0] == a)) return mkBin(Op::Eq, b->k[1], mkConst(0, aw));
            if (b->op == Op::Add && (b->k[1] == a)) return mkBin(Op::Eq, b->k[0], mkConst(0, aw));
            if (a->op == Op::Concat && b->op == Op::Concat && a->k[1]->w == b->k[1]->w)
                return mkAnd(mkBin(Op::Eq, a->k[0], b->k[0]), mkBin(Op::Eq, a->k[1], b->k[1]));
        }
        break;
    case Op::Ult: case Op::Ule: {
        if (a == b) return mkConst(op == Op::Ule, 1);
        if (op == Op::Ult) {
            if (b->isConst()) { if (b->c == 0) return mkConst(0, 1); if (b->c == 1) return mkBin(Op::Eq, a, mkConst(0, aw)); if (b->c == m && !a->isConst()) return mkNot(mkEq(a, b)); }
            if (a->isConst()) { if (a->c == m) return mkConst(0, 1); if (a->c == 0) return mkNot(mkBin(Op::Eq, b, a)); }
        } else {
            if (a->isConst()) { if (a->c == 0) return mkConst(1, 1); return mkBin(Op::Ult, mkConst(a->c - 1, aw), b); }
            if (b->isConst()) { if (b->c == m) return mkConst(1, 1); return mkBin(Op::Ult, a, mkConst(b->c + 1, aw)); }
        }
        if (a->op == Op::ZExt && b->isConst()) {
            u32 iw = a->k[0]->w;
            if (b->c > maskW(iw)) return mkConst(1, 1);
            return mkBin(op, a->k[0], mkConst(b->c, iw));
        }
        if (b->op == Op::ZExt && a->isConst()) {
            u32 iw = b->k[0]->w;
            if (a->c > maskW(iw)) return mkConst(0, 1);
            return mkBin(op, mkConst(a->c, iw), b->k[0]);
        }
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
        if (aw == 1) {
            if (op == Op::Ult) return mkAnd(mkNot(a), b);
            return mkOr(mkNot(a), b);
        }
        break;
    }
    case Op::Slt: case Op::Sle:
        if (a == b) return mkConst(op == Op::Sle, 1);
        {
            u32 za = highZeros(a), zb = highZeros(b);
            if (za >= 1 && zb >= 1) return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
            if (za >= 1 && b->isConst()) return mkConst(0, 1);   // a >= 0 > b
            if (zb >= 1 && a->isConst()) return mkConst(1, 1);
            if (a->op == Op::SExt && b->isConst()) {
                u32 iw = a->k[0]->w; i128 v = sextW(b->c, aw);
                i128 lo = -((i128)1 << (iw - 1)), hi = ((i128)1 << (iw - 1)) - 1;
                if (v > hi) return mkConst(1, 1);
                if (v < lo) return mkConst(0, 1);
                return mkBin(op, a->k[0], mkConst(b->c, iw));
            }
            if (b->op == Op::SExt && a->isConst()) {
                u32 iw = b->k[0]->w; i128 v = sextW(a->c, aw);
                i128 lo = -((i128)1 << (iw - 1)), hi = ((i128)1 << (iw - 1)) - 1;
                if (v > hi) return mkConst(0, 1);
                if (v < lo) return mkConst(1, 1);
                return mkBin(op, mkConst(a->c, iw), b->k[0]);
            }
            if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
        }
        if (aw == 1) { // signed: 1 is -1
            if (op == Op::Slt) return mkAnd(a, mkNot(b));
            return mkOr(a, mkNot(b));
        }
        break;
    default: break;
    }
    return mk(op, w, 0, a, b);
}

Expr* mkIte(Expr* c, Expr* a, Expr* b) {
    assert(a->w == b->w && c->w == 1);
    if (c->isConst()) return c->c ? a : b;
    if (a == b) return a;
    if (c->op == Op::Xor && isAllOnes(c->k[1])) return mkIte(c->k[0], b, a);
    if (a->w == 1) {
        if (a->isConst()) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (b->isConst()) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
        if (a == c) return mkOr(c, b);
        if (b == c) return mkAnd(c, a);
    }
    if (a->op == Op::Ite && a->k[0] == c) a = a->k[1];
    if (b->op == Op::Ite && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    if (b->op == Op::Ite && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
    return mk(Op::Ite, a->w, 0, c, a, b);
}

Expr* mkExtract(Expr* a, u32 lo, u32 w) {
    if (lo == 0 && w == a->w) return a;
    if (a->isConst()) return mkConst(a->c >> lo, w);
    switch (a->op) {
    case Op::Extract: return mkExtract(a->k[0], lo + a->aux, w);
    case Op::Concat: {
        u32 lw = a->k[1]->w;
        if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
        if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
        return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case Op::ZExt: {
        u32 iw = a->k[0]->w;
        if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
        if (lo >= iw) return mkConst(0, w);
        return mkZExt(mkExtract(a->k[0], lo, iw - lo), w);
    }
    case Op::SExt: {
        u32 iw = a->k[0]->w;
        if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
        if (lo < iw) return mkSExt(mkExtract(a->k[0], lo, iw - lo), w);
        break;
    }
    case Op::Ite:
        if (pushable(a)) {
            std::unordered_map<Expr*, Expr*> memo;
            return mapLeaves(a, [&](Expr* l) { return mkConst(l->c >> lo, w); }, memo);
        }
        if (a->k[1]->isConst() || a->k[2]->isConst() )
            return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
        break;
    case Op::And: case Op::Or: case Op::Xor:
        return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case Op::Add: case Op::Sub: case Op::Mul:
        if (lo == 0 && w <= 32) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
        break;
    default: break;
    }
    return mk(Op::Extract, w, lo, a);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
    u32 w = hi->w + lo->w;
    assert(w <= 128);
    if (hi->isConst() && lo->isConst()) return mkConst((hi->c << lo->w) | lo->c, w);
    if (hi->isConst() && hi->c == 0) return mkZExt(lo, w);
    if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w) return mkExtract(hi->k[0], lo->aux, w);
    if (hi->op == Op::Extract && hi->aux >= lo->w && mkExtract(hi->k[0], hi->aux - lo->w, lo->w) == lo) return mkExtract(hi->k[0], hi->aux - lo->w, w);
    if (hi->op == Op::Extract && lo->op == Op::Concat && hi->aux >= lo->k[0]->w && mkExtract(hi->k[0], hi->aux - lo->k[0]->w, lo->k[0]->w) == lo->k[0])
        return mkConcat(mkExtract(hi->k[0], hi->aux - lo->k[0]->w, hi->w + lo->k[0]->w), lo->k[1]);
    if (hi->op == Op::Concat && lo->op == Op::Extract && hi->k[1]->op == Op::Extract && hi->k[1]->k[0] == lo->k[0] && hi->k[1]->aux == lo->aux + lo->w)
        return mkConcat(hi->k[0], mkExtract(lo->k[0], lo->aux, hi->k[1]->w + lo->w));
    if (hi->op == Op::Concat && hi->k[1]->isConst() && lo->isConst()) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
    if (hi->op == Op::Concat && !(hi->k[1]->isConst())) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo)); // right-assoc
    if (hi->op == Op::ZExt) return mkZExt(mkConcat(hi->k[0], lo), w);
    if (hi->op == Op::Extract && lo->op == Op::Concat && lo->k[0]->op == Op::Extract && lo->k[0]->k[0] == hi->k[0] && hi->aux == lo->k[0]->aux + lo->k[0]->w)
        return mkConcat(mkExtract(hi->k[0], lo->k[0]->aux, hi->w + lo->k[0]->w), lo->k[1]);
    if (pushable(hi) && lo->isConst()) {
        std::unordered_map<Expr*, Expr*> memo;
        return mapLeaves(hi, [&](Expr* l) { return mkConst((l->c << lo->w) | lo->c, w); }, memo);
    }
    if (pushable(lo) && hi->isConst()) {
        std::unordered_map<Expr*, Expr*> memo;
        return mapLeaves(lo, [&](Expr* l) { return mkConst((hi->c << lo->w) | l->c, w); }, memo);
    }
    // same condition on both halves
    if (hi->op == Op::Ite && lo->op == Op::Ite && hi->k[0] == lo->k[0])
        return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
    return mk(Op::Concat, w, 0, hi, lo);
}
Expr* mkZExt(Expr* a, u32 w) {
    if (a->w == w) return a;
    assert(w > a->w);
    if (a->isConst()) return mkConst(a->c, w);
    if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
    if (pushable(a)) {
        std::unordered_map<Expr*, Expr*> memo;
        return mapLeaves(a, [&](Expr* l) { return mkConst(l->c, w); }, memo);
    }
    return mk(Op::ZExt, w, 0, a);
}
Expr* mkSExt(Expr* a, u32 w) {
    if (a->w == w) return a;
    if (a->isConst()) return mkConst((u128)sextW(a->c, a->w), w);
    if (a->op == Op::SExt) return mkSExt(a->k[0], w);
    if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
    if (pushable(a)) {
        std::unordered_map<Expr*, Expr*> memo;
        return mapLeaves(a, [&](Expr* l) { return mkConst((u128)sextW(l->c, a->w), w); }, memo);
    }
    if (a->op == Op::Concat && a->k[0]->isConst() && !((a->k[0]->c >> (a->k[0]->w - 1)) & 1)) return mkZExt(a, w);
    return mk(Op::SExt, w, 0, a);
}
Expr* mkFBin(Op op, Expr* a, Expr* b) {
    if (a->isConst() && b->isConst()) return mkConst(evalOp(op, a->w, 0, a->w, b->w, a->c, b->c, 0), a->w);
    if ((op == Op::FAdd || op == Op::FMul) && a->id > b->id) std::swap(a, b);
    if (pushable(a) && b->isConst()) {
        std::unordered_map<Expr*, Expr*> memo;
        return mapLeaves(a, [&](Expr* l) { return mkConst(evalOp(op, a->w, 0, a->w, b->w, l->c, b->c, 0), a->w); }, memo);
    }
    return mk(op, a->w, 0, a, b);
}
Expr* mkFCmp(Op op, Expr* a, Expr* b) {
    if (a->isConst() && b->isConst()) return mkConst(evalOp(op, 1, 0, a->w, b->w, a->c, b->c, 0), 1);
    return mk(op, 1, 0, a, b);
}
Expr* mkCvt(Op op, Expr* a, u32 w) {
    if (a->isConst()) return mkConst(evalOp(op, w, 0, a->w, 0, a->c, 0, 0), w);
    if (pushable(a)) {
        std::unordered_map<Expr*, Expr*> memo;
        return mapLeaves(a, [&](Expr* l) { return mkConst(evalOp(op, w, 0, a->w, 0, l->c, 0, 0), w); }, memo);
    }
    return mk(op, w, 0, a);
}
Expr* mkUn(Op op, Expr* a, u32 aux) {
    if (a->isConst()) return mkConst(evalOp(op, a->w, aux, a->w, 0, a->c, 0, 0), a->w);
    return mk(op, a->w, aux, a);
}
Expr* mkFma(Expr* a, Expr* b, Expr* c) {
    if (a->isConst() && b->isConst() && c->isConst()) return mkConst(evalOp(Op::FFma, a->w, 0, a->w, b->w, a->c, b->c, c->c), a->w);
    return mk(Op::FFma, a->w, 0, a, b, c);
}
Expr* mkHost(HostFn f, Expr* a, Expr* b, u32 w) {
    if (a->isConst() && (!b || b->isConst())) return mkConst(evalHost(f, a->c, b ? b->c : 0), w);
    return mk(Op::Host, w, f, a, b);
}

// ---- evaluation
static std::vector<u32> gEvalStamp; static std::vector<u128> gEvalVal; static u32 gStamp = 0;
static u128 evalRec(Expr* e, const std::vector<u64>& model) {
    if (e->op == Op::Const) return e->c;
    if (e->op == Op::Var) return e->aux < model.size() ? model[e->aux] & maskW(e->w) : 0;
    if (gEvalStamp[e->id] == gStamp) return gEvalVal[e->id];
    u128 a = 0, b = 0, c = 0, r;
    if (e->op == Op::Ite) {
        r = evalRec(e->k[0], model) ? evalRec(e->k[1], model) : evalRec(e->k[2], model);
    } else {
        a = evalRec(e->k[0], model);
        if (e->w == 1 && e->op == Op::And && !a) r = 0;
        else if (e->w == 1 && e->op == Op::Or && a) r = 1;
        else {
            if (e->nk > 1) b = evalRec(e->k[1], model);
            if (e->nk > 2) c = evalRec(e->k[2], model);
            r = evalOp(e->op, e->w, e->aux, e->k[0]->w, e->nk > 1 ? e->k[1]->w : 0, a, b, c);
        }
    }
    gEvalStamp[e->id] = gStamp; gEvalVal[e->id] = r;
    return r;
}
u128 evalExpr(Expr* e, const std::vector<u64>& model) {
    if (e->op == Op::Const) return e->c;
    if (gEvalStamp.size() < gNextId) { gEvalStamp.resize(gNextId * 2, 0); gEvalVal.resize(gNextId * 2); }
    if (++gStamp == 0) { std::fill(gEvalStamp.begin(), gEvalStamp.end(), 0); gStamp = 1; }
    return evalRec(e, model);
}
bool singleByteVar(Expr* e, u32& var) {
    if (e->sup->size() != 1) return false;
    var = (*e->sup)[0];
    return gVars[var].w <= 8;
}
const u64* tableOf(Expr* e) {
    if (e->table) return e->table;
    u64* t = (u64*)malloc(256 * 8);
    if (e->op == Op::Const) for (int i = 0; i < 256; i++) t[i] = (u64)e->c;
    else if (e->op == Op::Var) for (int i = 0; i < 256; i++) t[i] = i & (u64)maskW(e->w);
    else {
        bool wide = e->w > 64;
        for (int j = 0; j < e->nk; j++) if (e->k[j]->w > 64) wide = true;
        if (wide) {
            std::vector<u64> model(gVars.size());
            u32 v = (*e->sup)[0];
            for (int i = 0; i < 256; i++) { model[v] = i; t[i] = (u64)evalExpr(e, model); }
        } else {
            const u64* kt[3] = {nullptr, nullptr, nullptr};
            for (int j = 0; j < e->nk; j++) kt[j] = tableOf(e->k[j]);
            u32 kw = e->k[0]->w, kw1 = e->nk > 1 ? e->k[1]->w : 0;
            for (int i = 0; i < 256; i++)
                t[i] = (u64)evalOp(e->op, e->w, e->aux, kw, kw1, kt[0][i], kt[1] ? kt[1][i] : 0, kt[2] ? kt[2][i] : 0);
        }
    }
    return e->table = t;
}
const Bits256& truthOf(Expr* e) {
    if (e->truth) return *e->truth;
    auto* b = new Bits256{{0, 0, 0, 0}};
    u32 v; if (!singleByteVar(e, v)) abort();
    if (e->nk >= 1 && e->w == 1 && (e->op == Op::And || e->op == Op::Or || e->op == Op::Xor)) {
        auto tb = [&](Expr* k) -> Bits256 { if (k->isConst()) { if (k->c) return Bits256{{~0ull, ~0ull, ~0ull, ~0ull}}; return Bits256{{0, 0, 0, 0}}; } return truthOf(k); };
        Bits256 x = tb(e->k[0]), y = tb(e->k[1]);
        for (int i = 0; i < 4; i++) b->w[i] = e->op == Op::And ? (x.w[i] & y.w[i]) : e->op == Op::Or ? (x.w[i] | y.w[i]) : (x.w[i] ^ y.w[i]);
    } else {
        const u64* t = tableOf(e);
        for (int i = 0; i < 256; i++) if (t[i] & 1) b->set(i);
    }
    e->truth = b;
    return *b;
}

static const char* opN[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext", "fadd", "fsub", "fmul", "fdiv", "frem", "foeq", "folt", "fole", "funo", "sitofp", "uitofp", "fptosi", "fptoui", "fpcvt", "fsqrt", "fround", "fma", "host"};
std::string toStr(Expr* e, int depth) {
    if (e->isConst()) { char b[40]; if (e->c >> 64) snprintf(b, 40, "0x%llx%016llx", (unsigned long long)(e->c >> 64), (unsigned long long)e->c); else snprintf(b, 40, "0x%llx", (unsigned long long)e->c); return std::string(b) + ":" + std::to_string(e->w); }
    if (e->op == Op::Var) return gVars[e->aux].name;
    if (depth <= 0) return "...";
    std::string s = "(" + std::string(opN[(int)e->op]) + ":" + std::to_string(e->w);
    if (e->op == Op::Extract) s += "@" + std::to_string(e->aux);
    for (int i = 0; i < e->nk; i++) s += " " + toStr(e->k[i], depth - 1);
    return s + ")";
}
