#include "solver.h"
#include <algorithm>
#include <cassert>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <z3.h>
#include <cmath>

SolverStats gSolver;
unsigned gSolverTimeoutMs = 120000;
u64 gTableLimit = 5000;

static Z3_context ctx = nullptr;
static Z3_solver inc = nullptr;
static std::vector<Z3_ast> memoBV, memoFP;
static Z3_sort sD, sF; static Z3_ast rne, rtz, rtp, rtn, rna;

static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }

static void initZ3() {
    if (ctx) return;
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, onErr);
    sD = Z3_mk_fpa_sort_double(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, sD));
    sF = Z3_mk_fpa_sort_single(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, sF));
    rne = Z3_mk_fpa_rne(ctx); Z3_inc_ref(ctx, rne);
    rtz = Z3_mk_fpa_rtz(ctx); Z3_inc_ref(ctx, rtz);
    rtp = Z3_mk_fpa_rtp(ctx); Z3_inc_ref(ctx, rtp);
    rtn = Z3_mk_fpa_rtn(ctx); Z3_inc_ref(ctx, rtn);
    rna = Z3_mk_fpa_rna(ctx); Z3_inc_ref(ctx, rna);
    inc = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, inc);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 3000);
    Z3_solver_set_params(ctx, inc, p);
    Z3_params_dec_ref(ctx, p);
}
void solverResetAfterFork() {}

struct DKey { u32 e; u64 h; bool operator==(const DKey& o) const { return e == o.e && h == o.h; } };
struct DKeyH { size_t operator()(const DKey& k) const { return k.h * 31 + k.e; } };
static std::unordered_map<DKey, Z3_ast, DKeyH> tabMemo;

struct Tr {
    const Constraints* C;
    std::unordered_map<u32, Z3_ast> locBV, locFP;   // used for fp-containing terms (state dependent)
    u64 domHash(Expr* e) {
        u64 h = 1469598103934665603ull;
        for (u32 v : *e->sup) { h = (h ^ v) * 0x100000001b3ull; h = (h ^ (u64)(uintptr_t)(v < C->dom.size() ? C->dom[v] : nullptr)) * 0x100000001b3ull; h ^= h >> 31; }
        return h;
    }
    bool tableable(Expr* e) {
        if (!e->fp || e->sup->empty() || e->sup->size() > 8) return false;
        if (!(e->op >= Op::FAdd)) return false;
        u64 prod = 1;
        for (u32 v : *e->sup) {
            if (gVars[v].w > 8) return false;
            const Bits256* d = domainOf(*C, v);
            prod *= d->count();
            if (prod > gTableLimit) return false;
        }
        return true;
    }
    Z3_ast num(u128 v, u32 w) {
        Z3_sort s = Z3_mk_bv_sort(ctx, w);
        if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, s);
        Z3_ast hi = Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), Z3_mk_bv_sort(ctx, w - 64));
        Z3_inc_ref(ctx, hi);
        Z3_ast lo = Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, 64));
        Z3_inc_ref(ctx, lo);
        return Z3_mk_concat(ctx, hi, lo);
    }
    Z3_ast table(Expr* e) {
        DKey k{e->id, domHash(e)};
        auto it = tabMemo.find(k);
        if (it != tabMemo.end()) return it->second;
        std::vector<u64> model(gVars.size());
        const Support& sup = *e->sup;
        std::function<Z3_ast(size_t)> rec = [&](size_t i) -> Z3_ast {
            if (i == sup.size()) { Z3_ast r = num(evalExpr(e, model), e->w); Z3_inc_ref(ctx, r); return r; }
            const Bits256* d = domainOf(*C, sup[i]);
            Z3_ast acc = nullptr;
            Z3_ast var = bv(gVars[sup[i]].e);
            for (int v = 0; v < 256; v++) if (d->get(v)) {
                model[sup[i]] = v;
                Z3_ast sub = rec(i + 1);
                if (!acc) { acc = sub; continue; }
                if (acc == sub) continue;
                Z3_ast c = num(v, gVars[sup[i]].w); Z3_inc_ref(ctx, c);
                Z3_ast eq = Z3_mk_eq(ctx, var, c); Z3_inc_ref(ctx, eq);
                acc = Z3_mk_ite(ctx, eq, sub, acc); Z3_inc_ref(ctx, acc);
            }
            return acc;
        };
        Z3_ast r = rec(0);
        return tabMemo[k] = r;
    }
    Z3_ast b2bv(Z3_ast b) { // bool -> bv1
        Z3_inc_ref(ctx, b);
        Z3_ast one = num(1, 1); Z3_inc_ref(ctx, one); Z3_ast z = num(0, 1); Z3_inc_ref(ctx, z);
        return Z3_mk_ite(ctx, b, one, z);
    }
    // boolean translation for width-1
    Z3_ast boolean(Expr* e) {
        switch (e->op) {
        case Op::Const: return e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
        case Op::Eq: { Z3_ast a = bv(e->k[0]), b = bv(e->k[1]); return Z3_mk_eq(ctx, a, b); }
        case Op::Ult: { Z3_ast a = bv(e->k[0]), b = bv(e->k[1]); return Z3_mk_bvult(ctx, a, b); }
        case Op::Ule: { Z3_ast a = bv(e->k[0]), b = bv(e->k[1]); return Z3_mk_bvule(ctx, a, b); }
        case Op::Slt: { Z3_ast a = bv(e->k[0]), b = bv(e->k[1]); return Z3_mk_bvslt(ctx, a, b); }
        case Op::Sle: { Z3_ast a = bv(e->k[0]), b = bv(e->k[1]); return Z3_mk_bvsle(ctx, a, b); }
        case Op::And: { Z3_ast x[2] = {boolC(e->k[0]), boolC(e->k[1])}; return Z3_mk_and(ctx, 2, x); }
        case Op::Or: { Z3_ast x[2] = {boolC(e->k[0]), boolC(e->k[1])}; return Z3_mk_or(ctx, 2, x); }
        case Op::Xor: if (e->k[1]->isConst() && e->k[1]->c == 1) return Z3_mk_not(ctx, boolC(e->k[0])); return Z3_mk_xor(ctx, boolC(e->k[0]), boolC(e->k[1]));
        case Op::Ite: return Z3_mk_ite(ctx, boolC(e->k[0]), boolC(e->k[1]), boolC(e->k[2]));
        case Op::FOeq: if (tableable(e)) break; return Z3_mk_fpa_eq(ctx, fp(e->k[0]), fp(e->k[1]));
        case Op::FOlt: if (tableable(e)) break; return Z3_mk_fpa_lt(ctx, fp(e->k[0]), fp(e->k[1]));
        case Op::FOle: if (tableable(e)) break; return Z3_mk_fpa_leq(ctx, fp(e->k[0]), fp(e->k[1]));
        case Op::FUno: { if (tableable(e)) break; Z3_ast a = Z3_mk_fpa_is_nan(ctx, fp(e->k[0])); Z3_inc_ref(ctx, a); Z3_ast b = Z3_mk_fpa_is_nan(ctx, fp(e->k[1])); Z3_inc_ref(ctx, b); Z3_ast x[2] = {a, b}; return Z3_mk_or(ctx, 2, x); }
        default: break;
        }
        Z3_ast v = bv(e), one = num(1, 1); Z3_inc_ref(ctx, one);
        return Z3_mk_eq(ctx, v, one);
    }
    std::unordered_map<u32, Z3_ast> locB;
    Z3_ast boolC(Expr* e) {
        static std::vector<Z3_ast> memoB;
        if (!e->fp) {
            if (memoB.size() <= e->id) memoB.resize(e->id * 2 + 16);
            if (memoB[e->id]) return memoB[e->id];
            Z3_ast r = boolean(e); Z3_inc_ref(ctx, r);
            if (memoB.size() <= e->id) memoB.resize(e->id * 2 + 16);
            return memoB[e->id] = r;
        }
        auto it = locB.find(e->id);
        if (it != locB.end()) return it->second;
        Z3_ast r = boolean(e); Z3_inc_ref(ctx, r);
        return locB[e->id] = r;
    }
    Z3_ast bv(Expr* e) {
        if (!e->fp) {
            if (memoBV.size() <= e->id) memoBV.resize(e->id * 2 + 16);
            if (memoBV[e->id]) return memoBV[e->id];
            Z3_ast r = bv_(e); Z3_inc_ref(ctx, r);
            if (memoBV.size() <= e->id) memoBV.resize(e->id * 2 + 16);
            return memoBV[e->id] = r;
        }
        auto it = locBV.find(e->id);
        if (it != locBV.end()) return it->second;
        Z3_ast r = tableable(e) ? table(e) : bv_(e);
        Z3_inc_ref(ctx, r);
        return locBV[e->id] = r;
    }
    Z3_ast bv_(Expr* e) {
        Z3_ast a = nullptr, b = nullptr;
        auto A = [&] { return bv(e->k[0]); };
        auto B = [&] { return bv(e->k[1]); };
        switch (e->op) {
        case Op::Const: return num(e->c, e->w);
        case Op::Var: return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("v" + std::to_string(e->aux)).c_str()), Z3_mk_bv_sort(ctx, e->w));
        case Op::Add: a = A(); b = B(); return Z3_mk_bvadd(ctx, a, b);
        case Op::Sub: a = A(); b = B(); return Z3_mk_bvsub(ctx, a, b);
        case Op::Mul: a = A(); b = B(); return Z3_mk_bvmul(ctx, a, b);
        case Op::UDiv: a = A(); b = B(); return Z3_mk_bvudiv(ctx, a, b);
        case Op::SDiv: a = A(); b = B(); return Z3_mk_bvsdiv(ctx, a, b);
        case Op::URem: a = A(); b = B(); return Z3_mk_bvurem(ctx, a, b);
        case Op::SRem: a = A(); b = B(); return Z3_mk_bvsrem(ctx, a, b);
        case Op::And: a = A(); b = B(); return Z3_mk_bvand(ctx, a, b);
        case Op::Or: a = A(); b = B(); return Z3_mk_bvor(ctx, a, b);
        case Op::Xor: a = A(); b = B(); return Z3_mk_bvxor(ctx, a, b);
        case Op::Shl: a = A(); b = B(); return Z3_mk_bvshl(ctx, a, b);
        case Op::LShr: a = A(); b = B(); return Z3_mk_bvlshr(ctx, a, b);
        case Op::AShr: a = A(); b = B(); return Z3_mk_bvashr(ctx, a, b);
        case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle:
        case Op::FOeq: case Op::FOlt: case Op::FOle: case Op::FUno:
            return b2bv(boolC(e));
        case Op::Ite: { Z3_ast c = boolC(e->k[0]); a = bv(e->k[1]); b = bv(e->k[2]); return Z3_mk_ite(ctx, c, a, b); }
        case Op::Concat: a = A(); b = B(); return Z3_mk_concat(ctx, a, b);
        case Op::Extract: return Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, A());
        case Op::ZExt: return Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, A());
        case Op::SExt: return Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, A());
        case Op::FPToSI: {
            if (e->w > 64) break;
            Z3_ast f = fp(e->k[0]);
            Z3_sort s = e->k[0]->w == 64 ? sD : sF;
            double hi = e->w == 64 ? 9223372036854775808.0 : std::ldexp(1.0, e->w - 1);
            double lo = e->w == 64 ? -9223372036854775808.0 : -std::ldexp(1.0, e->w - 1) - 1;
            Z3_ast H = Z3_mk_fpa_numeral_double(ctx, hi, s); Z3_inc_ref(ctx, H);
            Z3_ast L = Z3_mk_fpa_numeral_double(ctx, lo, s); Z3_inc_ref(ctx, L);
            Z3_ast c1 = Z3_mk_fpa_lt(ctx, f, H); Z3_inc_ref(ctx, c1);
            Z3_ast c2 = e->w == 64 ? Z3_mk_fpa_geq(ctx, f, L) : Z3_mk_fpa_gt(ctx, f, L); Z3_inc_ref(ctx, c2);
            Z3_ast cc[2] = {c1, c2}; Z3_ast c = Z3_mk_and(ctx, 2, cc); Z3_inc_ref(ctx, c);
            Z3_ast v = Z3_mk_fpa_to_sbv(ctx, rtz, f, e->w); Z3_inc_ref(ctx, v);
            Z3_ast bad = num((e->w == 64 || e->w == 32) ? (u128)1 << (e->w - 1) : 0, e->w); Z3_inc_ref(ctx, bad);
            return Z3_mk_ite(ctx, c, v, bad);
        }
        case Op::FPToUI: {
            Z3_ast f = fp(e->k[0]); Z3_sort s = e->k[0]->w == 64 ? sD : sF;
            Z3_ast H = Z3_mk_fpa_numeral_double(ctx, std::ldexp(1.0, std::min(64u, e->w)), s); Z3_inc_ref(ctx, H);
            Z3_ast L = Z3_mk_fpa_numeral_double(ctx, -1.0, s); Z3_inc_ref(ctx, L);
            Z3_ast c1 = Z3_mk_fpa_lt(ctx, f, H); Z3_inc_ref(ctx, c1);
            Z3_ast c2 = Z3_mk_fpa_gt(ctx, f, L); Z3_inc_ref(ctx, c2);
            Z3_ast cc[2] = {c1, c2}; Z3_ast c = Z3_mk_and(ctx, 2, cc); Z3_inc_ref(ctx, c);
            Z3_ast v = Z3_mk_fpa_to_ubv(ctx, rtz, f, e->w); Z3_inc_ref(ctx, v);
            Z3_ast bad = num(((u128)1 << 63) & maskW(e->w), e->w); Z3_inc_ref(ctx, bad);
            return Z3_mk_ite(ctx, c, v, bad);
        }
        case Op::Host:
            fprintf(stderr, "symx: host function over too many variables\n");
            // uninterpreted: fresh constant per expression (sound over-approximation is not guaranteed; flagged)
            gSolver.mismatches++;
            return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("host" + std::to_string(e->id)).c_str()), Z3_mk_bv_sort(ctx, e->w));
        default: break;
        }
        // FP producing
        Z3_ast f = fp(e);
        return Z3_mk_fpa_to_ieee_bv(ctx, f);
    }
    Z3_ast fp(Expr* e) {
        auto it = locFP.find(e->id);
        if (it != locFP.end()) return it->second;
        Z3_ast r = fp_(e); Z3_inc_ref(ctx, r);
        return locFP[e->id] = r;
    }
    Z3_ast fp_(Expr* e) {
        Z3_sort s = e->w == 64 ? sD : sF;
        if (e->fp && tableable(e)) return Z3_mk_fpa_to_fp_bv(ctx, bv(e), s);
        Z3_ast a, b;
        switch (e->op) {
        case Op::Const: { if (e->w == 64) { double d; u64 x = (u64)e->c; memcpy(&d, &x, 8); if (d == d) return Z3_mk_fpa_numeral_double(ctx, d, s); } return Z3_mk_fpa_to_fp_bv(ctx, bv(e), s); }
        case Op::FAdd: a = fp(e->k[0]); b = fp(e->k[1]); return Z3_mk_fpa_add(ctx, rne, a, b);
        case Op::FSub: a = fp(e->k[0]); b = fp(e->k[1]); return Z3_mk_fpa_sub(ctx, rne, a, b);
        case Op::FMul: a = fp(e->k[0]); b = fp(e->k[1]); return Z3_mk_fpa_mul(ctx, rne, a, b);
        case Op::FDiv: a = fp(e->k[0]); b = fp(e->k[1]); return Z3_mk_fpa_div(ctx, rne, a, b);
        case Op::FSqrt: a = fp(e->k[0]); return Z3_mk_fpa_sqrt(ctx, rne, a);
        case Op::FRound: a = fp(e->k[0]); return Z3_mk_fpa_round_to_integral(ctx, e->aux == 0 ? rtn : e->aux == 1 ? rtp : e->aux == 2 ? rtz : e->aux == 3 ? rne : rna, a);
        case Op::FFma: return Z3_mk_fpa_fma(ctx, rne, fp(e->k[0]), fp(e->k[1]), fp(e->k[2]));
        case Op::SIToFP: return Z3_mk_fpa_to_fp_signed(ctx, rne, bv(e->k[0]), s);
        case Op::UIToFP: return Z3_mk_fpa_to_fp_unsigned(ctx, rne, bv(e->k[0]), s);
        case Op::FPCvt: return Z3_mk_fpa_to_fp_float(ctx, rne, fp(e->k[0]), s);
        case Op::Ite: { Z3_ast c = boolC(e->k[0]); a = fp(e->k[1]); b = fp(e->k[2]); return Z3_mk_ite(ctx, c, a, b); }
        case Op::FRem: {
            fprintf(stderr, "symx: symbolic frem unsupported in solver\n"); gSolver.mismatches++;
            return Z3_mk_fpa_to_fp_bv(ctx, Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("frem" + std::to_string(e->id)).c_str()), Z3_mk_bv_sort(ctx, e->w)), s);
        }
        case Op::Xor: // negation
            if (e->k[1]->isConst() && e->k[1]->c == (u128)1 << (e->w - 1)) return Z3_mk_fpa_neg(ctx, fp(e->k[0]));
            break;
        case Op::And:
            if (e->k[1]->isConst() && e->k[1]->c == (maskW(e->w) >> 1)) return Z3_mk_fpa_abs(ctx, fp(e->k[0]));
            break;
        case Op::ZExt: // abs as simplified mask
            if (e->k[0]->op == Op::Extract && e->k[0]->aux == 0 && e->k[0]->w == e->w - 1 && e->k[0]->k[0]->w == e->w && e->fp) return Z3_mk_fpa_abs(ctx, fp(e->k[0]->k[0]));
            break;
        default: break;
        }
        return Z3_mk_fpa_to_fp_bv(ctx, bv(e), s);
    }
};

static Z3_ast domAst(u32 var, const Bits256* d) {
    static std::map<std::pair<u32, const Bits256*>, Z3_ast> memo;
    auto it = memo.find({var, d});
    if (it != memo.end()) return it->second;
    Constraints dummy; Tr tr{&dummy};
    Z3_ast v = tr.bv(gVars[var].e);
    u32 w = gVars[var].w;
    std::vector<Z3_ast> parts;
    int lim = 1 << w;
    for (int i = 0; i < lim;) {
        if (!d->get(i)) { i++; continue; }
        int j = i; while (j + 1 < lim && d->get(j + 1)) j++;
        Z3_ast lo = tr.num(i, w), hi = tr.num(j, w); Z3_inc_ref(ctx, lo); Z3_inc_ref(ctx, hi);
        Z3_ast r;
        if (i == j) r = Z3_mk_eq(ctx, v, lo);
        else { Z3_ast x[2]; x[0] = Z3_mk_bvuge(ctx, v, lo); Z3_inc_ref(ctx, x[0]); x[1] = Z3_mk_bvule(ctx, v, hi); Z3_inc_ref(ctx, x[1]); r = Z3_mk_and(ctx, 2, x); }
        Z3_inc_ref(ctx, r);
        parts.push_back(r);
        i = j + 1;
    }
    Z3_ast r = parts.empty() ? Z3_mk_false(ctx) : parts.size() == 1 ? parts[0] : Z3_mk_or(ctx, parts.size(), parts.data());
    Z3_inc_ref(ctx, r);
    return memo[{var, d}] = r;
}

static std::unordered_map<std::string, const Bits256*> gDoms;
static const Bits256* internDom(const Bits256& b) {
    std::string k((const char*)b.w, 32);
    auto it = gDoms.find(k);
    if (it != gDoms.end()) return it->second;
    return gDoms[k] = new Bits256(b);
}
static const Bits256* fullDom(u32 w) {
    static const Bits256* f[9];
    if (!f[w]) { Bits256 b{{0, 0, 0, 0}}; for (int i = 0; i < (1 << w); i++) b.set(i); f[w] = internDom(b); }
    return f[w];
}
const Bits256* domainOf(const Constraints& C, u32 var) {
    if (var < C.dom.size() && C.dom[var]) return C.dom[var];
    return fullDom(gVars[var].w);
}

// --- unsigned interval abstraction over the byte domains (decides most range checks without Z3)
struct Rg { u128 lo, hi; };
// --- linear forms: sum of coefficient * atom + constant, equal to the expression's value modulo 2^w.
// Atoms are functions of one byte variable (canonical by their values over its domain) or opaque subexpressions.
struct LTerm { i128 k; Rg r; };
struct Lin { std::map<u64, LTerm> t; i128 c = 0; bool big = false; };
struct Abs { std::unordered_map<u32, Rg> rg; std::unordered_map<u32, Lin> lin; };
static Rg rng(const Constraints& C, Expr* e, Abs& memo);
static u64 atomOfTable(u32 var, const std::string& vals) {
    static std::unordered_map<std::string, u64> ids;
    std::string k((const char*)&var, 4); k += vals;
    return ids.emplace(k, (1ull << 40) + ids.size()).first->second;
}
static i128 red(i128 v, u32 w) { return sextW((u128)v, w); }
static void linAdd(Lin& a, const Lin& b, i128 k, u32 w) {
    a.c = red(a.c + (i128)((u128)b.c * (u128)k), w);
    for (auto& [id, t] : b.t) {
        auto it = a.t.find(id);
        i128 n = red((i128)((u128)t.k * (u128)k) + (it == a.t.end() ? 0 : it->second.k), w);
        if (!n) { if (it != a.t.end()) a.t.erase(it); }
        else if (it == a.t.end()) a.t[id] = {n, t.r};
        else it->second.k = n;
    }
}
// integer range of the form; false if too large
static bool linRange(const Lin& a, i128& lo, i128& hi) {
    const i128 L = (i128)1 << 100;
    lo = hi = a.c;
    for (auto& [id, t] : a.t) {
        if (t.r.hi > ((u128)1 << 64)) return false;
        i128 k = t.k; if (k > ((i128)1 << 62) || k < -((i128)1 << 62)) return false;
        i128 x = k * (i128)t.r.lo, y = k * (i128)t.r.hi;
        lo += std::min(x, y); hi += std::max(x, y);
        if (lo < -L || hi > L) return false;
    }
    return true;
}
static Lin linOf(const Constraints& C, Expr* e, Abs& A) {
    u32 w = e->w; Lin r;
    if (e->isConst()) { r.c = red((i128)e->c, w); return r; }
    auto it = A.lin.find(e->id);
    if (it != A.lin.end()) return it->second;
    auto atom = [&] { r = Lin(); r.t[e->id] = {1, rng(C, e, A)}; };
    auto fits = [&](const Lin& l, u32 kw, bool sgn) {
        i128 lo, hi; if (!linRange(l, lo, hi)) return false;
        if (sgn) return lo >= -((i128)1 << (kw - 1)) && hi < ((i128)1 << (kw - 1));
        return lo >= 0 && hi < ((i128)1 << kw);
    };
    u32 var;
    if (w > 64 || e->fp) { atom(); return A.lin[e->id] = r; }
    if (singleByteVar(e, var)) {
        const u64* tb = tableOf(e); const Bits256* d = domainOf(C, var);
        int f = d->first(), n = d->count(); if (f < 0) f = 0;
        if (n <= 1) { r.c = red((i128)tb[f], w); return A.lin[e->id] = r; }
        int s = f + 1; while (s < 256 && !d->get(s)) s++;
        // affine in the variable over its domain?
        i128 k = red((i128)tb[s] - (i128)tb[f], w); bool aff = k % (s - f) == 0; if (aff) k /= s - f;
        i128 c = red((i128)tb[f] - k * f, w);
        int top = f;
        for (int v = f; v < 256 && aff; v++) if (d->get(v)) { top = v; if (red((i128)tb[v] - k * v - c, w)) aff = false; }
        if (aff) { r.c = c; if (k) { std::string id("var"); r.t[atomOfTable(var, id)] = {k, {(u128)f, (u128)top}}; } return A.lin[e->id] = r; }
        std::string vals; u64 lo = ~0ull, hi = 0;
        for (int v = 0; v < 256; v++) if (d->get(v)) { u64 x = tb[v]; vals.append((const char*)&x, 8); lo = std::min(lo, x); hi = std::max(hi, x); }
        r.t[atomOfTable(var, vals)] = {1, {(u128)lo, (u128)hi}};
        return A.lin[e->id] = r;
    }
    switch (e->op) {
    case Op::Add: linAdd(r, linOf(C, e->k[0], A), 1, w); linAdd(r, linOf(C, e->k[1], A), 1, w); break;
    case Op::Sub: linAdd(r, linOf(C, e->k[0], A), 1, w); linAdd(r, linOf(C, e->k[1], A), -1, w); break;
    case Op::Mul:
        if (e->k[1]->isConst()) linAdd(r, linOf(C, e->k[0], A), red((i128)e->k[1]->c, w), w);
        else if (e->k[0]->isConst()) linAdd(r, linOf(C, e->k[1], A), red((i128)e->k[0]->c, w), w);
        else atom();
        break;
    case Op::Shl: if (e->k[1]->isConst() && e->k[1]->c < w) linAdd(r, linOf(C, e->k[0], A), red((i128)((u128)1 << (u32)e->k[1]->c), w), w); else atom(); break;
    case Op::ZExt: { Lin l = linOf(C, e->k[0], A); if (fits(l, e->k[0]->w, false)) linAdd(r, l, 1, w); else atom(); break; }
    case Op::SExt: { Lin l = linOf(C, e->k[0], A); if (fits(l, e->k[0]->w, true)) linAdd(r, l, 1, w); else atom(); break; }
    case Op::Extract: if (e->aux == 0 && e->k[0]->w <= 64) linAdd(r, linOf(C, e->k[0], A), 1, w); else atom(); break;
    case Op::Concat: {
        Lin h = linOf(C, e->k[0], A), l = linOf(C, e->k[1], A); u32 n = e->k[1]->w;
        if (fits(h, e->k[0]->w, false) && fits(l, n, false)) { linAdd(r, h, (i128)1 << n, w); linAdd(r, l, 1, w); } else atom();
        break;
    }
    case Op::Ite: { Rg c = rng(C, e->k[0], A); if (c.lo == c.hi) linAdd(r, linOf(C, e->k[c.lo ? 1 : 2], A), 1, w); else atom(); break; }
    case Op::Or: {   // disjoint bits
        if (w == 1) { atom(); break; }
        bool done = false;
        for (int sw = 0; sw < 2 && !done; sw++) {
            Lin h = linOf(C, e->k[sw], A), l = linOf(C, e->k[1 - sw], A); i128 lo, hi;
            if (!fits(h, w, false) || !fits(l, w, false) || !linRange(l, lo, hi)) continue;
            i128 p = 1; while (p <= hi) p <<= 1;
            bool mul = h.c % p == 0; for (auto& [id, t] : h.t) mul = mul && t.k % p == 0;
            if (mul) { linAdd(r, h, 1, w); linAdd(r, l, 1, w); done = true; }
        }
        if (!done) atom();
        break;
    }
    default: atom();
    }
    if (r.t.size() > 64) atom();
    return A.lin[e->id] = r;
}
// sign of a - b as integers: 1 always less, -1 never less (>=), 2 equal, 3 different, 0 unknown
static int linCmp(const Constraints& C, Expr* a, Expr* b, Abs& A, bool ord, bool sgn) {
    u32 w = a->w;
    if (w > 64 || a->fp || b->fp) return 0;
    Lin x = linOf(C, a, A), y = linOf(C, b, A), d = x; linAdd(d, y, -1, w);
    i128 lo, hi;
    if (!ord) {
        if (d.t.empty()) return d.c == 0 ? 2 : 3;
        if (linRange(d, lo, hi) && (lo > 0 || hi < 0) && lo > -((i128)1 << w) && hi < ((i128)1 << w)) return 3;
        return 0;
    }
    auto in = [&](const Lin& l) { i128 p, q; if (!linRange(l, p, q)) return false; return sgn ? p >= -((i128)1 << (w - 1)) && q < ((i128)1 << (w - 1)) : p >= 0 && q < ((i128)1 << w); };
    if (!in(x) || !in(y)) return 0;
    d = x; linAdd(d, y, -1, 127 < w + 2 ? 127 : w + 2);
    if (!linRange(d, lo, hi)) return 0;
    if (hi < 0) return 1;
    if (lo >= 0) { if (d.t.empty() && d.c == 0) return 2; return lo > 0 ? -2 : -1; }
    if (hi <= 0) return 4;   // a <= b always
    return 0;
}
static Rg rng(const Constraints& C, Expr* e, Abs& A) {
    auto& memo = A.rg;
    u32 w = e->w; u128 M = maskW(w);
    if (e->isConst()) return {e->c, e->c};
    auto it = memo.find(e->id);
    if (it != memo.end()) return it->second;
    Rg full{0, M}, r = full;
    auto K = [&](int i) { return rng(C, e->k[i], A); };
    auto sgnOk = [&](const Rg& a, u32 ww) { u128 s = (u128)1 << (ww - 1); return a.hi < s || a.lo >= s; };
    switch (e->op) {
    case Op::Var: if (w <= 8) { const Bits256* d = domainOf(C, e->aux); int f = d->first(), l = 255; while (l > 0 && !d->get(l)) l--; if (f >= 0) r = {(u128)f, (u128)l}; } break;
    case Op::Add: if (w < 120) { Rg a = K(0), b = K(1); u128 lo = a.lo + b.lo, hi = a.hi + b.hi; if (hi <= M) r = {lo, hi}; else if (lo > M) r = {lo - M - 1, hi - M - 1}; } break;
    case Op::Sub: { Rg a = K(0), b = K(1); if (a.lo >= b.hi) r = {a.lo - b.hi, a.hi - b.lo}; else if (a.hi < b.lo && w < 120) r = {M + 1 + a.lo - b.hi, M + 1 + a.hi - b.lo}; } break;
    case Op::Mul: if (w <= 64) { Rg a = K(0), b = K(1); u128 hi = a.hi * b.hi; if (hi <= M) r = {a.lo * b.lo, hi}; } break;
    case Op::UDiv: { Rg a = K(0), b = K(1); if (b.lo) r = {a.lo / b.hi, a.hi / b.lo}; } break;
    case Op::SDiv: { Rg a = K(0), b = K(1); u128 s = (u128)1 << (w - 1); if (a.hi < s && b.hi < s && b.lo) r = {a.lo / b.hi, a.hi / b.lo}; } break;
    case Op::URem: { Rg a = K(0), b = K(1); if (b.lo) { if (a.hi < b.lo) r = a; else r = {0, b.hi - 1}; } } break;
    case Op::SRem: { Rg a = K(0), b = K(1); u128 s = (u128)1 << (w - 1); if (a.hi < s && b.hi < s && b.lo) { if (a.hi < b.lo) r = a; else r = {0, b.hi - 1}; } } break;
    case Op::And: { Rg a = K(0), b = K(1); if (w == 1) r = {a.lo & b.lo, a.hi & b.hi}; else r = {0, std::min(a.hi, b.hi)}; } break;
    case Op::Or: { Rg a = K(0), b = K(1); u128 m = a.hi | b.hi; u128 h = m; for (u32 i = 1; i < 128; i <<= 1) h |= h >> i; r = {std::max(a.lo, b.lo), w == 1 ? m : h}; } break;
    case Op::Xor: if (w == 1) { Rg a = K(0), b = K(1); if (a.lo == a.hi && b.lo == b.hi) r = {a.lo ^ b.lo, a.lo ^ b.lo}; } break;
    case Op::Shl: if (e->k[1]->isConst() && e->k[1]->c < w && w <= 64) { Rg a = K(0); u32 n = (u32)e->k[1]->c; if ((a.hi << n) <= M) r = {a.lo << n, a.hi << n}; } break;
    case Op::LShr: if (e->k[1]->isConst() && e->k[1]->c < w) { Rg a = K(0); u32 n = (u32)e->k[1]->c; r = {a.lo >> n, a.hi >> n}; } break;
    case Op::ZExt: r = K(0); break;
    case Op::SExt: { Rg a = K(0); u32 kw = e->k[0]->w; u128 s = (u128)1 << (kw - 1); if (a.hi < s) r = a; else if (a.lo >= s) { u128 x = M & ~maskW(kw); r = {a.lo | x, a.hi | x}; } } break;
    case Op::Extract: { Rg a = K(0); if (e->aux == 0 && a.hi <= M) r = a; else if (e->aux) { u128 l = a.lo >> e->aux, h = a.hi >> e->aux; if (h <= M) r = {l, h}; } } break;
    case Op::Concat: { Rg a = K(0), b = K(1); u32 n = e->k[1]->w; r = {(a.lo << n) | b.lo, (a.hi << n) | b.hi}; } break;
    case Op::Ite: { Rg c = K(0); if (c.lo == c.hi) r = c.lo ? K(1) : K(2); else { Rg a = K(1), b = K(2); r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; } } break;
    case Op::Eq: { Rg a = K(0), b = K(1); if (a.hi < b.lo || b.hi < a.lo) r = {0, 0}; else if (a.lo == a.hi && b.lo == b.hi) r = {1, 1}; } break;
    case Op::Ult: { Rg a = K(0), b = K(1); if (a.hi < b.lo) r = {1, 1}; else if (a.lo >= b.hi) r = {0, 0}; } break;
    case Op::Ule: { Rg a = K(0), b = K(1); if (a.hi <= b.lo) r = {1, 1}; else if (a.lo > b.hi) r = {0, 0}; } break;
    case Op::Slt: case Op::Sle: {
        Rg a = K(0), b = K(1); u32 kw = e->k[0]->w;
        if (kw < 128 && sgnOk(a, kw) && sgnOk(b, kw)) {
            i128 al = sextW(a.lo, kw), ah = sextW(a.hi, kw), bl = sextW(b.lo, kw), bh = sextW(b.hi, kw);
            if (e->op == Op::Slt) { if (ah < bl) r = {1, 1}; else if (al >= bh) r = {0, 0}; }
            else { if (ah <= bl) r = {1, 1}; else if (al > bh) r = {0, 0}; }
        }
        break;
    }
    default: break;
    }
    if (w == 1 && r.lo != r.hi && (e->op == Op::Eq || e->op == Op::Ult || e->op == Op::Ule || e->op == Op::Slt || e->op == Op::Sle) && e->k[0]->w > 1) {
        bool ord = e->op != Op::Eq, strict = e->op == Op::Ult || e->op == Op::Slt;
        int x = linCmp(C, e->k[0], e->k[1], A, ord, e->op == Op::Slt || e->op == Op::Sle);
        if (!ord) { if (x == 2) r = {1, 1}; else if (x == 3) r = {0, 0}; }
        else if (x == 1) r = {1, 1};
        else if (x == -2) r = {0, 0};
        else if (x == 2) r = strict ? Rg{0, 0} : Rg{1, 1};
        else if (x == -1 && strict) r = {0, 0};
        else if (x == 4 && !strict) r = {1, 1};
    }
    return memo[e->id] = r;
}
double gDeadline = 0;
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct CacheEnt { SatRes r; std::vector<std::pair<u32, u64>> m; };
static std::unordered_map<std::string, CacheEnt> gCache;

static void slice(const Constraints& C, Expr* cond, std::vector<Expr*>& cs, std::vector<u32>& vars) {
    std::vector<u8> in(gVars.size(), 0);
    for (u32 v : *cond->sup) { in[v] = 1; vars.push_back(v); }
    std::vector<u8> used(C.multi.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < C.multi.size(); i++) if (!used[i]) {
            bool hit = false;
            for (u32 v : *C.multi[i]->sup) if (in[v]) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1; ch = true; cs.push_back(C.multi[i]);
            for (u32 v : *C.multi[i]->sup) if (!in[v]) { in[v] = 1; vars.push_back(v); }
        }
    }
}

static SatRes z3check(const Constraints& C, Expr* cond, const std::vector<Expr*>& cs, std::vector<u32>& vars, std::vector<std::pair<u32, u64>>& out, bool cross) {
    initZ3();
    auto t0 = std::chrono::steady_clock::now();
    if (gDeadline && nowS() > gDeadline) { gSolver.queries++; gSolver.unknown++; return SatRes::Unknown; }
    Tr tr{&C};
    std::vector<Z3_ast> as;
    bool fp = cond->fp;
    for (u32 v : vars) if (v < C.dom.size() && C.dom[v]) as.push_back(domAst(v, C.dom[v]));
    for (Expr* e : cs) { as.push_back(tr.boolC(e)); fp |= e->fp; }
    as.push_back(tr.boolC(cond));
    auto readModel = [&](Z3_solver s) {
        Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
        for (u32 v : vars) {
            Z3_ast r = nullptr;
            Z3_model_eval(ctx, m, tr.bv(gVars[v].e), true, &r);
            Z3_inc_ref(ctx, r);
            uint64_t x = 0; Z3_get_numeral_uint64(ctx, r, &x);
            Z3_dec_ref(ctx, r);
            out.push_back({v, x});
        }
        Z3_model_dec_ref(ctx, m);
    };
    SatRes res = SatRes::Unknown;
    Z3_lbool r = Z3_L_UNDEF;
    if (!fp && !cross) {
        Z3_solver_push(ctx, inc);
        for (auto a : as) Z3_solver_assert(ctx, inc, a);
        r = Z3_solver_check(ctx, inc);
        if (r == Z3_L_TRUE) readModel(inc);
        Z3_solver_pop(ctx, inc, 1);
    }
    if (r == Z3_L_UNDEF) {
        Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, fp ? "QF_FPBV" : "QF_BV"));
        Z3_solver_inc_ref(ctx, s);
        Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), gSolverTimeoutMs);
        Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
        for (auto a : as) Z3_solver_assert(ctx, s, a);
        r = Z3_solver_check(ctx, s);
        if (r == Z3_L_TRUE) readModel(s);
        Z3_solver_dec_ref(ctx, s);
    }
    res = r == Z3_L_TRUE ? SatRes::Sat : r == Z3_L_FALSE ? SatRes::Unsat : SatRes::Unknown;
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    gSolver.queries++; gSolver.time += dt; if (dt > gSolver.maxTime) gSolver.maxTime = dt;
    if (getenv("SYMX_SLOWQ") && dt > atof(getenv("SYMX_SLOWQ"))) fprintf(stderr, "slow query %.2fs %d: %s\n", dt, (int)res, toStr(cond, getenv("SYMX_SLOWD") ? atoi(getenv("SYMX_SLOWD")) : 4).c_str());
    if (res == SatRes::Sat) gSolver.sat++; else if (res == SatRes::Unsat) gSolver.unsat++; else if (cross) gSolver.queries--; else gSolver.unknown++;
    return res;
}

// Model search by evaluation, for queries Z3 finds hard (floating point, wide multiplications): a model found is checked like
// one of Z3's and replayed; finding none says nothing.
static bool guess(const Constraints& C, Expr* cond, const std::vector<Expr*>& cs, const std::vector<u32>& vars, unsigned tries, std::vector<std::pair<u32, u64>>& out) {
    u64 x = 0x9e3779b97f4a7c15ull ^ tries; auto rnd = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; };
    auto bits = [](double d) { u64 v; memcpy(&v, &d, 8); return v; };
    std::vector<u64> m = C.model; if (m.size() < gVars.size()) m.resize(gVars.size());
    for (unsigned i = 0; i < tries; i++) {
        for (u32 v : vars) {
            u64 r = rnd() >> 8, n; u32 w = gVars[v].w;
            switch (r % 10) {
            case 0: n = v < C.model.size() ? C.model[v] : 0; break;
            case 1: case 2: n = bits((double)((i64)(rnd() >> 20) % 100)); break;
            case 3: { double d = (double)(rnd() >> 12) / 4503599627370496.0; n = bits((rnd() & 256 ? 1 : -1) * std::ldexp(1 + d, (int)(rnd() >> 30) % 64 - 32)); break; }
            case 4: n = (rnd() >> 20) % 1000; break;
            case 5: n = 0 - (rnd() >> 20) % 1000; break;
            case 6: n = (1ull << (rnd() >> 20) % 64) + (rnd() >> 20) % 3 - 1; break;
            case 7: { static const u64 sp[] = {0, 0x8000000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 1, 0x7fefffffffffffffull, 0x43e0000000000000ull, 0xc3e0000000000000ull, 0x0010000000000000ull}; n = sp[(rnd() >> 20) % 10]; break; }
            default: n = rnd(); break;
            }
            if (w <= 8) { const Bits256* d = domainOf(C, v); n &= maskW(w); for (int k = 0; k < 256 && !d->get((unsigned)n); k++) n = (n + 1) & (u64)maskW(w); }
            m[v] = w >= 64 ? n : n & (u64)maskW(w);
        }
        bool ok = evalExpr(cond, m); for (size_t k = 0; ok && k < cs.size(); k++) ok = evalExpr(cs[k], m);
        if (ok) { for (u32 v : vars) out.push_back({v, m[v]}); return true; }
    }
    return false;
}
int implied(const Constraints& C, Expr* cond) {
    u32 var;
    if (singleByteVar(cond, var)) {
        const Bits256* d = domainOf(C, var); const Bits256& t = truthOf(cond);
        if ((t & *d).empty()) return 0;
        if ((~t & *d).empty()) return 1;
        return -1;
    }
    if (cond->fp) return -1;
    Abs A; Rg r = rng(C, cond, A);
    return !r.hi ? 0 : r.lo ? 1 : -1;
}
SatRes feasible(const Constraints& C, Expr* cond, std::vector<u64>* out, bool useZ3) {
    if (cond->isConst()) { if (cond->c && out) *out = C.model; return cond->c ? SatRes::Sat : SatRes::Unsat; }
    if (evalExpr(cond, C.model)) { gSolver.modelHits++; if (out) *out = C.model; return SatRes::Sat; }
    if (!C.multi.empty()) { Expr* n = mkNot(cond); for (Expr* e : C.multi) if (e == n) return SatRes::Unsat; }
    u32 var;
    bool cross = false;
    SatRes domRes = SatRes::Unknown;
    if (singleByteVar(cond, var)) {
        Bits256 t = truthOf(cond) & *domainOf(C, var);
        bool multi = var < C.inMulti.size() && C.inMulti[var];
        if (t.empty() || !multi) {
            gSolver.domainDecided++;
            domRes = t.empty() ? SatRes::Unsat : SatRes::Sat;
            cross = useZ3 || (gSolver.domainDecided % 997) == 0;
            if (!cross) {
                if (domRes == SatRes::Sat && out) { *out = C.model; (*out)[var] = t.first(); }
                return domRes;
            }
        }
    }
    if (!cross) {
        Abs memo;
        Rg r = rng(C, cond, memo);
        if (!r.hi) {
            // also put to Z3 (with a short timeout): every 997th, and of the assertions the first few and every 16th
            gSolver.domainDecided++; domRes = SatRes::Unsat;
            static u64 nAssert = 0;
            cross = (gSolver.domainDecided % 997) == 0; if (useZ3) { nAssert++; if (nAssert <= 2 || nAssert % 64 == 0) cross = true; }
            if (!cross) return domRes;
        }
    }
    std::vector<Expr*> cs; std::vector<u32> vars;
    slice(C, cond, cs, vars);
    // cache key
    std::vector<u32> ids; for (Expr* e : cs) ids.push_back(e->id);
    std::sort(ids.begin(), ids.end());
    std::sort(vars.begin(), vars.end());
    std::string key;
    auto put = [&](u64 x) { key.append((char*)&x, 8); };
    put(cond->id); for (u32 i : ids) put(i);
    put(~0ull);
    for (u32 v : vars) { put(v); put((u64)(uintptr_t)(v < C.dom.size() ? C.dom[v] : nullptr)); }
    auto it = gCache.find(key);
    if (it == gCache.end()) {
        CacheEnt ent;
        unsigned to = gSolverTimeoutMs; if (cross && to > 1000) gSolverTimeoutMs = 1000;
        if (cond->fp && useZ3 && !cross && guess(C, cond, cs, vars, 300, ent.m)) { ent.r = SatRes::Sat; gSolver.guessed++; }
        else ent.r = z3check(C, cond, cs, vars, ent.m, cross);
        if (ent.r == SatRes::Unknown && !cross && guess(C, cond, cs, vars, 20000, ent.m)) { ent.r = SatRes::Sat; gSolver.unknown--; gSolver.guessed++; }
        gSolverTimeoutMs = to;
        if (ent.r == SatRes::Sat) {
            // validate the model against our own semantics
            std::vector<u64> m = C.model; if (m.size() < gVars.size()) m.resize(gVars.size());
            for (auto& p : ent.m) m[p.first] = p.second;
            bool ok = evalExpr(cond, m);
            for (Expr* e : cs) ok = ok && evalExpr(e, m);
            for (u32 v : vars) if (v < C.dom.size() && C.dom[v] && !C.dom[v]->get((unsigned)m[v])) ok = false;
            if (!ok) { gSolver.mismatches++; if (getenv("SYMX_DEBUG")) { fprintf(stderr, "model mismatch on %s\n", toStr(cond, 10).c_str()); for (auto& p : ent.m) fprintf(stderr, "  %s=%llx\n", gVars[p.first].name.c_str(), (unsigned long long)p.second); } ent.r = SatRes::Unknown; }
        }
        if (cross && ent.r == SatRes::Unknown && domRes == SatRes::Unsat) return domRes;
        it = gCache.emplace(key, std::move(ent)).first;
    } else gSolver.cacheHits++;
    if (cross && it->second.r != SatRes::Unknown) {
        gSolver.crossChecked++;
        if (it->second.r != domRes) { gSolver.mismatches++; fprintf(stderr, "symx: domain/solver disagreement on %s\n", toStr(cond).c_str()); }
    }
    if (it->second.r == SatRes::Sat && out) { *out = C.model; if (out->size() < gVars.size()) out->resize(gVars.size()); for (auto& p : it->second.m) (*out)[p.first] = p.second; }
    if (cross && it->second.r == SatRes::Unknown && domRes == SatRes::Unsat) return domRes;   // Z3 too slow to confirm
    return it->second.r;
}

void addConstraint(Constraints& C, Expr* cond, const std::vector<u64>& model) {
    C.model = model;
    if (C.model.size() < gVars.size()) C.model.resize(gVars.size());
    std::function<void(Expr*)> add = [&](Expr* c) {
        if (c->isConst()) return;
        u32 var;
        if (singleByteVar(c, var)) {
            if (C.dom.size() <= var) C.dom.resize(gVars.size(), nullptr);
            C.dom[var] = internDom(truthOf(c) & *domainOf(C, var));
            return;
        }
        if (c->op == Op::And && c->w == 1) { add(c->k[0]); add(c->k[1]); return; }
        for (Expr* e : C.multi) if (e == c) return;
        C.multi.push_back(c);
        if (C.inMulti.size() < gVars.size()) C.inMulti.resize(gVars.size(), 0);
        for (u32 v : *c->sup) C.inMulti[v] = 1;
    };
    add(cond);
}

std::string smt2Of(const Constraints& C, Expr* cond) {
    initZ3();
    std::vector<Expr*> cs; std::vector<u32> vars; slice(C, cond, cs, vars);
    Tr tr{&C};
    Z3_solver s = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, s);
    for (u32 v : vars) if (v < C.dom.size() && C.dom[v]) Z3_solver_assert(ctx, s, domAst(v, C.dom[v]));
    for (Expr* e : cs) Z3_solver_assert(ctx, s, tr.boolC(e));
    Z3_solver_assert(ctx, s, tr.boolC(cond));
    std::string r = Z3_solver_to_string(ctx, s);
    Z3_solver_dec_ref(ctx, s);
    return r;
}
