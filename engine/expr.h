// symx: hash-consed bit-vector / floating-point expression DAG.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

enum class Op : u8 {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, Concat, Extract, ZExt, SExt,
    FAdd, FSub, FMul, FDiv, FRem,
    FOeq, FOlt, FOle, FUno,
    SIToFP, UIToFP, FPToSI, FPToUI, FPCvt,
    FSqrt, FRound, FFma,
    Host,     // host function (libm): aux = HostFn
};

enum HostFn : u32 { H_pow, H_exp, H_exp2, H_exp10, H_log, H_log2, H_log10, H_fmod, H_ldexp, H_cos, H_sin, H_tan, H_atan, H_atan2, H_powf, H_lround, H_cbrt, H_hypot, H_COUNT };

struct Bits256 {
    u64 w[4];
    bool operator==(const Bits256& o) const { return !memcmp(w, o.w, 32); }
    bool get(unsigned i) const { return (w[i >> 6] >> (i & 63)) & 1; }
    void set(unsigned i) { w[i >> 6] |= 1ull << (i & 63); }
    bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
    int count() const { return __builtin_popcountll(w[0]) + __builtin_popcountll(w[1]) + __builtin_popcountll(w[2]) + __builtin_popcountll(w[3]); }
    int first() const { for (int i = 0; i < 4; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return -1; }
    Bits256 operator&(const Bits256& o) const { return {{w[0] & o.w[0], w[1] & o.w[1], w[2] & o.w[2], w[3] & o.w[3]}}; }
    Bits256 operator~() const { return {{~w[0], ~w[1], ~w[2], ~w[3]}}; }
};

typedef std::vector<u32> Support;

struct Expr {
    Op op;
    u8 nk;
    bool constLeaves;  // Ite tree whose leaves are all constants
    bool fp;           // contains floating point / host operations
    u32 w;             // width in bits
    u32 aux;           // Extract: low bit; Var: var id; FRound: mode; Host: fn
    u32 id;
    u32 leaves;        // number of leaves (constLeaves)
    u64 hash;
    Expr* k[3];
    u128 c;            // Const value
    const Support* sup;
    Bits256* truth;    // single byte-var support, w==1
    u64* table;        // single byte-var support, w<=64 : 256 values
    bool isConst() const { return op == Op::Const; }
    bool isTrue() const { return op == Op::Const && c != 0; }
    bool isFalse() const { return op == Op::Const && c == 0; }
};

struct VarInfo { std::string name; u32 w; Expr* e; };

inline u128 maskW(u32 w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextW(u128 v, u32 w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); v &= maskW(w); return (i128)((v ^ s) - s); }

extern std::vector<VarInfo> gVars;

Expr* mkConst(u128 v, u32 w);
Expr* mkVar(const std::string& name, u32 w);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkNot(Expr* a);              // w==1
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkExtract(Expr* a, u32 lo, u32 w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZExt(Expr* a, u32 w);
Expr* mkSExt(Expr* a, u32 w);
Expr* mkFBin(Op op, Expr* a, Expr* b);
Expr* mkFCmp(Op op, Expr* a, Expr* b);
Expr* mkCvt(Op op, Expr* a, u32 w);
Expr* mkUn(Op op, Expr* a, u32 aux);
Expr* mkFma(Expr* a, Expr* b, Expr* c);
Expr* mkHost(HostFn f, Expr* a, Expr* b, u32 w);
inline Expr* mkAnd(Expr* a, Expr* b) { return mkBin(Op::And, a, b); }
inline Expr* mkOr(Expr* a, Expr* b) { return mkBin(Op::Or, a, b); }
inline Expr* mkEq(Expr* a, Expr* b) { return mkBin(Op::Eq, a, b); }
inline Expr* mkBool(bool b) { return mkConst(b, 1); }

u128 evalOp(Op op, u32 w, u32 aux, u32 kw, u32 kw1, u128 a, u128 b, u128 c);
// Evaluate under an assignment of all variables.
u128 evalExpr(Expr* e, const std::vector<u64>& model);
bool singleByteVar(Expr* e, u32& var);   // support is exactly one variable of width <= 8
const Bits256& truthOf(Expr* e);         // requires singleByteVar, w==1
const u64* tableOf(Expr* e);             // requires singleByteVar, w<=64
std::string toStr(Expr* e, int depth = 6);
u64 exprCount();
// total fixed operations for fp on host
u128 evalHost(u32 fn, u128 a, u128 b);
extern const char* hostNames[];
