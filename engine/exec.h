#pragma once
#include "expr.h"
#include "solver.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace llvm { class Function; class Module; class Instruction; class BasicBlock; }

struct Val { u64 c; Expr* e; };

struct Opnd { i64 reg; Val c; };   // reg < 0: constant c

struct Copy { u32 dst; Opnd src; };
struct Edge { u32 pc; std::vector<Copy> copies; };

enum class I : u8 {
    Bin, ICmp, FBin, FCmp, FNeg, Trunc, ZExt, SExt, FPTrunc, FPExt, FPToSI, FPToUI, SIToFP, UIToFP, Move,
    Select, Gep, Load, Store, Alloca, Br, CondBr, Switch, Ret, Call, Resume, Unreachable, LandingPad, Nop, AtomicRMW, CmpXchg, Unsupported
};

struct SlotTy { u32 w; u32 off; u32 bytes; };

struct Func;
struct State;
struct Exec;
typedef bool (Exec::*Builtin)(State&, struct Inst&, std::vector<Val>& args);   // returns false if the instruction must be retried / path ended

struct Inst {
    I op;
    u8 sub;             // Op / predicate
    bool seen = false;  // executed (for SYMX_COV)
    bool invoke = false;
    u32 w = 0, w2 = 0;
    i64 dst = -1;
    u32 nslots = 0;     // result slots
    std::vector<Opnd> ops;
    std::vector<SlotTy> slots;
    std::vector<std::pair<u64, u32>> scales;   // gep: scale,width per ops[1..]
    u64 imm = 0;
    Edge e0, e1;
    std::vector<std::pair<u64, u32>> cases;    // value -> edge index
    std::vector<Edge> edges;
    Func* callee = nullptr;
    const struct BuiltinEnt* bi = nullptr;
    std::string name;   // external callee name / unsupported reason
    std::vector<u32> argSlotW;                 // widths of flattened args
    std::vector<u32> argStart;                 // flattened index of each argument
    u32 fixedArgs = 0;                         // number of flattened fixed args
    struct LP { bool cleanup = false; std::vector<std::pair<int, u64>> clauses; };  // 0: catch(tinfo addr) 1: filter (unsupported unless empty)
    std::unique_ptr<LP> lp;
    u32 lpPc = 0;
    llvm::Instruction* ll = nullptr;
};

struct Func {
    std::string name;
    llvm::Function* f = nullptr;
    u32 idx = 0;
    bool decoded = false, isDecl = true, executed = false, vararg = false;
    u32 nregs = 0, nargs = 0;                  // nargs: flattened
    std::vector<u32> argW;
    std::vector<Inst> code;
    u64 addr = 0;
    const struct BuiltinEnt* bi = nullptr;
    u64 instCount = 0;
};

struct Obj {
    u32 rc; u8 kind; bool ro; u64 size;
    u8* data; Expr** sym;
    u32 nsym;
    const char* what;
    bool tls = false; u8 pmode = 0; u64 plo = 0, phi = 0;        // sx_protect: 1 no access, 2 no writes to [plo,phi)
    bool prot(u64 off, u64 n, bool write) const { return pmode && (pmode == 1 || write) && off < phi && off + n > plo; }
};
enum ObjKind : u8 { K_Global, K_Heap, K_HeapArr, K_Malloc, K_Stack, K_Exc };

struct Chunk { u32 rc; Obj* o[64]; };

struct Frame {
    u32 rc;
    Func* f; u32 pc;
    u32 stackBase;              // size of stack object vector at entry
    std::vector<Val> regs;
    std::vector<Val> varargs; std::vector<u32> varargW;
    u64 vaArea = 0;
};

struct ExcRec { u64 ptr, tinfo, dtor; int handlers; bool rethrown; u64 adj; };

struct InputRec { std::string name; bool bytes; u32 w; std::vector<u32> vars; };

struct LockedWrite { u64 addr; u32 len; std::vector<u64> locks; };
struct State {
    std::vector<Frame*> st;
    std::vector<Chunk*> heap; u32 nextId = 0;
    std::vector<std::pair<u32, Obj*>> stk; u32 nextStk = 0x40000000u;
    Constraints C;
    std::vector<ExcRec> exc; std::vector<u64> caught; u64 inflight = 0; int uncaught = 0;
    std::vector<InputRec> inputs;
    std::vector<std::pair<u32, Val>> log;      // observations (width, value)
    std::map<std::string, u32> nameCount;
    u64 steps = 0; u32 forks = 0; u32 depth = 0;
    u64 lpPtr = 0; i64 lpSel = 0;
    u32 frozen = 0; int guards = 0;            // sx_freeze: objects below this id are shared between threads
    u32 thread = 0; std::vector<u64> wrLocks, rdLocks; std::vector<LockedWrite> lw; std::vector<std::pair<u64, u32>> rel;   // locks held; the first thread's writes under locks, its atomic stores
    State() {}
    State(const State& o);
    ~State();
    State& operator=(const State&) = delete;
};

struct Violation {
    std::string kind, msg, where;
    std::vector<std::pair<std::string, std::string>> inputs;   // for humans
    std::string replay;                                        // replay file text
    std::vector<std::string> trace;
};
struct Sample { std::string replay; std::vector<u64> log; };

struct Options {
    std::string bitcode, entry = "sx_main", out;
    std::map<std::string, i64> params;
    int jobs = 8;
    u64 maxSteps = 20000000, maxPaths = 50000000;
    double timeLimit = 600;
    u32 maxConc = 4096;
    int samples = 8;
    u64 seed = 1;
    u32 maxViolations = 3;
    bool verbose = false;
};

struct Results {
    u64 paths = 0, assumed = 0, forks = 0, steps = 0, branches = 0, asserts = 0, assertsTrivial = 0, assertQueries = 0, throws = 0, leaks = 0;
    u64 maxPathSteps = 0, maxInputs = 0;
    std::map<std::string, u64> incomplete;
    std::map<std::string, u64> reach;
    std::set<std::string> functions;
    std::vector<Violation> violations;
    std::vector<Sample> samples;
    u64 sampleSeen = 0;
    bool timedOut = false;
};

struct BuiltinEnt { Builtin fn; bool optional; };

struct Exec {
    Options opt;
    Results res;
    llvm::Module* M = nullptr;
    std::vector<Func*> funcs;
    std::map<const void*, Func*> funcOf;
    std::map<std::string, Func*> funcByName;
    std::map<const void*, u64> globAddr;
    std::map<u64, std::string> globName;
    std::map<std::string, u64> globByName;
    std::vector<State*> work;
    double deadline = 0;
    bool stop = false, atomicNow = false;
    State* init = nullptr;

    bool load();
    void declareGlobals(State& s);
    void decode(Func* f);
    State* initialState();
    void explore();             // drain worklist
    void run(State* s);
    bool step(State& s);        // false: path ended
    void writeResults(const std::string& file);

    // helpers
    std::vector<Val> constVals(const void* c);
    void writeConst(u8* dst, const void* c);
    bool execCall(State& s, Inst& in);
    void pushFrame(State& s, Func* f, const std::vector<Val>& args, u32 nfixed, const std::vector<u32>* widths);
    bool doReturn(State& s, const std::vector<Val>& vals);
    void takeEdge(State& s, Edge& e);
    bool unwind(State& s, u64 exc, bool resume);
    bool matchType(State& s, u64 catchT, u64 thrown, u64 obj, u64& adj);
    void popFrame(State& s);
    State* clone(State& s);
    Val get(State& s, const Opnd& o);
    Expr* ex(const Val& v, u32 w);
    Val val(Expr* e);
    // memory
    bool shared(State& s, u64 addr, Obj* o) { u32 id = addr >> 32; return s.frozen && id < s.frozen && s.wrLocks.empty() && !s.guards && !atomicNow && !o->tls; }
    bool lockRace(State& s, u64 addr, u64 n, bool write);   // the second thread uses what the first wrote under another lock
    void lockedWrite(State& s, u64 addr, u32 n, Obj* o);
    Obj* find(State& s, u64 addr, u64& off);
    Obj* findW(State& s, u64 addr, u64& off);
    u64 alloc(State& s, u64 size, u8 kind, const char* what);
    bool freeObj(State& s, u64 addr, std::string& err);
    std::string check(State& s, u64 addr, u64 n, bool write);
    bool loadC(State& s, u64 addr, u32 bytes, u32 w, Val& out, std::string& err);
    bool storeC(State& s, u64 addr, u32 bytes, u32 w, const Val& v, std::string& err);
    bool loadV(State& s, const Val& addr, u32 bytes, u32 w, Val& out);
    bool conc(State& s, Val& v, u32 w);           // concretize by forking
    int decide(State& s, Expr* c);                // 1/0, -1: path infeasible
    void violate(State& s, const std::string& kind, const std::string& msg, Expr* cond = nullptr);
    void incomplete(State& s, const std::string& why);
    std::string where(State& s);
    std::vector<std::string> backtrace(State& s);
    std::string replayText(State& s, const std::vector<u64>& model);
    std::string cstr(State& s, u64 addr, bool& ok);
    Expr* byteExpr(State& s, Obj* o, u64 off);
    void finish(State& s);
    const BuiltinEnt* builtin(const std::string& n);
    static std::map<std::string, BuiltinEnt>& table();
    Val ret;                                      // builtin return value
    std::vector<Val> retv;
    bool jumped = false;                          // builtin changed control flow itself
    bool defer = false;
    bool pathEnded = false;
};
