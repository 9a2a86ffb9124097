#include "exec.h"
#include <algorithm>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Demangle/Demangle.h>
#include <cxxabi.h>

std::vector<std::pair<unsigned, llvm::Function*>> symxCtors(llvm::Module* M);

double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ objects
static Obj* newObj(u64 size, u8 kind, const char* what) {
    Obj* o = (Obj*)malloc(sizeof(Obj) + size);
    o->rc = 1; o->kind = kind; o->ro = false; o->size = size; o->data = (u8*)(o + 1); o->sym = nullptr; o->nsym = 0; o->what = what; o->pmode = 0; o->plo = o->phi = 0;
    return o;
}
static void unref(Obj* o) { if (o && --o->rc == 0) { free(o->sym); free(o); } }
static Obj* cloneObj(Obj* o) {
    Obj* n = newObj(o->size, o->kind, o->what);
    n->ro = o->ro; n->pmode = o->pmode; n->plo = o->plo; n->phi = o->phi;
    memcpy(n->data, o->data, o->size);
    if (o->sym && o->nsym) { n->sym = (Expr**)malloc(sizeof(Expr*) * o->size); memcpy(n->sym, o->sym, sizeof(Expr*) * o->size); n->nsym = o->nsym; }
    return n;
}
static void unref(Chunk* c) { if (--c->rc == 0) { for (auto o : c->o) unref(o); delete c; } }
static void unref(Frame* f) { if (--f->rc == 0) delete f; }

State::State(const State& o) : st(o.st), heap(o.heap), nextId(o.nextId), stk(o.stk), nextStk(o.nextStk), C(o.C), exc(o.exc), caught(o.caught), inflight(o.inflight), uncaught(o.uncaught), inputs(o.inputs), log(o.log), nameCount(o.nameCount), steps(o.steps), forks(o.forks), depth(o.depth), lpPtr(o.lpPtr), lpSel(o.lpSel), frozen(o.frozen), guards(o.guards), thread(o.thread), wrLocks(o.wrLocks), rdLocks(o.rdLocks), lw(o.lw), rel(o.rel) {
    for (auto f : st) f->rc++;
    for (auto c : heap) c->rc++;
    for (auto& p : stk) p.second->rc++;
}
State::~State() {
    for (auto f : st) unref(f);
    for (auto c : heap) unref(c);
    for (auto& p : stk) unref(p.second);
}

static inline u64 mkAddr(u32 id, u64 off) { return ((u64)id << 32) + 0x1000 + off; }

Obj* Exec::find(State& s, u64 addr, u64& off) {
    u32 id = addr >> 32;
    off = (addr & 0xffffffffu) - 0x1000;
    if (id >= 0x40000000u) {
        auto it = std::lower_bound(s.stk.begin(), s.stk.end(), id, [](const std::pair<u32, Obj*>& p, u32 v) { return p.first < v; });
        if (it != s.stk.end() && it->first == id) return it->second;
        return nullptr;
    }
    if (id < 2 || id >= s.nextId) return nullptr;
    return s.heap[id >> 6]->o[id & 63];
}
Obj* Exec::findW(State& s, u64 addr, u64& off) {
    u32 id = addr >> 32;
    off = (addr & 0xffffffffu) - 0x1000;
    if (id >= 0x40000000u) {
        auto it = std::lower_bound(s.stk.begin(), s.stk.end(), id, [](const std::pair<u32, Obj*>& p, u32 v) { return p.first < v; });
        if (it == s.stk.end() || it->first != id) return nullptr;
        if (it->second->rc > 1) { Obj* n = cloneObj(it->second); it->second->rc--; it->second = n; }
        return it->second;
    }
    if (id < 2 || id >= s.nextId) return nullptr;
    Chunk*& c = s.heap[id >> 6];
    if (!c->o[id & 63]) return nullptr;
    if (c->rc > 1) { Chunk* n = new Chunk(*c); n->rc = 1; for (auto o : n->o) if (o) o->rc++; c->rc--; c = n; }
    Obj*& o = c->o[id & 63];
    if (o->rc > 1) { Obj* n = cloneObj(o); o->rc--; o = n; }
    return o;
}
u64 Exec::alloc(State& s, u64 size, u8 kind, const char* what) {
    Obj* o = newObj(size, kind, what);
    memset(o->data, 0xBE, size);
    if (kind == K_Stack) {
        u32 id = s.nextStk++;
        s.stk.push_back({id, o});
        return mkAddr(id, 0);
    }
    if (s.nextId == 0) s.nextId = 2;
    u32 id = s.nextId++;
    while (s.heap.size() <= (id >> 6)) { Chunk* c = new Chunk; memset(c, 0, sizeof *c); c->rc = 1; s.heap.push_back(c); }
    Chunk*& c = s.heap[id >> 6];
    if (c->rc > 1) { Chunk* n = new Chunk(*c); n->rc = 1; for (auto x : n->o) if (x) x->rc++; c->rc--; c = n; }
    c->o[id & 63] = o;
    return mkAddr(id, 0);
}
bool Exec::freeObj(State& s, u64 addr, std::string& err) {
    u64 off; Obj* o = find(s, addr, off);
    u32 id = addr >> 32;
    if (!o) { err = (id >= 2 && id < s.nextId) ? "double free or use after free" : "free of invalid pointer"; return false; }
    if (off != 0 || id >= 0x40000000u || o->kind == K_Global) { err = "free of a pointer that was not allocated"; return false; }
    if (shared(s, addr, o)) { err = "data race: shared state is freed without a lock"; return false; }
    Chunk*& c = s.heap[id >> 6];
    if (c->rc > 1) { Chunk* n = new Chunk(*c); n->rc = 1; for (auto x : n->o) if (x) x->rc++; c->rc--; c = n; }
    unref(c->o[id & 63]); c->o[id & 63] = nullptr;
    return true;
}
void Exec::lockedWrite(State& s, u64 addr, u32 n, Obj* o) {
    u32 id = addr >> 32; if (id >= s.frozen || o->tls || s.guards || s.thread != 1) return;
    if (atomicNow) s.rel.push_back({addr, (u32)s.lw.size()});
    else if (!s.wrLocks.empty()) s.lw.push_back({addr, n, s.wrLocks});
}
bool Exec::lockRace(State& s, u64 addr, u64 n, bool write) {
    if (s.guards) return false;
    if (atomicNow) { for (auto it = s.rel.rbegin(); it != s.rel.rend(); ++it) if (it->first == addr) { for (u32 i = 0; i < it->second && i < s.lw.size(); i++) s.lw[i].len = 0; break; } return false; }
    for (auto& w : s.lw) if (addr < w.addr + w.len && w.addr < addr + n) {
        bool common = false; for (u64 l : w.locks) { for (u64 x : s.wrLocks) common |= x == l; if (!write) for (u64 x : s.rdLocks) common |= x == l; }
        if (!common) return true;
    }
    return false;
}
std::string Exec::check(State& s, u64 addr, u64 n, bool write) {
    u64 off; Obj* o = find(s, addr, off);
    if (!o) {
        u32 id = addr >> 32;
        if (addr < 4096) return "null pointer dereference";
        if (id >= 0x40000000u) return "use of a dead stack object";
        if (id >= 2 && id < s.nextId) return "heap use after free";
        return "access through invalid pointer";
    }
    if (off > o->size || n > o->size - off) {
        const char* k = o->kind == K_Stack ? "stack" : o->kind == K_Global ? "global" : "heap";
        return std::string(k) + " buffer overflow (offset " + std::to_string((i64)(int32_t)(u32)off) + ", size " + std::to_string(n) + ", object of " + std::to_string(o->size) + " bytes)";
    }
    if (write && o->ro) return "write to read-only object";
    if (n && write && shared(s, addr, o)) return "data race: write to shared state without a lock";
    if (n && s.thread == 2 && s.frozen && lockRace(s, addr, n, write)) return write ? "data race: write to what another thread writes under another lock" : "data race: read of what another thread writes under a lock that is not held";
    if (n && o->prot(off, n, write)) return write ? "write to shared state without holding its lock exclusively" : "read of shared state without holding its lock";
    return "";
}
Expr* Exec::ex(const Val& v, u32 w) { return v.e ? v.e : mkConst(v.c, w); }
Val Exec::val(Expr* e) { if (e->isConst() && e->w <= 64) return {(u64)e->c, nullptr}; return {0, e}; }
Val Exec::get(State& s, const Opnd& o) { return o.reg < 0 ? o.c : s.st.back()->regs[o.reg]; }

Expr* Exec::byteExpr(State& s, Obj* o, u64 off) {
    if (o->nsym && o->sym[off]) {
        Expr* e = o->sym[off];
        if (e->op == Op::Var && e->aux < s.C.dom.size() && s.C.dom[e->aux] && s.C.dom[e->aux]->count() == 1) return mkConst(s.C.dom[e->aux]->first(), 8);
        return e;
    }
    return mkConst(o->data[off], 8);
}
bool Exec::loadC(State& s, u64 addr, u32 bytes, u32 w, Val& out, std::string& err) {
    u64 off; Obj* o = find(s, addr, off);
    if (!o || off > o->size || bytes > o->size - off || o->prot(off, bytes, false) || (s.thread == 2 && s.frozen && lockRace(s, addr, bytes, false))) { err = check(s, addr, bytes, false); return false; }
    if (o->nsym) {
        bool any = false;
        for (u32 i = 0; i < bytes; i++) if (o->sym[off + i]) { any = true; break; }
        if (any) {
            Expr* acc = byteExpr(s, o, off);
            for (u32 i = 1; i < bytes; i++) acc = mkConcat(byteExpr(s, o, off + i), acc);
            if (acc->w > w) acc = mkExtract(acc, 0, w);
            out = val(acc);
            return true;
        }
    }
    if (bytes <= 8) {
        u64 v = 0; memcpy(&v, o->data + off, bytes);
        if (w < 64) v &= (1ull << w) - 1;
        out = {v, nullptr};
    } else {
        u128 v = 0; memcpy(&v, o->data + off, bytes);
        out = {0, mkConst(v, w)};
    }
    return true;
}
bool Exec::storeC(State& s, u64 addr, u32 bytes, u32 w, const Val& v, std::string& err) {
    u64 off; Obj* o = findW(s, addr, off);
    if (!o || off > o->size || bytes > o->size - off || o->prot(off, bytes, true) || shared(s, addr, o) || (s.thread == 2 && s.frozen && lockRace(s, addr, bytes, true))) { err = check(s, addr, bytes, true); return false; }
    if (s.frozen) lockedWrite(s, addr, bytes, o);
    if (o->ro) { err = "write to read-only object"; return false; }
    if (!v.e || v.e->isConst()) {
        if (v.e) { u128 x = v.e->c; memcpy(o->data + off, &x, bytes); }
        else memcpy(o->data + off, &v.c, bytes);
        if (o->nsym) for (u32 i = 0; i < bytes; i++) if (o->sym[off + i]) { o->sym[off + i] = nullptr; o->nsym--; }
        return true;
    }
    Expr* e = v.e;
    if (e->w < bytes * 8) e = mkZExt(e, bytes * 8);
    if (!o->sym) { o->sym = (Expr**)calloc(o->size, sizeof(Expr*)); o->nsym = 0; }
    for (u32 i = 0; i < bytes; i++) {
        Expr* b = mkExtract(e, 8 * i, 8);
        if (o->sym[off + i]) o->nsym--;
        if (b->isConst()) { o->data[off + i] = (u8)b->c; o->sym[off + i] = nullptr; }
        else { o->sym[off + i] = b; o->nsym++; }
    }
    return true;
}

// ------------------------------------------------------------------ path bookkeeping
static std::string hex(const std::string& s) { std::string r; char b[3]; for (unsigned char c : s) { snprintf(b, 3, "%02x", c); r += b; } return r; }

std::string Exec::replayText(State& s, const std::vector<u64>& model) {
    std::string r;
    for (auto& p : opt.params) r += "p " + p.first + " " + std::to_string(p.second) + "\n";
    for (auto& in : s.inputs) {
        if (in.bytes) {
            std::string b; for (u32 v : in.vars) b.push_back(v < model.size() ? (char)model[v] : 0);
            r += "b " + in.name + " " + std::to_string(b.size()) + " " + (b.empty() ? "-" : hex(b)) + "\n";
        } else {
            char buf[40]; snprintf(buf, 40, "%llx", (unsigned long long)(in.vars[0] < model.size() ? model[in.vars[0]] : 0));
            r += "v " + in.name + " " + std::to_string(in.w) + " " + buf + "\n";
        }
    }
    return r;
}
static std::string demangle(const std::string& n) { return llvm::demangle(n); }
std::string Exec::where(State& s) {
    if (s.st.empty()) return "?";
    return demangle(s.st.back()->f->name);
}
std::vector<std::string> Exec::backtrace(State& s) {
    std::vector<std::string> r;
    for (auto it = s.st.rbegin(); it != s.st.rend() && r.size() < 12; ++it) r.push_back(demangle((*it)->f->name));
    return r;
}
void Exec::violate(State& s, const std::string& kind, const std::string& msg, Expr* cond) {
    Violation v; v.kind = kind; v.msg = msg; v.where = where(s); v.trace = backtrace(s);
    std::vector<u64> m = s.C.model;
    if (cond) { if (feasible(s.C, cond, &m, true) != SatRes::Sat) { incomplete(s, "violation condition undecided: " + msg); return; } }
    v.replay = replayText(s, m);
    for (auto& in : s.inputs) {
        std::string t;
        if (in.bytes) { for (u32 x : in.vars) { unsigned c = x < m.size() ? m[x] : 0; if (c >= 32 && c < 127 && c != '\\' && c != '"') t.push_back(c); else { char b[8]; snprintf(b, 8, "\\x%02x", c); t += b; } } t = "\"" + t + "\""; }
        else { char b[64]; snprintf(b, 64, "0x%llx", (unsigned long long)m[in.vars[0]]); t = b; }
        v.inputs.push_back({in.name, t});
    }
    // one per (kind,msg)
    u32 same = 0; for (auto& o : res.violations) if (o.kind == v.kind && o.msg == v.msg) same++;
    if (same < 2) res.violations.push_back(v);
    if (opt.verbose) { fprintf(stderr, "VIOL %s: %s in %s\n%s", kind.c_str(), msg.c_str(), v.where.c_str(), v.replay.c_str()); for (auto& t : v.trace) fprintf(stderr, "    %s\n", t.c_str()); }
    if (res.violations.size() >= opt.maxViolations) stop = true;
    pathEnded = true;
}
void Exec::incomplete(State& s, const std::string& why) {
    std::string key = why + " [in " + where(s) + "]";
    res.incomplete[key]++;
    if (opt.verbose && res.incomplete[key] == 1) { fprintf(stderr, "INCOMPLETE %s\n", key.c_str()); for (auto& t : backtrace(s)) fprintf(stderr, "    %s\n", t.c_str()); }
    pathEnded = true;
}
static u64 rng(u64& x) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
void Exec::finish(State& s) {
    res.paths++;
    if (s.steps > res.maxPathSteps) res.maxPathSteps = s.steps;
    // reservoir sampling of complete paths for replay against the native build
    static u64 rs = 0x9E3779B97F4A7C15ull * (opt.seed + 77);
    res.sampleSeen++;
    int slot = -1;
    if ((int)res.samples.size() < opt.samples) { slot = res.samples.size(); res.samples.emplace_back(); }
    else if (opt.samples > 0) { u64 j = rng(rs) % res.sampleSeen; if (j < (u64)opt.samples) slot = j; }
    if (slot >= 0) {
        res.samples[slot].replay = replayText(s, s.C.model);
        res.samples[slot].log.clear();
        for (auto& l : s.log) res.samples[slot].log.push_back(l.second.e ? (u64)evalExpr(l.second.e, s.C.model) : l.second.c);
    }
    pathEnded = true;
}

State* Exec::clone(State& s) {
    res.forks++;
    s.forks++;
    State* n = new State(s);
    // own top frame for the clone
    Frame* t = n->st.back();
    Frame* c = new Frame(*t); c->rc = 1; t->rc--;
    n->st.back() = c;
    work.push_back(n);
    return n;
}
static void ensureTop(State& s) {
    if (s.st.empty()) return;
    Frame*& t = s.st.back();
    if (t->rc > 1) { Frame* c = new Frame(*t); c->rc = 1; t->rc--; t = c; }
}

// choose a side for cond in the current state; the other side (if feasible) is queued and re-executes the instruction
int Exec::decide(State& s, Expr* c) {
    if (c->isConst()) return c->c ? 1 : 0;
    res.branches++;
    bool cur = evalExpr(c, s.C.model) != 0;
    Expr* other = cur ? mkNot(c) : c;
    std::vector<u64> m;
    SatRes r = feasible(s.C, other, &m);
    if (r == SatRes::Unknown) { incomplete(s, "solver undecided"); return -1; }
    if (r == SatRes::Sat) {
        State* n = clone(s);
        addConstraint(n->C, other, m);
        addConstraint(s.C, cur ? c : mkNot(c), s.C.model);
    }
    return cur;
}
bool Exec::conc(State& s, Val& v, u32 w) {
    if (!v.e) return true;
    if (v.e->isConst() && w <= 64) { v = {(u64)v.e->c, nullptr}; return true; }
    u128 x = evalExpr(v.e, s.C.model);
    if (v.e->op == Op::Const) return true;
    Expr* eq = mkEq(v.e, mkConst(x, v.e->w));
    Expr* ne = mkNot(eq);
    std::vector<u64> m;
    SatRes r = feasible(s.C, ne, &m);
    if (r == SatRes::Unknown) { incomplete(s, "solver undecided (concretization)"); return false; }
    if (r == SatRes::Sat) {
        if (s.forks > opt.maxConc) { incomplete(s, "too many forks on one path"); return false; }
        State* n = clone(s);
        addConstraint(n->C, ne, m);
        addConstraint(s.C, eq, s.C.model);
    }
    if (w > 64) v = {0, mkConst(x, w)}; else v = {(u64)x, nullptr};
    return true;
}

// load through a possibly symbolic address. returns false if the path ended / instruction must stop
bool Exec::loadV(State& s, const Val& addr, u32 bytes, u32 w, Val& out) {
    std::string err;
    if (!addr.e) {
        if (!loadC(s, addr.c, bytes, w, out, err)) { violate(s, "memory", err); return false; }
        return true;
    }
    Expr* e = addr.e;
    // 1. tree of constant addresses
    if (e->constLeaves && e->leaves <= 700) {
        std::map<u64, Expr*> guards; std::vector<u64> order;
        std::function<void(Expr*, Expr*)> rec = [&](Expr* x, Expr* g) {
            if (g->isFalse()) return;
            if (x->isConst()) { auto it = guards.find((u64)x->c); if (it == guards.end()) { guards[(u64)x->c] = g; order.push_back((u64)x->c); } else it->second = mkOr(it->second, g); return; }
            rec(x->k[1], mkAnd(g, x->k[0])); rec(x->k[2], mkAnd(g, mkNot(x->k[0])));
        };
        rec(e, mkBool(true));
        Expr* acc = nullptr;
        for (u64 a : order) {
            Val v; err.clear();
            if (!check(s, a, bytes, false).empty()) {
                SatRes r = feasible(s.C, guards[a], nullptr);
                if (r == SatRes::Sat) { violate(s, "memory", check(s, a, bytes, false), guards[a]); return false; }
                if (r == SatRes::Unknown) { incomplete(s, "solver undecided"); return false; }
                continue;
            }
            loadC(s, a, bytes, w, v, err);
            Expr* x = ex(v, w);
            acc = acc ? mkIte(guards[a], x, acc) : x;
        }
        if (!acc) { incomplete(s, "no feasible address"); return false; }
        out = val(acc);
        return true;
    }
    // 2. single byte variable: enumerate its domain symbolically
    u32 var;
    if (singleByteVar(e, var)) {
        const u64* t = tableOf(e);
        const Bits256* d = domainOf(s.C, var);
        std::map<u64, Bits256> byAddr;
        for (int i = 0; i < 256; i++) if (d->get(i)) { auto it = byAddr.emplace(t[i], Bits256{{0, 0, 0, 0}}).first; it->second.set(i); }
        Expr* acc = nullptr;
        for (auto& p : byAddr) {
            Expr* g = mkEq(e, mkConst(p.first, 64));
            if (!check(s, p.first, bytes, false).empty()) {
                SatRes r = feasible(s.C, g, nullptr);
                if (r == SatRes::Sat) { violate(s, "memory", check(s, p.first, bytes, false), g); return false; }
                continue;
            }
            Val v; loadC(s, p.first, bytes, w, v, err);
            Expr* x = ex(v, w);
            acc = acc ? mkIte(g, x, acc) : x;
        }
        if (!acc) { incomplete(s, "no feasible address"); return false; }
        out = val(acc);
        return true;
    }
    // 3. base + offset inside one object
    u64 cur = (u64)evalExpr(e, s.C.model);
    u64 off; Obj* o = find(s, cur, off);
    if (o && o->size >= bytes && o->size <= 8192) {
        u64 base = mkAddr(cur >> 32, 0);
        Expr* rel = mkBin(Op::Sub, e, mkConst(base, 64));
        Expr* in = mkBin(Op::Ule, rel, mkConst(o->size - bytes, 64));
        Expr* outside = mkNot(in);
        SatRes r = feasible(s.C, outside, nullptr);
        if (r == SatRes::Unknown) { incomplete(s, "solver undecided"); return false; }
        if (r == SatRes::Unsat) {
            // alignment of the offset
            u64 step = 1;
            { Expr* x = rel; if (x->op == Op::Add && x->k[1]->isConst()) x = x->k[0]; while (x->op == Op::ZExt || x->op == Op::SExt) x = x->k[0]; if (x->op == Op::Concat) { Expr* lo = x; while (lo->op == Op::Concat) lo = lo->k[1]; if (lo->isConst() && lo->c == 0) step = 1ull << std::min<u32>(lo->w, 6); } if (rel->op == Op::Add && rel->k[1]->isConst() && ((u64)rel->k[1]->c % step)) step = 1; }
            u64 cnt = (o->size - bytes) / step + 1;
            if (cnt <= 520) {
                Expr* acc = nullptr;
                for (u64 k = 0; k < cnt; k++) {
                    Val v; loadC(s, base + k * step, bytes, w, v, err);
                    Expr* x = ex(v, w);
                    acc = acc ? mkIte(mkEq(rel, mkConst(k * step, 64)), x, acc) : x;
                }
                out = val(acc);
                return true;
            }
        }
    }
    Val a = addr;
    if (!conc(s, a, 64)) return false;
    if (!loadC(s, a.c, bytes, w, out, err)) { violate(s, "memory", err); return false; }
    return true;
}

std::string Exec::cstr(State& s, u64 addr, bool& ok) {
    std::string r; ok = true;
    for (;;) {
        Val v; std::string err;
        if (!loadC(s, addr, 1, 8, v, err)) { ok = false; violate(s, "memory", err); return r; }
        if (v.e) { if (!conc(s, v, 8)) { ok = false; return r; } }
        if (!v.c) return r;
        r.push_back((char)v.c); addr++;
    }
}

// ------------------------------------------------------------------ control
void Exec::popFrame(State& s) {
    Frame* f = s.st.back();
    while (s.stk.size() > f->stackBase) { unref(s.stk.back().second); s.stk.pop_back(); }
    s.st.pop_back();
    unref(f);
    ensureTop(s);
}
void Exec::takeEdge(State& s, Edge& e) {
    Frame* f = s.st.back();
    if (!e.copies.empty()) {
        Val tmp[64]; std::vector<Val> big; Val* t = tmp;
        size_t n = e.copies.size();
        if (n > 64) { big.resize(n); t = big.data(); }
        for (size_t i = 0; i < n; i++) t[i] = e.copies[i].src.reg < 0 ? e.copies[i].src.c : f->regs[e.copies[i].src.reg];
        for (size_t i = 0; i < n; i++) f->regs[e.copies[i].dst] = t[i];
    }
    f->pc = e.pc;
}
void Exec::pushFrame(State& s, Func* f, const std::vector<Val>& args, u32 nfixed, const std::vector<u32>* widths) {
    if (!f->decoded) decode(f);
    f->executed = true;
    Frame* n = new Frame;
    n->rc = 1; n->f = f; n->pc = 0; n->stackBase = s.stk.size();
    n->regs.assign(f->nregs, Val{0, nullptr});
    for (u32 i = 0; i < f->nargs && i < args.size(); i++) n->regs[i] = args[i];
    if (f->vararg) for (u32 i = nfixed; i < args.size(); i++) { n->varargs.push_back(args[i]); n->varargW.push_back(widths ? (*widths)[i] : 64); }
    s.st.push_back(n);
}
bool Exec::doReturn(State& s, const std::vector<Val>& vals) {
    popFrame(s);
    if (s.st.empty()) return false;
    Frame* f = s.st.back();
    Inst& in = f->f->code[f->pc];
    if (in.op == I::Call) {
        if (in.dst >= 0) for (u32 i = 0; i < in.nslots && i < vals.size(); i++) f->regs[in.dst + i] = vals[i];
        if (in.invoke) takeEdge(s, in.e0); else f->pc++;
    } else f->pc++;
    return true;
}

bool Exec::matchType(State& s, u64 catchT, u64 thrown, u64 obj, u64& adj) {
    if (catchT == thrown) { adj = obj; return true; }
    std::string err; Val v;
    auto rd = [&](u64 a, u32 n) -> u64 { Val x; if (!loadC(s, a, n, n * 8, x, err) || x.e) return 0; return x.c; };
    // same mangled name?
    u64 n1 = rd(catchT + 8, 8), n2 = rd(thrown + 8, 8);
    if (n1 && n1 == n2) { adj = obj; return true; }
    u64 vt = rd(thrown, 8);
    std::string kind;
    for (const char* k : {"_ZTVN10__cxxabiv120__si_class_type_infoE", "_ZTVN10__cxxabiv121__vmi_class_type_infoE", "_ZTVN10__cxxabiv117__class_type_infoE"}) {
        auto it = globByName.find(k);
        if (it != globByName.end() && (vt >> 32) == (it->second >> 32)) kind = k;
    }
    if (kind.find("__si_class") != std::string::npos) return matchType(s, catchT, rd(thrown + 16, 8), obj, adj);
    if (kind.find("__vmi_class") != std::string::npos) {
        u32 n = rd(thrown + 20, 4);
        for (u32 i = 0; i < n && i < 32; i++) {
            u64 b = rd(thrown + 24 + 16 * i, 8); i64 fl = (i64)rd(thrown + 32 + 16 * i, 8);
            i64 off = fl >> 8;
            u64 o2 = obj;
            if (obj) { if (fl & 1) { u64 vp = rd(obj, 8); off = (i64)rd(vp + off, 8); } o2 = obj + off; }
            if (matchType(s, catchT, b, o2, adj)) return true;
        }
    }
    return false;
}

bool Exec::unwind(State& s, u64 exc, bool resume) {
    ExcRec* rec = nullptr;
    for (auto& r : s.exc) if (r.ptr == exc) rec = &r;
    if (!rec) { incomplete(s, "unwind of unknown exception"); return false; }
    auto lpMatch = [&](Inst& lp, i64& sel, u64& adj) -> int { // 2 catch, 1 cleanup, 0 none
        for (auto& c : lp.lp->clauses) {
            if (c.first == 0) {
                if (c.second == 0) { sel = 1; adj = exc; return 2; }
                if (matchType(s, c.second, rec->tinfo, exc, adj)) { sel = (i64)(c.second >> 32); return 2; }
            } else { sel = -1; adj = exc; return 2; }
        }
        sel = 0;
        return lp.lp->cleanup ? 1 : 0;
    };
    if (!resume) {
        bool handled = false;
        for (size_t i = s.st.size(); i-- > 0;) {
            Frame* f = s.st[i]; Inst& in = f->f->code[f->pc];
            if (in.op != I::Call || !in.invoke) continue;
            i64 sel; u64 adj;
            if (lpMatch(f->f->code[in.lpPc], sel, adj) == 2) { handled = true; break; }
        }
        if (!handled) {
            std::string tn = globName.count(rec->tinfo) ? demangle(globName[rec->tinfo]) : "?";
            violate(s, "uncaught", "uncaught exception of type " + tn);
            return false;
        }
    } else { popFrame(s); }
    while (!s.st.empty()) {
        Frame* f = s.st.back(); Inst& in = f->f->code[f->pc];
        if (in.op == I::Call && in.invoke) {
            i64 sel; u64 adj = exc;
            int m = lpMatch(f->f->code[in.lpPc], sel, adj);
            if (m) {
                s.lpPtr = exc; s.lpSel = sel; rec->adj = adj;
                ensureTop(s);
                takeEdge(s, in.e1);
                return true;
            }
        }
        popFrame(s);
    }
    violate(s, "uncaught", "uncaught exception during unwinding");
    return false;
}

bool Exec::execCall(State& s, Inst& in) {
    Frame* f = s.st.back();
    Func* callee = in.callee;
    const BuiltinEnt* bi = in.bi;
    size_t na = in.argSlotW.size();
    std::vector<Val> args(na);
    for (size_t i = 0; i < na; i++) args[i] = in.ops[i].reg < 0 ? in.ops[i].c : f->regs[in.ops[i].reg];
    if (in.imm == 1 && !callee && !bi) {
        Val t = get(s, in.ops.back());
        if (t.e && !conc(s, t, 64)) return false;
        u64 i = ((t.c & 0xffffffffu) - 0x1000) / 16;
        if ((t.c >> 32) != 1 || i >= funcs.size()) { violate(s, "memory", t.c < 4096 ? "call through null function pointer" : "call through invalid function pointer"); return false; }
        callee = funcs[i];
    }
    if (callee && callee->bi) bi = callee->bi;
    if (bi) {
        ret = {0, nullptr}; retv.clear(); jumped = false; defer = false;
        bool ok = (this->*(bi->fn))(s, in, args);
        if (pathEnded || !ok) return false;
        if (!defer) {
            if (jumped) return true;
            f = s.st.back();
            if (in.dst >= 0) {
                if (!retv.empty()) for (u32 i = 0; i < in.nslots && i < retv.size(); i++) f->regs[in.dst + i] = retv[i];
                else f->regs[in.dst] = ret;
            }
            if (in.invoke) takeEdge(s, in.e0); else f->pc++;
            return true;
        }
    }
    if (!callee || callee->isDecl) {
        incomplete(s, "call to external function " + (callee ? callee->name : in.name));
        return false;
    }
    // byval copies
    if (!in.scales.empty()) {
        for (auto& p : in.scales) {
            u64 src = args[in.argStart[p.first]].c;
            u64 dst = alloc(s, p.second, K_Stack, nullptr);
            for (u32 i = 0; i < p.second; i++) { Val b; std::string err; if (!loadC(s, src + i, 1, 8, b, err)) { violate(s, "memory", err); return false; } storeC(s, dst + i, 1, 8, b, err); }
            args[in.argStart[p.first]] = {dst, nullptr};
        }
    }
    if (s.st.size() > 3000) { violate(s, "stack", "stack overflow (call depth > 3000)"); return false; }
    pushFrame(s, callee, args, in.fixedArgs, &in.argSlotW);
    return true;
}

static inline u64 msk(u64 v, u32 w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static inline i64 sx(u64 v, u32 w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v = msk(v, w); return (i64)((v ^ m) - m); }

static long double ld80(const Val& v) { long double x = 0; u128 c = v.e ? v.e->c : v.c; memcpy(&x, &c, 10); return x; }
static Val v80(long double x) { u128 c = 0; memcpy(&c, &x, 10); return {0, mkConst(c, 80)}; }

bool Exec::step(State& s) {
    Frame* f = s.st.back();
    Inst& in = f->f->code[f->pc]; if (!in.seen) in.seen = true;
    s.steps++;
    Val* R = f->regs.data();
    auto G = [&](const Opnd& o) -> Val { return o.reg < 0 ? o.c : R[o.reg]; };
    switch (in.op) {
    case I::Nop: f->pc++; return true;
    case I::Bin: {
        u32 w = in.w; Op op = (Op)in.sub;
        for (u32 k = 0; k < in.nslots; k++) {
            Val a = G(in.ops[k]), b = G(in.ops[in.nslots + k]);
            if (!a.e && !b.e) {
                u64 r;
                switch (op) {
                case Op::Add: r = msk(a.c + b.c, w); break;
                case Op::Sub: r = msk(a.c - b.c, w); break;
                case Op::Mul: r = msk(a.c * b.c, w); break;
                case Op::And: r = a.c & b.c; break;
                case Op::Or: r = a.c | b.c; break;
                case Op::Xor: r = a.c ^ b.c; break;
                case Op::Shl: r = b.c >= w ? 0 : msk(a.c << b.c, w); break;
                case Op::LShr: r = b.c >= w ? 0 : a.c >> b.c; break;
                case Op::UDiv: case Op::URem:
                    if (!b.c) { violate(s, "arith", "integer division by zero"); return false; }
                    r = op == Op::UDiv ? a.c / b.c : a.c % b.c; break;
                case Op::SDiv: case Op::SRem:
                    if (!b.c) { violate(s, "arith", "integer division by zero"); return false; }
                    if (b.c == msk(~0ull, w) && a.c == (1ull << (w - 1))) { violate(s, "arith", "signed division overflow"); return false; }
                    r = (u64)evalOp(op, w, 0, w, w, a.c, b.c, 0); break;
                default: r = (u64)evalOp(op, w, 0, w, w, a.c, b.c, 0);
                }
                R[in.dst + k] = {r, nullptr};
                continue;
            }
            Expr *x = ex(a, w), *y = ex(b, w);
            if (op == Op::UDiv || op == Op::URem || op == Op::SDiv || op == Op::SRem) {
                Expr* z = mkEq(y, mkConst(0, w));
                if (!z->isConst() || z->c) { std::vector<u64> m; SatRes r = feasible(s.C, z, &m); if (r == SatRes::Unknown) { incomplete(s, "solver undecided"); return false; } if (r == SatRes::Sat) { violate(s, "arith", "integer division by zero", z); if (stop) return false; pathEnded = false; auto nz = mkNot(z); if (feasible(s.C, nz, &m) != SatRes::Sat) { pathEnded = true; return false; } addConstraint(s.C, nz, m); } }
                if (op == Op::SDiv || op == Op::SRem) {
                    Expr* o = mkAnd(mkEq(y, mkConst(maskW(w), w)), mkEq(x, mkConst((u128)1 << (w - 1), w)));
                    if (!o->isFalse()) { std::vector<u64> m; SatRes r = feasible(s.C, o, &m); if (r == SatRes::Unknown) { incomplete(s, "solver undecided"); return false; } if (r == SatRes::Sat) { violate(s, "arith", "signed division overflow (INT_MIN / -1)", o); if (stop) return false; pathEnded = false; auto no = mkNot(o); if (feasible(s.C, no, &m) != SatRes::Sat) { pathEnded = true; return false; } addConstraint(s.C, no, m); } }
                }
            }
            R[in.dst + k] = val(mkBin(op, x, y));
        }
        f->pc++; return true;
    }
    case I::ICmp: {
        using P = llvm::CmpInst;
        u32 w = in.w2;
        for (u32 k = 0; k < in.nslots; k++) {
            Val a = G(in.ops[k]), b = G(in.ops[in.nslots + k]);
            if (!a.e && !b.e) {
                bool r = false;
                switch (in.sub) {
                case P::ICMP_EQ: r = a.c == b.c; break; case P::ICMP_NE: r = a.c != b.c; break;
                case P::ICMP_ULT: r = a.c < b.c; break; case P::ICMP_ULE: r = a.c <= b.c; break;
                case P::ICMP_UGT: r = a.c > b.c; break; case P::ICMP_UGE: r = a.c >= b.c; break;
                case P::ICMP_SLT: r = sx(a.c, w) < sx(b.c, w); break; case P::ICMP_SLE: r = sx(a.c, w) <= sx(b.c, w); break;
                case P::ICMP_SGT: r = sx(a.c, w) > sx(b.c, w); break; case P::ICMP_SGE: r = sx(a.c, w) >= sx(b.c, w); break;
                }
                R[in.dst + k] = {r, nullptr};
                continue;
            }
            Expr *x = ex(a, w), *y = ex(b, w), *r = nullptr;
            switch (in.sub) {
            case P::ICMP_EQ: r = mkEq(x, y); break; case P::ICMP_NE: r = mkNot(mkEq(x, y)); break;
            case P::ICMP_ULT: r = mkBin(Op::Ult, x, y); break; case P::ICMP_ULE: r = mkBin(Op::Ule, x, y); break;
            case P::ICMP_UGT: r = mkBin(Op::Ult, y, x); break; case P::ICMP_UGE: r = mkBin(Op::Ule, y, x); break;
            case P::ICMP_SLT: r = mkBin(Op::Slt, x, y); break; case P::ICMP_SLE: r = mkBin(Op::Sle, x, y); break;
            case P::ICMP_SGT: r = mkBin(Op::Slt, y, x); break; case P::ICMP_SGE: r = mkBin(Op::Sle, y, x); break;
            }
            R[in.dst + k] = val(r);
        }
        f->pc++; return true;
    }
    case I::FBin: {
        for (u32 k = 0; k < in.nslots; k++) {
            Val a = G(in.ops[k]), b = G(in.ops[in.nslots + k]);
            if (in.w == 80) {
                if ((a.e && !a.e->isConst()) || (b.e && !b.e->isConst())) { incomplete(s, "symbolic long double"); return false; }
                long double x = ld80(a), y = ld80(b), r = 0;
                switch ((Op)in.sub) { case Op::FAdd: r = x + y; break; case Op::FSub: r = x - y; break; case Op::FMul: r = x * y; break; case Op::FDiv: r = x / y; break; default: r = fmodl(x, y); }
                R[in.dst + k] = v80(r); continue;
            }
            if (!a.e && !b.e) R[in.dst + k] = {(u64)evalOp((Op)in.sub, in.w, 0, in.w, in.w, a.c, b.c, 0), nullptr};
            else R[in.dst + k] = val(mkFBin((Op)in.sub, ex(a, in.w), ex(b, in.w)));
        }
        f->pc++; return true;
    }
    case I::FNeg: {
        for (u32 k = 0; k < in.nslots; k++) {
            Val a = G(in.ops[k]);
            if (in.w == 80) { if (a.e && !a.e->isConst()) { incomplete(s, "symbolic long double"); return false; } R[in.dst + k] = v80(-ld80(a)); continue; }
            R[in.dst + k] = val(mkBin(Op::Xor, ex(a, in.w), mkConst((u128)1 << (in.w - 1), in.w)));
        }
        f->pc++; return true;
    }
    case I::FCmp: {
        using P = llvm::CmpInst;
        for (u32 k = 0; k < in.nslots; k++) {
            Val a = G(in.ops[k]), b = G(in.ops[in.nslots + k]);
            u32 w = in.w2;
            if (w == 80) {
                if ((a.e && !a.e->isConst()) || (b.e && !b.e->isConst())) { incomplete(s, "symbolic long double"); return false; }
                long double x = ld80(a), y = ld80(b); bool un = std::isnan(x) || std::isnan(y), r = false;
                switch (in.sub) { case P::FCMP_OEQ: r = x == y; break; case P::FCMP_ONE: r = !un && x != y; break; case P::FCMP_UNE: r = un || x != y; break; case P::FCMP_OLT: r = x < y; break; case P::FCMP_OLE: r = x <= y; break; case P::FCMP_OGT: r = x > y; break; case P::FCMP_OGE: r = x >= y; break; case P::FCMP_ULT: r = un || x < y; break; case P::FCMP_ULE: r = un || x <= y; break; case P::FCMP_UGT: r = un || x > y; break; case P::FCMP_UGE: r = un || x >= y; break; case P::FCMP_UEQ: r = un || x == y; break; case P::FCMP_UNO: r = un; break; case P::FCMP_ORD: r = !un; break; case P::FCMP_TRUE: r = true; break; default: r = false; }
                R[in.dst + k] = {r, nullptr}; continue;
            }
            Expr *x = ex(a, w), *y = ex(b, w), *r;
            auto oeq = [&] { return mkFCmp(Op::FOeq, x, y); };
            auto olt = [&](Expr* p, Expr* q) { return mkFCmp(Op::FOlt, p, q); };
            auto ole = [&](Expr* p, Expr* q) { return mkFCmp(Op::FOle, p, q); };
            auto uno = [&] { return mkFCmp(Op::FUno, x, y); };
            switch (in.sub) {
            case P::FCMP_OEQ: r = oeq(); break;
            case P::FCMP_UNE: r = mkNot(oeq()); break;
            case P::FCMP_ONE: r = mkAnd(mkNot(oeq()), mkNot(uno())); break;
            case P::FCMP_UEQ: r = mkOr(oeq(), uno()); break;
            case P::FCMP_OLT: r = olt(x, y); break;
            case P::FCMP_OLE: r = ole(x, y); break;
            case P::FCMP_OGT: r = olt(y, x); break;
            case P::FCMP_OGE: r = ole(y, x); break;
            case P::FCMP_ULT: r = mkNot(ole(y, x)); break;
            case P::FCMP_ULE: r = mkNot(olt(y, x)); break;
            case P::FCMP_UGT: r = mkNot(ole(x, y)); break;
            case P::FCMP_UGE: r = mkNot(olt(x, y)); break;
            case P::FCMP_UNO: r = uno(); break;
            case P::FCMP_ORD: r = mkNot(uno()); break;
            case P::FCMP_TRUE: r = mkBool(true); break;
            default: r = mkBool(false);
            }
            R[in.dst + k] = val(r);
        }
        f->pc++; return true;
    }
    case I::Trunc: case I::ZExt: case I::SExt: case I::FPTrunc: case I::FPExt: case I::FPToSI: case I::FPToUI: case I::SIToFP: case I::UIToFP: {
        for (u32 k = 0; k < in.nslots; k++) {
            Val a = G(in.ops[k]); u32 w = in.w, w2 = in.w2;
            if (w == 80 || w2 == 80) {
                if (a.e && !a.e->isConst()) { incomplete(s, "symbolic long double"); return false; }
                u128 c = a.e ? a.e->c : a.c;
                switch (in.op) {
                case I::FPExt: { if (w2 == 64) { double d; u64 x = (u64)c; memcpy(&d, &x, 8); R[in.dst + k] = v80(d); } else { float d; u32 x = (u32)c; memcpy(&d, &x, 4); R[in.dst + k] = v80(d); } break; }
                case I::FPTrunc: { if (w == 64) { double d = (double)ld80(a); u64 x; memcpy(&x, &d, 8); R[in.dst + k] = {x, nullptr}; } else { float d = (float)ld80(a); u32 x; memcpy(&x, &d, 4); R[in.dst + k] = {x, nullptr}; } break; }
                case I::SIToFP: R[in.dst + k] = v80((long double)(i64)sextW(c, w2)); break;
                case I::UIToFP: R[in.dst + k] = v80((long double)(u64)c); break;
                case I::FPToSI: R[in.dst + k] = {msk((u64)(i64)ld80(a), w), nullptr}; break;
                case I::FPToUI: R[in.dst + k] = {msk((u64)ld80(a), w), nullptr}; break;
                default: R[in.dst + k] = a;
                }
                continue;
            }
            if (!a.e && w <= 64) {
                u64 r;
                switch (in.op) {
                case I::Trunc: r = msk(a.c, w); break;
                case I::ZExt: r = a.c; break;
                case I::SExt: r = msk((u64)sx(a.c, w2), w); break;
                case I::FPTrunc: case I::FPExt: r = (u64)evalOp(Op::FPCvt, w, 0, w2, 0, a.c, 0, 0); break;
                case I::FPToSI: r = (u64)evalOp(Op::FPToSI, w, 0, w2, 0, a.c, 0, 0); break;
                case I::FPToUI: r = (u64)evalOp(Op::FPToUI, w, 0, w2, 0, a.c, 0, 0); break;
                case I::SIToFP: r = (u64)evalOp(Op::SIToFP, w, 0, w2, 0, a.c, 0, 0); break;
                default: r = (u64)evalOp(Op::UIToFP, w, 0, w2, 0, a.c, 0, 0); break;
                }
                R[in.dst + k] = {r, nullptr};
                continue;
            }
            Expr* x = ex(a, w2); Expr* r;
            switch (in.op) {
            case I::Trunc: r = mkExtract(x, 0, w); break;
            case I::ZExt: r = mkZExt(x, w); break;
            case I::SExt: r = mkSExt(x, w); break;
            case I::FPTrunc: case I::FPExt: r = mkCvt(Op::FPCvt, x, w); break;
            case I::FPToSI: r = mkCvt(Op::FPToSI, x, w); break;
            case I::FPToUI: r = mkCvt(Op::FPToUI, x, w); break;
            case I::SIToFP: r = mkCvt(Op::SIToFP, x, w); break;
            default: r = mkCvt(Op::UIToFP, x, w); break;
            }
            R[in.dst + k] = val(r);
        }
        f->pc++; return true;
    }
    case I::Move: {
        if (in.nslots == 1) R[in.dst] = G(in.ops[0]);
        else { Val t[128]; u32 n = in.nslots > 128 ? 128 : in.nslots; for (u32 k = 0; k < n; k++) t[k] = G(in.ops[k]); for (u32 k = 0; k < n; k++) R[in.dst + k] = t[k]; }
        f->pc++; return true;
    }
    case I::Select: {
        if (in.imm == 1) {
            for (u32 k = 0; k < in.nslots; k++) {
                Val c = G(in.ops[k]), a = G(in.ops[in.nslots + k]), b = G(in.ops[2 * in.nslots + k]);
                R[in.dst + k] = !c.e ? (c.c ? a : b) : val(mkIte(c.e, ex(a, in.slots[k].w), ex(b, in.slots[k].w)));
            }
            f->pc++; return true;
        }
        Val c = G(in.ops[0]);
        if (c.e && !c.e->isConst()) { int q = implied(s.C, c.e); if (q >= 0) c = {(u64)q, nullptr}; }
        Val t[16];
        for (u32 k = 0; k < in.nslots && k < 16; k++) {
            Val a = G(in.ops[1 + k]), b = G(in.ops[1 + in.nslots + k]);
            t[k] = !c.e ? (c.c ? a : b) : val(mkIte(c.e, ex(a, in.slots[k].w), ex(b, in.slots[k].w)));
        }
        for (u32 k = 0; k < in.nslots; k++) R[in.dst + k] = t[k];
        f->pc++; return true;
    }
    case I::Gep: {
        Val b = G(in.ops[0]);
        if (!b.e) {
            u64 a = b.c + in.imm; Expr* acc = nullptr;
            for (size_t k = 1; k < in.ops.size(); k++) {
                Val i = G(in.ops[k]); auto& sc = in.scales[k - 1];
                if (!i.e) a += (u64)sx(i.c, sc.second) * sc.first;
                else { Expr* x = mkBin(Op::Mul, mkSExt(i.e->w > 64 ? mkExtract(i.e, 0, 64) : i.e, 64), mkConst(sc.first, 64)); acc = acc ? mkBin(Op::Add, acc, x) : x; }
            }
            R[in.dst] = acc ? val(mkBin(Op::Add, acc, mkConst(a, 64))) : Val{a, nullptr};
        } else {
            Expr* acc = b.e; u64 a = in.imm;
            for (size_t k = 1; k < in.ops.size(); k++) {
                Val i = G(in.ops[k]); auto& sc = in.scales[k - 1];
                if (!i.e) a += (u64)sx(i.c, sc.second) * sc.first;
                else acc = mkBin(Op::Add, acc, mkBin(Op::Mul, mkSExt(i.e, 64), mkConst(sc.first, 64)));
            }
            R[in.dst] = val(mkBin(Op::Add, acc, mkConst(a, 64)));
        }
        f->pc++; return true;
    }
    case I::Load: {
        Val a = G(in.ops[0]);
        if (in.slots.size() == 1) {
            Val o;
            if (!a.e) { std::string err; atomicNow = in.sub; bool got = loadC(s, a.c, in.slots[0].bytes, in.slots[0].w, o, err); atomicNow = false; if (!got) { violate(s, "memory", err); return false; } }
            else { if (!loadV(s, a, in.slots[0].bytes, in.slots[0].w, o)) return false; }
            s.st.back()->regs[in.dst] = o;
        } else {
            if (a.e && !conc(s, a, 64)) return false;
            for (u32 k = 0; k < in.slots.size(); k++) { Val o; std::string err; if (!loadC(s, a.c + in.slots[k].off, in.slots[k].bytes, in.slots[k].w, o, err)) { violate(s, "memory", err); return false; } R[in.dst + k] = o; }
        }
        s.st.back()->pc++; return true;
    }
    case I::Store: {
        Val a = G(in.ops[0]);
        if (a.e && !conc(s, a, 64)) return false;
        for (u32 k = 0; k < in.slots.size(); k++) {
            Val v = G(in.ops[1 + k]); std::string err;
            atomicNow = in.sub; bool stored = storeC(s, a.c + in.slots[k].off, in.slots[k].bytes, in.slots[k].w, v, err); atomicNow = false;
            if (!stored) { violate(s, "memory", err); return false; }
        }
        f->pc++; return true;
    }
    case I::Alloca: {
        Val n = G(in.ops[0]);
        if (n.e && !conc(s, n, 64)) return false;
        u64 sz = in.imm * n.c; if (!sz) sz = 1;
        R[in.dst] = {alloc(s, sz, K_Stack, nullptr), nullptr};
        f->pc++; return true;
    }
    case I::Br: takeEdge(s, in.e0); return true;
    case I::CondBr: {
        Val c = G(in.ops[0]);
        if (!c.e) { takeEdge(s, (c.c & 1) ? in.e0 : in.e1); return true; }
        if (c.e->isConst()) { takeEdge(s, c.e->c ? in.e0 : in.e1); return true; }
        res.branches++;
        bool cur = evalExpr(c.e, s.C.model) != 0;
        Expr* other = cur ? mkNot(c.e) : c.e;
        std::vector<u64> m;
        SatRes r = feasible(s.C, other, &m);
        if (r == SatRes::Unknown) { incomplete(s, "solver undecided"); return false; }
        if (r == SatRes::Sat) {
            State* n = clone(s);
            addConstraint(n->C, other, m);
            takeEdge(*n, cur ? in.e1 : in.e0);
            addConstraint(s.C, cur ? c.e : mkNot(c.e), s.C.model);
        }
        takeEdge(s, cur ? in.e0 : in.e1);
        return true;
    }
    case I::Switch: {
        Val c = G(in.ops[0]);
        if (!c.e) {
            u32 t = 0; for (auto& p : in.cases) if (p.first == c.c) { t = p.second; break; }
            takeEdge(s, in.edges[t]); return true;
        }
        res.branches++;
        std::vector<Expr*> conds(in.edges.size(), nullptr);
        Expr* any = mkBool(false);
        for (auto& p : in.cases) {
            Expr* q = mkEq(c.e, mkConst(p.first, in.w2));
            any = mkOr(any, q);
            conds[p.second] = conds[p.second] ? mkOr(conds[p.second], q) : q;
        }
        conds[0] = conds[0] ? mkOr(conds[0], mkNot(any)) : mkNot(any);
        int cur = -1;
        for (size_t k = 0; k < conds.size(); k++) if (conds[k] && evalExpr(conds[k], s.C.model)) { cur = k; break; }
        bool multi = false;
        for (size_t k = 0; k < conds.size(); k++) if ((int)k != cur && conds[k]) {
            std::vector<u64> m;
            SatRes r = feasible(s.C, conds[k], &m);
            if (r == SatRes::Unknown) { incomplete(s, "solver undecided"); return false; }
            if (r == SatRes::Sat) { multi = true; State* n = clone(s); addConstraint(n->C, conds[k], m); takeEdge(*n, in.edges[k]); }
        }
        if (multi) addConstraint(s.C, conds[cur], s.C.model);
        takeEdge(s, in.edges[cur]);
        return true;
    }
    case I::Ret: {
        std::vector<Val> v(in.ops.size());
        for (size_t i = 0; i < v.size(); i++) v[i] = G(in.ops[i]);
        return doReturn(s, v);
    }
    case I::Call: return execCall(s, in);
    case I::Resume: { Val p = G(in.ops[0]); return unwind(s, p.c, true); }
    case I::LandingPad: R[in.dst] = {s.lpPtr, nullptr}; R[in.dst + 1] = {(u64)(u32)s.lpSel, nullptr}; f->pc++; return true;
    case I::Unreachable: violate(s, "unreachable", "reached unreachable code"); return false;
    case I::AtomicRMW: {
        Val p = G(in.ops[0]), v = G(in.ops[1]);
        if (p.e && !conc(s, p, 64)) return false;
        Val old; std::string err; u32 w = in.w;
        atomicNow = true; bool got = loadC(s, p.c, in.imm, w, old, err); atomicNow = false;
        if (!got) { violate(s, "memory", err); return false; }
        Expr *a = ex(old, w), *b = ex(v, w), *r;
        using A = llvm::AtomicRMWInst;
        switch (in.sub) {
        case A::Xchg: r = b; break; case A::Add: r = mkBin(Op::Add, a, b); break; case A::Sub: r = mkBin(Op::Sub, a, b); break;
        case A::And: r = mkBin(Op::And, a, b); break; case A::Or: r = mkBin(Op::Or, a, b); break; case A::Xor: r = mkBin(Op::Xor, a, b); break;
        default: incomplete(s, "atomicrmw"); return false;
        }
        atomicNow = true; bool stored = storeC(s, p.c, in.imm, w, val(r), err); atomicNow = false;
        if (!stored) { violate(s, "memory", err); return false; }
        R[in.dst] = old; f->pc++; return true;
    }
    case I::CmpXchg: {
        Val p = G(in.ops[0]), c = G(in.ops[1]), n = G(in.ops[2]);
        if (p.e && !conc(s, p, 64)) return false;
        Val old; std::string err;
        atomicNow = true; bool got = loadC(s, p.c, in.imm, in.w, old, err); atomicNow = false;
        if (!got) { violate(s, "memory", err); return false; }
        Expr* eq = mkEq(ex(old, in.w), ex(c, in.w));
        atomicNow = true; bool stored = storeC(s, p.c, in.imm, in.w, val(mkIte(eq, ex(n, in.w), ex(old, in.w))), err); atomicNow = false;
        if (!stored) { violate(s, "memory", err); return false; }
        R[in.dst] = old; R[in.dst + 1] = val(eq); f->pc++; return true;
    }
    case I::Unsupported: incomplete(s, "unsupported " + in.name); return false;
    }
    return false;
}

void Exec::run(State* sp) {
    State& s = *sp;
    ensureTop(s);
    pathEnded = false;
    if (now() > deadline) { res.timedOut = true; stop = true; }
    u32 tick = 0;
    while (true) {
        if (s.st.empty()) { finish(s); break; }
        if (s.steps > opt.maxSteps) { violate(s, "steps", "step limit exceeded (possible non-termination)"); break; }
        bool ok = step(s);
        if (pathEnded) break;
        if (!ok) { if (s.st.empty()) finish(s); break; }
        if (stop) break;
        if ((++tick & 0x3fff) == 0 && now() > deadline) { res.timedOut = true; stop = true; break; }
    }
    res.steps += s.steps;
    delete sp;
}

State* Exec::initialState() {
    State* s = new State;
    declareGlobals(*s);
    // run static constructors
    for (auto& c : symxCtors(M)) {
        Func* f = funcOf[c.second];
        if (f->isDecl) continue;
        pushFrame(*s, f, {}, 0, nullptr);
        pathEnded = false;
        while (!s->st.empty()) {
            bool ok = step(*s);
            if (pathEnded || (!ok && !s->st.empty())) { fprintf(stderr, "symx: static constructor %s failed\n", f->name.c_str()); for (auto& p : res.incomplete) fprintf(stderr, "  %s\n", p.first.c_str()); for (auto& v : res.violations) fprintf(stderr, "  %s %s\n", v.msg.c_str(), v.where.c_str()); return nullptr; }
        }
    }
    s->steps = 0;
    auto it = funcByName.find(opt.entry);
    if (it == funcByName.end() || it->second->isDecl) { fprintf(stderr, "symx: no entry %s\n", opt.entry.c_str()); return nullptr; }
    pushFrame(*s, it->second, {}, 0, nullptr);
    return s;
}
