#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <unordered_map>

using namespace llvm;

static LLVMContext& lctx() { static LLVMContext* c = new LLVMContext; return *c; }
static const DataLayout* DL;

static bool flat(Type* t, u64 off, std::vector<SlotTy>& out) {
    if (t->isVoidTy()) return true;
    if (auto* it = dyn_cast<IntegerType>(t)) {
        if (it->getBitWidth() > 128) return false;
        out.push_back({it->getBitWidth(), (u32)off, (u32)DL->getTypeStoreSize(t)}); return true;
    }
    if (t->isPointerTy()) { out.push_back({64, (u32)off, 8}); return true; }
    if (t->isFloatTy()) { out.push_back({32, (u32)off, 4}); return true; }
    if (t->isDoubleTy()) { out.push_back({64, (u32)off, 8}); return true; }
    if (t->isX86_FP80Ty()) { out.push_back({80, (u32)off, 10}); return true; }
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* l = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) if (!flat(st->getElementType(i), off + l->getElementOffset(i), out)) return false;
        return true;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        u64 sz = DL->getTypeAllocSize(at->getElementType());
        if (at->getNumElements() > 4096) return false;
        for (u64 i = 0; i < at->getNumElements(); i++) if (!flat(at->getElementType(), off + i * sz, out)) return false;
        return true;
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        u64 bits = DL->getTypeSizeInBits(vt->getElementType());
        if (bits % 8) {  // <n x i1>: only as SSA values
            for (u64 i = 0; i < vt->getNumElements(); i++) out.push_back({(u32)bits, 0xffffffff, 0});
            return true;
        }
        for (u64 i = 0; i < vt->getNumElements(); i++) if (!flat(vt->getElementType(), off + i * bits / 8, out)) return false;
        return true;
    }
    return false;
}

static Val apVal(const APInt& v) {
    if (v.getBitWidth() <= 64) return {v.getZExtValue(), nullptr};
    u128 x = 0; for (unsigned i = 0; i < v.getNumWords() && i < 2; i++) x |= (u128)v.getRawData()[i] << (64 * i);
    return {0, mkConst(x, v.getBitWidth())};
}
static u128 valC(const Val& v) { return v.e ? v.e->c : v.c; }

std::vector<Val> Exec::constVals(const void* cv) {
    auto* c = (const Constant*)cv;
    if (auto* ci = dyn_cast<ConstantInt>(c)) return {apVal(ci->getValue())};
    if (auto* cf = dyn_cast<ConstantFP>(c)) return {apVal(cf->getValueAPF().bitcastToAPInt())};
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVals(ga->getAliasee());
    if (auto* f = dyn_cast<Function>(c)) return {{funcOf[f]->addr, nullptr}};
    if (isa<GlobalVariable>(c)) return {{globAddr[c], nullptr}};
    if (isa<ConstantPointerNull>(c)) return {{0, nullptr}};
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        std::vector<SlotTy> s; flat(c->getType(), 0, s);
        std::vector<Val> r; for (auto& x : s) r.push_back(x.w > 64 ? Val{0, mkConst(0, x.w)} : Val{0, nullptr});
        return r;
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        std::vector<Val> r;
        for (auto& op : ca->operands()) { auto v = constVals(op.get()); r.insert(r.end(), v.begin(), v.end()); }
        return r;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        std::vector<Val> r;
        for (unsigned i = 0; i < cd->getNumElements(); i++) { auto v = constVals(cd->getElementAsConstant(i)); r.insert(r.end(), v.begin(), v.end()); }
        return r;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off);
            return {{constVals(ce->getOperand(0))[0].c + (u64)off.getSExtValue(), nullptr}};
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
            Val v = constVals(ce->getOperand(0))[0];
            u32 w = DL->getTypeSizeInBits(ce->getType());
            if (w < 64) v.c &= (u64)maskW(w);
            return {v};
        }
        case Instruction::Add: case Instruction::Sub: case Instruction::Xor: case Instruction::Mul: case Instruction::Shl: {
            u128 a = valC(constVals(ce->getOperand(0))[0]), b = valC(constVals(ce->getOperand(1))[0]);
            u32 w = DL->getTypeSizeInBits(ce->getType());
            Op o = ce->getOpcode() == Instruction::Add ? Op::Add : ce->getOpcode() == Instruction::Sub ? Op::Sub : ce->getOpcode() == Instruction::Xor ? Op::Xor : ce->getOpcode() == Instruction::Mul ? Op::Mul : Op::Shl;
            return {{(u64)evalOp(o, w, 0, w, w, a, b, 0), nullptr}};
        }
        case Instruction::Trunc: { u128 a = valC(constVals(ce->getOperand(0))[0]); u32 w = DL->getTypeSizeInBits(ce->getType()); return {{(u64)(a & maskW(w)), nullptr}}; }
        case Instruction::ICmp: {
            u128 a = valC(constVals(ce->getOperand(0))[0]), b = valC(constVals(ce->getOperand(1))[0]);
            auto p = (CmpInst::Predicate)ce->getPredicate();
            bool r = p == CmpInst::ICMP_EQ ? a == b : p == CmpInst::ICMP_NE ? a != b : p == CmpInst::ICMP_ULT ? a < b : p == CmpInst::ICMP_UGT ? a > b : p == CmpInst::ICMP_ULE ? a <= b : a >= b;
            return {{r, nullptr}};
        }
        }
    }
    errs() << "symx: unsupported constant " << *c << "\n";
    return {{0, nullptr}};
}

void Exec::writeConst(u8* dst, const void* cv) {
    auto* c = (const Constant*)cv;
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { auto r = cd->getRawDataValues(); memcpy(dst, r.data(), r.size()); return; }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) {
        auto* l = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(dst + l->getElementOffset(i), cs->getOperand(i));
        return;
    }
    if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
        Type* et = isa<ConstantArray>(c) ? cast<ConstantArray>(c)->getType()->getElementType() : cast<ConstantVector>(c)->getType()->getElementType();
        u64 sz = DL->getTypeAllocSize(et);
        for (unsigned i = 0; i < c->getNumOperands(); i++) writeConst(dst + i * sz, c->getOperand(i));
        return;
    }
    u128 v = valC(constVals(c)[0]);
    memcpy(dst, &v, DL->getTypeStoreSize(c->getType()));
}

bool Exec::load() {
    SMDiagnostic err;
    auto m = parseIRFile(opt.bitcode, err, lctx());
    if (!m) { err.print("symx", errs()); return false; }
    M = m.release();
    DL = &M->getDataLayout();
    u32 idx = 0;
    for (auto& f : *M) {
        auto* fn = new Func; fn->name = f.getName().str(); fn->f = &f; fn->idx = idx; fn->isDecl = f.isDeclaration();
        fn->addr = (1ull << 32) | (0x1000 + 16 * (u64)idx); idx++;
        fn->vararg = f.isVarArg();
        fn->bi = builtin(fn->name);
        if (!fn->isDecl && fn->bi && !fn->bi->optional) fn->bi = nullptr;
        funcs.push_back(fn); funcOf[&f] = fn; funcByName[fn->name] = fn;
    }
    return true;
}

void Exec::declareGlobals(State& s) {
    for (auto& g : M->globals()) {
        u64 size = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 8;
        if (!g.hasInitializer() && size < 256) size = 256;
        if (size == 0) size = 1;
        u64 a = alloc(s, size, K_Global, nullptr);
        globAddr[&g] = a;
        globName[a] = g.getName().str();
        globByName[g.getName().str()] = a;
    }
    for (auto& g : M->globals()) {
        u64 off; Obj* o = findW(s, globAddr[&g], off);
        memset(o->data, 0, o->size);
        if (g.hasInitializer()) writeConst(o->data, g.getInitializer());
        if (g.isConstant()) o->ro = true;
        if (g.isThreadLocal() || g.getName() == "sx_errno_cell") o->tls = true;
    }
}

namespace {
struct Decoder {
    Exec& X; Func* F;
    std::unordered_map<const Value*, u32> base;
    std::unordered_map<const BasicBlock*, u32> bbPc;
    u32 n = 0;

    u32 slots(Type* t) { std::vector<SlotTy> s; if (!flat(t, 0, s)) return 0; return s.size(); }
    Opnd op(Value* v, u32 i = 0) {
        if (auto* c = dyn_cast<Constant>(v)) { auto vals = X.constVals(c); return {-1, i < vals.size() ? vals[i] : Val{0, nullptr}}; }
        auto it = base.find(v);
        if (it == base.end()) return {-1, {0, nullptr}}; // metadata etc.
        return {(i64)it->second + i, {0, nullptr}};
    }
    void assign(Value* v) { if (v->getType()->isVoidTy()) return; base[v] = n; n += slots(v->getType()); }
    Edge edge(BasicBlock* from, BasicBlock* to) {
        Edge e; e.pc = bbPc[to];
        for (auto& phi : to->phis()) {
            Value* in = phi.getIncomingValueForBlock(from);
            u32 ns = slots(phi.getType());
            if (isa<UndefValue>(in) ) { /* leave */ }
            for (u32 i = 0; i < ns; i++) e.copies.push_back({base[&phi] + i, op(in, i)});
        }
        return e;
    }
    void unsupported(Inst& in, const Instruction& I, const char* why) {
        in.op = I::Unsupported; std::string s; raw_string_ostream o(s); o << why << ": " << I; in.name = o.str();
    }
    using I = ::I;

    void run() {
        auto* f = F->f;
        for (auto& a : f->args()) { std::vector<SlotTy> s; flat(a.getType(), 0, s); base[&a] = n; n += s.size(); for (auto& x : s) F->argW.push_back(x.w); }
        F->nargs = n;
        for (auto& bb : *f) for (auto& i : bb) assign(&i);
        // assign pcs
        u32 pc = 0;
        for (auto& bb : *f) {
            bbPc[&bb] = pc;
            for (auto& i : bb) { if (isa<PHINode>(i)) continue; pc++; }
        }
        for (auto& bb : *f) for (auto& i : bb) if (!isa<PHINode>(i)) { F->code.emplace_back(); one(F->code.back(), i); }
        F->nregs = n;
        F->decoded = true;
    }
    void one(Inst& in, Instruction& i) {
        in.ll = &i;
        Type* t = i.getType();
        if (!t->isVoidTy()) { in.dst = base[&i]; in.nslots = slots(t); if (in.nslots == 0 && !isa<CallBase>(i) && !(t->isStructTy() && t->getStructNumElements() == 0)) return unsupported(in, i, "type"); }
        auto bits = [&](Type* ty) -> u32 { return ty->isPointerTy() ? 64 : (u32)DL->getTypeSizeInBits(ty->getScalarType()); };
        auto addOps = [&](Value* v, u32 ns) { for (u32 k = 0; k < ns; k++) in.ops.push_back(op(v, k)); };
        in.w = t->isVoidTy() || t->isAggregateType() ? 0 : bits(t);
        if (auto* b = dyn_cast<BinaryOperator>(&i)) {
            static const std::pair<unsigned, Op> tab[] = {{Instruction::Add, Op::Add}, {Instruction::Sub, Op::Sub}, {Instruction::Mul, Op::Mul}, {Instruction::UDiv, Op::UDiv}, {Instruction::SDiv, Op::SDiv}, {Instruction::URem, Op::URem}, {Instruction::SRem, Op::SRem}, {Instruction::And, Op::And}, {Instruction::Or, Op::Or}, {Instruction::Xor, Op::Xor}, {Instruction::Shl, Op::Shl}, {Instruction::LShr, Op::LShr}, {Instruction::AShr, Op::AShr}, {Instruction::FAdd, Op::FAdd}, {Instruction::FSub, Op::FSub}, {Instruction::FMul, Op::FMul}, {Instruction::FDiv, Op::FDiv}, {Instruction::FRem, Op::FRem}};
            for (auto& p : tab) if (p.first == b->getOpcode()) { in.sub = (u8)p.second; in.op = p.second >= Op::FAdd ? I::FBin : I::Bin; }
            addOps(b->getOperand(0), in.nslots); addOps(b->getOperand(1), in.nslots);
            return;
        }
        if (auto* u = dyn_cast<UnaryOperator>(&i)) { in.op = I::FNeg; addOps(u->getOperand(0), in.nslots); return; }
        if (auto* c = dyn_cast<ICmpInst>(&i)) { in.op = I::ICmp; in.sub = (u8)c->getPredicate(); in.w2 = bits(c->getOperand(0)->getType()); addOps(c->getOperand(0), in.nslots); addOps(c->getOperand(1), in.nslots); return; }
        if (auto* c = dyn_cast<FCmpInst>(&i)) { in.op = I::FCmp; in.sub = (u8)c->getPredicate(); in.w2 = bits(c->getOperand(0)->getType()); addOps(c->getOperand(0), in.nslots); addOps(c->getOperand(1), in.nslots); return; }
        if (auto* c = dyn_cast<CastInst>(&i)) {
            in.w2 = bits(c->getSrcTy());
            u32 sns = slots(c->getSrcTy());
            switch (c->getOpcode()) {
            case Instruction::Trunc: in.op = I::Trunc; break;
            case Instruction::ZExt: in.op = I::ZExt; break;
            case Instruction::SExt: in.op = I::SExt; break;
            case Instruction::FPTrunc: in.op = I::FPTrunc; break;
            case Instruction::FPExt: in.op = I::FPExt; break;
            case Instruction::FPToSI: in.op = I::FPToSI; break;
            case Instruction::FPToUI: in.op = I::FPToUI; break;
            case Instruction::SIToFP: in.op = I::SIToFP; break;
            case Instruction::UIToFP: in.op = I::UIToFP; break;
            case Instruction::PtrToInt: in.op = in.w < 64 ? I::Trunc : in.w > 64 ? I::ZExt : I::Move; break;
            case Instruction::IntToPtr: in.op = in.w2 < 64 ? I::ZExt : in.w2 > 64 ? I::Trunc : I::Move; break;
            case Instruction::BitCast: in.op = I::Move; if (in.nslots != sns) return unsupported(in, i, "vector bitcast"); break;
            default: in.op = I::Move;
            }
            addOps(c->getOperand(0), in.nslots);
            return;
        }
        if (auto* s = dyn_cast<SelectInst>(&i)) {
            if (s->getCondition()->getType()->isVectorTy()) { in.op = I::Select; in.imm = 1; std::vector<SlotTy> st; flat(t, 0, st); in.slots = st; addOps(s->getCondition(), in.nslots); addOps(s->getTrueValue(), in.nslots); addOps(s->getFalseValue(), in.nslots); return; }
            in.op = I::Select; flat(t, 0, in.slots); addOps(s->getCondition(), 1); addOps(s->getTrueValue(), in.nslots); addOps(s->getFalseValue(), in.nslots); return;
        }
        if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
            if (t->isVectorTy()) return unsupported(in, i, "vector gep");
            in.op = I::Gep; in.ops.push_back(op(g->getPointerOperand()));
            i64 off = 0;
            for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                Value* idx = it.getOperand();
                if (auto* st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
                u64 sc = DL->getTypeAllocSize(it.getIndexedType());
                if (auto* ci = dyn_cast<ConstantInt>(idx)) { off += ci->getSExtValue() * (i64)sc; continue; }
                in.ops.push_back(op(idx)); in.scales.push_back({sc, bits(idx->getType())});
            }
            in.imm = (u64)off;
            return;
        }
        if (auto* l = dyn_cast<LoadInst>(&i)) { in.op = I::Load; in.sub = l->isAtomic(); flat(t, 0, in.slots); for (auto& x : in.slots) if (x.off == 0xffffffff) return unsupported(in, i, "bool vector load"); addOps(l->getPointerOperand(), 1); return; }
        if (auto* s = dyn_cast<StoreInst>(&i)) {
            in.op = I::Store; in.sub = s->isAtomic(); if (!flat(s->getValueOperand()->getType(), 0, in.slots)) return unsupported(in, i, "store type");
            for (auto& x : in.slots) if (x.off == 0xffffffff) return unsupported(in, i, "bool vector store");
            addOps(s->getPointerOperand(), 1); addOps(s->getValueOperand(), in.slots.size()); return;
        }
        if (auto* a = dyn_cast<AllocaInst>(&i)) { in.op = I::Alloca; in.imm = DL->getTypeAllocSize(a->getAllocatedType()); addOps(a->getArraySize(), 1); return; }
        if (auto* b = dyn_cast<BranchInst>(&i)) {
            if (b->isUnconditional()) { in.op = I::Br; in.e0 = edge(i.getParent(), b->getSuccessor(0)); }
            else { in.op = I::CondBr; in.ops.push_back(op(b->getCondition())); in.e0 = edge(i.getParent(), b->getSuccessor(0)); in.e1 = edge(i.getParent(), b->getSuccessor(1)); }
            return;
        }
        if (auto* s = dyn_cast<SwitchInst>(&i)) {
            in.op = I::Switch; in.ops.push_back(op(s->getCondition())); in.w2 = bits(s->getCondition()->getType());
            in.edges.push_back(edge(i.getParent(), s->getDefaultDest()));
            std::map<BasicBlock*, u32> em; em[s->getDefaultDest()] = 0;
            for (auto& c : s->cases()) {
                auto it = em.find(c.getCaseSuccessor());
                if (it == em.end()) { it = em.emplace(c.getCaseSuccessor(), in.edges.size()).first; in.edges.push_back(edge(i.getParent(), c.getCaseSuccessor())); }
                in.cases.push_back({c.getCaseValue()->getValue().getLimitedValue(), it->second});
            }
            return;
        }
        if (auto* r = dyn_cast<ReturnInst>(&i)) { in.op = I::Ret; if (r->getReturnValue()) addOps(r->getReturnValue(), slots(r->getReturnValue()->getType())); return; }
        if (isa<UnreachableInst>(i)) { in.op = I::Unreachable; return; }
        if (auto* e = dyn_cast<ExtractValueInst>(&i)) {
            in.op = I::Move; Type* at = e->getAggregateOperand()->getType(); u32 o = 0;
            for (unsigned k : e->indices()) { auto* st = dyn_cast<StructType>(at); if (st) { for (unsigned j = 0; j < k; j++) o += slots(st->getElementType(j)); at = st->getElementType(k); } else { auto* ar = cast<ArrayType>(at); o += k * slots(ar->getElementType()); at = ar->getElementType(); } }
            for (u32 k = 0; k < in.nslots; k++) in.ops.push_back(op(e->getAggregateOperand(), o + k));
            return;
        }
        if (auto* e = dyn_cast<InsertValueInst>(&i)) {
            in.op = I::Move; Type* at = t; u32 o = 0;
            for (unsigned k : e->indices()) { auto* st = dyn_cast<StructType>(at); if (st) { for (unsigned j = 0; j < k; j++) o += slots(st->getElementType(j)); at = st->getElementType(k); } else { auto* ar = cast<ArrayType>(at); o += k * slots(ar->getElementType()); at = ar->getElementType(); } }
            u32 len = slots(at);
            for (u32 k = 0; k < in.nslots; k++) in.ops.push_back(k >= o && k < o + len ? op(e->getInsertedValueOperand(), k - o) : op(e->getAggregateOperand(), k));
            return;
        }
        if (auto* e = dyn_cast<ExtractElementInst>(&i)) {
            auto* ci = dyn_cast<ConstantInt>(e->getIndexOperand()); if (!ci) return unsupported(in, i, "dynamic extractelement");
            in.op = I::Move; in.ops.push_back(op(e->getVectorOperand(), ci->getZExtValue())); return;
        }
        if (auto* e = dyn_cast<InsertElementInst>(&i)) {
            auto* ci = dyn_cast<ConstantInt>(e->getOperand(2)); if (!ci) return unsupported(in, i, "dynamic insertelement");
            in.op = I::Move; for (u32 k = 0; k < in.nslots; k++) in.ops.push_back(k == ci->getZExtValue() ? op(e->getOperand(1)) : op(e->getOperand(0), k)); return;
        }
        if (auto* e = dyn_cast<ShuffleVectorInst>(&i)) {
            in.op = I::Move; u32 n0 = slots(e->getOperand(0)->getType());
            for (int m : e->getShuffleMask()) in.ops.push_back(m < 0 ? Opnd{-1, {0, nullptr}} : (u32)m < n0 ? op(e->getOperand(0), m) : op(e->getOperand(1), m - n0));
            return;
        }
        if (isa<FreezeInst>(i)) { in.op = I::Move; addOps(i.getOperand(0), in.nslots); return; }
        if (isa<FenceInst>(i)) { in.op = I::Nop; return; }
        if (auto* r = dyn_cast<ResumeInst>(&i)) { in.op = I::Resume; addOps(r->getValue(), slots(r->getValue()->getType())); return; }
        if (auto* l = dyn_cast<LandingPadInst>(&i)) {
            in.op = I::LandingPad; in.lp.reset(new Inst::LP); in.lp->cleanup = l->isCleanup();
            for (unsigned k = 0; k < l->getNumClauses(); k++) {
                if (l->isCatch(k)) in.lp->clauses.push_back({0, X.constVals(l->getClause(k))[0].c});
                else in.lp->clauses.push_back({1, 0});
            }
            return;
        }
        if (auto* a = dyn_cast<AtomicRMWInst>(&i)) { in.op = I::AtomicRMW; in.sub = (u8)a->getOperation(); in.imm = DL->getTypeStoreSize(t); in.ops.push_back(op(a->getPointerOperand())); in.ops.push_back(op(a->getValOperand())); return; }
        if (auto* a = dyn_cast<AtomicCmpXchgInst>(&i)) { in.op = I::CmpXchg; in.w = bits(a->getCompareOperand()->getType()); in.imm = DL->getTypeStoreSize(a->getCompareOperand()->getType()); in.ops.push_back(op(a->getPointerOperand())); in.ops.push_back(op(a->getCompareOperand())); in.ops.push_back(op(a->getNewValOperand())); return; }
        if (auto* c = dyn_cast<CallBase>(&i)) {
            in.op = I::Call;
            if (c->isInlineAsm()) { in.op = I::Nop; if (!t->isVoidTy()) return unsupported(in, i, "inline asm"); return; }
            Value* cv = c->getCalledOperand()->stripPointerCasts();
            if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
            auto* cf = dyn_cast<Function>(cv);
            flat(t, 0, in.slots);
            if (auto* iv = dyn_cast<InvokeInst>(&i)) {
                in.invoke = true;
                in.e0 = edge(i.getParent(), iv->getNormalDest()); in.e1 = edge(i.getParent(), iv->getUnwindDest());
                u32 k = 0; for (auto& x : *iv->getUnwindDest()) { if (isa<PHINode>(x)) continue; break; }
                in.lpPc = bbPc[iv->getUnwindDest()] + k;
            }
            if (cf) {
                in.name = cf->getName().str();
                if (cf->isIntrinsic()) {
                    switch (cf->getIntrinsicID()) {
                    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
                    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
                    case Intrinsic::vaend: case Intrinsic::var_annotation: case Intrinsic::pseudoprobe:
                        in.op = I::Nop; return;
                    case Intrinsic::expect: case Intrinsic::ptr_annotation: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy:
                    case Intrinsic::threadlocal_address: case Intrinsic::expect_with_probability: case Intrinsic::annotation: case Intrinsic::canonicalize: case Intrinsic::arithmetic_fence:
                        in.op = I::Move; addOps(c->getArgOperand(0), in.nslots); return;
                    case Intrinsic::is_constant: in.op = I::Move; in.ops.push_back({-1, {0, nullptr}}); return;
                    case Intrinsic::objectsize: in.op = I::Move; in.ops.push_back({-1, {~0ull, nullptr}}); return;
                    default: break;
                    }
                    auto pos = in.name.find('.', 5);
                    in.name = in.name.substr(0, in.name.size());
                    // strip type suffixes:  llvm.foo.bar.i32 -> match by longest known prefix
                    std::string nm = in.name;
                    while (true) { if (auto* b = X.builtin(nm)) { in.bi = b; break; } auto p = nm.rfind('.'); if (p == std::string::npos || p <= 4) break; nm = nm.substr(0, p); }
                    (void)pos;
                    if (!in.bi) return unsupported(in, i, "intrinsic");
                    in.w2 = c->arg_size() ? (c->getArgOperand(0)->getType()->isSized() ? bits(c->getArgOperand(0)->getType()) : 0) : 0;
                } else {
                    in.callee = X.funcOf[cf];
                }
            } else {
                in.callee = nullptr; in.name = "<indirect>"; in.imm = 1;
            }
            u32 fixed = c->getFunctionType()->getNumParams();
            for (unsigned k = 0; k < c->arg_size(); k++) {
                Value* a = c->getArgOperand(k);
                std::vector<SlotTy> s;
                if (a->getType()->isMetadataTy()) continue;
                in.argStart.push_back(in.argSlotW.size());
                if (!flat(a->getType(), 0, s)) return unsupported(in, i, "argument type");
                for (u32 q = 0; q < s.size(); q++) { in.ops.push_back(op(a, q)); in.argSlotW.push_back(s[q].w); }
                if (c->paramHasAttr(k, Attribute::ByVal)) { in.scales.push_back({k, (u32)DL->getTypeAllocSize(c->getParamByValType(k))}); }
                if (k + 1 == fixed) in.fixedArgs = in.argSlotW.size();
            }
            if (in.imm == 1 && !cf) in.ops.push_back(op(c->getCalledOperand()));
            return;
        }
        if (auto* va = dyn_cast<VAArgInst>(&i)) { (void)va; return unsupported(in, i, "va_arg"); }
        unsupported(in, i, "instruction");
    }
};
}

void Exec::decode(Func* f) {
    Decoder d{*this, f};
    d.run();
}

void* symxGlobalCtors(Module* M);
std::vector<std::pair<unsigned, Function*>> symxCtors(Module* M) {
    std::vector<std::pair<unsigned, Function*>> r;
    if (auto* g = M->getGlobalVariable("llvm.global_ctors"))
        if (auto* a = dyn_cast<ConstantArray>(g->getInitializer()))
            for (auto& e : a->operands()) {
                auto* st = cast<ConstantStruct>(e.get());
                if (auto* f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) r.push_back({(unsigned)cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f});
            }
    std::stable_sort(r.begin(), r.end(), [](auto& a, auto& b) { return a.first < b.first; });
    return r;
}
