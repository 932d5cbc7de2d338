// wsym: a symbolic executor for LLVM IR (KLEE style) specialised for the winpty sources compiled for
// x86_64-w64-mingw32.  Explores every feasible path; branch feasibility, memory bounds and assertions are decided by
// the solver for all values of the symbolic inputs.
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/StringMap.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <sys/resource.h>
#include <unistd.h>

#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>

#include "expr.h"
#include "mem.h"
#include "solver.h"

using namespace llvm;

namespace {

struct Agg { std::vector<Val> v; };
std::deque<Agg> g_aggs;
Val mkAgg(std::vector<Val> v) {
    g_aggs.push_back(Agg{std::move(v)});
    return Val((uint64_t)(uintptr_t)&g_aggs.back());
}
Agg *aggOf(const Val &v) { return (Agg *)(uintptr_t)v.c; }

struct KFunc;
typedef bool Handled;
struct State;
class Exec;
typedef void (Exec::*Builtin)(State &, CallBase *, struct KInst &, std::vector<Val> &);

struct KInst {
    Instruction *I = nullptr;
    unsigned op = 0;
    int dest = -1;
    unsigned w = 0;      // result width in bits (first-class scalar), 0 otherwise
    unsigned ow = 0;     // operand 0 width
    std::vector<int> ops; // >= 0: register; < 0: ~index into constants
    std::vector<uint32_t> succ; // instruction index of successor blocks
    // GEP: constant part and scaled operands
    int64_t gepConst = 0;
    std::vector<std::pair<int, uint64_t>> gepIdx; // operand, scale
    std::vector<unsigned> gepIdxW;
    // call
    Function *callee = nullptr;
    KFunc *kcallee = nullptr;
    int builtin = -1;
    bool executed = false;
};

struct KFunc {
    Function *F;
    std::vector<KInst> insts;
    std::vector<Val> consts;
    std::unordered_map<const BasicBlock *, uint32_t> blockStart;
    unsigned nregs = 0;
    bool entered = false;
};

struct NdNode { // one nondeterministic value, linked to the previous one on the path
    const NdNode *prev;
    const char *name;
    unsigned bits;
    E e;
    uint64_t c;
};

struct LogNode { const LogNode *prev; const char *name; bool reach; E e; uint64_t c; };

struct Frame {
    KFunc *kf = nullptr;
    uint32_t pc = 0;
    const BasicBlock *prevBB = nullptr;
    std::vector<Val> regs;
    std::vector<uint32_t> allocas;
    uint64_t vaAddr = 0;
    int retReg = -1;       // caller register for the result
    bool fromEngine = false; // pushed by the engine: the result is dropped and no caller instruction is waiting
};

struct ExcInfo { uint64_t obj; uint64_t tinfo; uint64_t dtor; int handlers; bool rethrown; };

struct State {
    std::vector<Frame> st;
    Memory mem;
    std::vector<E> cons;
    Model model;
    const NdNode *nd = nullptr;
    unsigned ndCount = 0;
    const LogNode *logs = nullptr;
    std::vector<ExcInfo> excs;
    std::vector<uint64_t> caught;
    uint64_t steps = 0;
    unsigned depth = 0;
    E allocFault = nullptr; // symbolic index of the allocation that fails
    uint64_t allocFaultC = 0;
    bool allocFaultOn = false;
    uint64_t allocCount = 0, allocPeak = 0;
    bool allocSticky = false, allocDown = false;
    bool dead = false;
    std::map<std::string, uint64_t> flags;
};

struct Violation {
    std::string kind, msg, where, stack;
    std::vector<std::tuple<std::string, unsigned, uint64_t>> inputs;
};

struct Sample {
    std::vector<std::tuple<std::string, unsigned, uint64_t>> inputs;
    std::vector<std::pair<std::string, uint64_t>> logs;
};

struct EngineError { std::string msg; };

double nowSec() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

enum BI : int {
    B_malloc = 0, B_calloc, B_realloc, B_free, B_new, B_newNothrow, B_delete, B_memcpy, B_memset, B_memcmp, B_abort,
    B_allocExc, B_throw, B_beginCatch, B_endCatch, B_rethrow, B_freeExc, B_typeid, B_terminate, B_atexit,
    B_nondet, B_symbolic, B_assume, B_assert, B_fail, B_reach, B_stop, B_param, B_log, B_replay, B_concretize,
    B_allocFault, B_isSymbolic, B_objSize, B_throwStd, B_nop, B_vaStart, B_min, B_trap, B_unmodelled, B_live, B_undefined, B_select,
    B_allocCount, B_allocPeak, B_allocSticky, B_getExcPtr, B_unwindResume, B_memchr
};

class Exec {
public:
    LLVMContext ctx;
    std::unique_ptr<Module> M;
    const DataLayout *DL = nullptr;
    Solver solver;
    // options
    std::map<std::string, long long> params;
    double maxSeconds = 600;
    uint64_t maxSteps = 400000000ull;
    uint64_t maxPaths = 10000000;
    unsigned maxViolations = 6;
    bool replay = false;
    bool verbose = false;
    std::vector<std::tuple<std::string, unsigned, uint64_t>> replayVals;
    std::string srcPrefix = "/repo/";
    // results
    uint64_t nPaths = 0, nStopped = 0, nErrPaths = 0, nSteps = 0, nForks = 0, nAsserts = 0, nAssertQueries = 0, maxDepth = 0;
    std::map<std::string, uint64_t> reached;
    std::vector<Violation> violations;
    std::vector<Sample> samples;
    unsigned maxSamples = 10;
    unsigned shard = 0, shards = 1;
    uint64_t prefixHash = 0;
    std::deque<LogNode> logNodes;
    std::set<std::string> violKeys;
    std::string inconclusive;
    double tStart = nowSec();

    std::vector<std::unique_ptr<State>> work;
    std::unordered_map<Function *, std::unique_ptr<KFunc>> kfuncs;
    std::vector<Function *> fnTable;
    std::unordered_map<const GlobalValue *, uint64_t> gaddr;
    std::unordered_map<std::string, int> builtins;
    std::unordered_map<uint64_t, const GlobalVariable *> tinfoByAddr;
    std::map<std::string, uint64_t> extTinfo;
    std::map<uint64_t, std::string> extTinfoName;
    std::map<uint64_t, int> typeIds;
    std::map<std::pair<const char *, unsigned>, E> varOf;
    std::deque<std::string> names;
    std::unordered_map<std::string, const char *> nameIx;
    State *cur = nullptr;

    Exec() : solver(60000) { initBuiltins(); }

    const char *internName(const std::string &s) {
        auto it = nameIx.find(s);
        if (it != nameIx.end()) return it->second;
        names.push_back(s);
        return nameIx[s] = names.back().c_str();
    }

    // ------------------------------------------------------------------ module
    bool load(const std::vector<std::string> &files) {
        for (auto &f : files) {
            SMDiagnostic err;
            auto m = parseIRFile(f, err, ctx);
            if (!m) { err.print("wsym", errs()); return false; }
            if (!M) M = std::move(m);
            else if (Linker::linkModules(*M, std::move(m), Linker::Flags::None)) return false;
        }
        DL = &M->getDataLayout();
        return true;
    }

    void initGlobals(State &s) {
        for (Function &F : *M) {
            fnTable.push_back(&F);
            gaddr[&F] = FN_BASE + fnTable.size() * 16;
        }
        for (GlobalVariable &G : M->globals()) {
            Type *T = G.getValueType();
            uint64_t sz = T->isSized() ? DL->getTypeAllocSize(T).getFixedValue() : 64;
            if (!G.hasInitializer()) sz = std::max<uint64_t>(sz, 64);
            uint64_t a = s.mem.alloc(sz, ObjKind::Global, internName(G.getName().str()), false);
            gaddr[&G] = a;
            if (G.getName().starts_with("_ZTI")) {
                tinfoByAddr[a] = &G;
                if (!G.hasInitializer()) { extTinfo[G.getName().str()] = a; extTinfoName[a] = G.getName().str(); }
            }
        }
        for (auto &A : M->aliases()) {
            if (auto *GO = A.getAliaseeObject()) gaddr[&A] = gaddr[GO];
        }
        for (GlobalVariable &G : M->globals()) {
            if (!G.hasInitializer()) continue;
            uint32_t id = s.mem.idOf(gaddr[&G]);
            MemObj *o = s.mem.getW(id);
            initConst(o, 0, G.getInitializer());
        }
        for (GlobalVariable &G : M->globals())
            if (G.isConstant()) s.mem.getW(s.mem.idOf(gaddr[&G]))->readOnly = true;
    }

    void putBytes(MemObj *o, uint64_t off, uint64_t v, unsigned n) {
        for (unsigned i = 0; i < n; ++i) o->data[off + i] = v >> (8 * i);
    }
    void initConst(MemObj *o, uint64_t off, Constant *C) {
        if (isa<UndefValue>(C) || C->isNullValue()) return;
        Type *T = C->getType();
        if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
            uint64_t es = DL->getTypeAllocSize(CDS->getElementType());
            for (unsigned i = 0; i < CDS->getNumElements(); ++i) initConst(o, off + i * es, CDS->getElementAsConstant(i));
            return;
        }
        if (auto *CA = dyn_cast<ConstantArray>(C)) {
            uint64_t es = DL->getTypeAllocSize(CA->getType()->getElementType());
            for (unsigned i = 0; i < CA->getNumOperands(); ++i) initConst(o, off + i * es, CA->getOperand(i));
            return;
        }
        if (auto *CS = dyn_cast<ConstantStruct>(C)) {
            const StructLayout *SL = DL->getStructLayout(CS->getType());
            for (unsigned i = 0; i < CS->getNumOperands(); ++i) initConst(o, off + SL->getElementOffset(i), CS->getOperand(i));
            return;
        }
        Val v = constVal(C);
        putBytes(o, off, v.c, DL->getTypeStoreSize(T));
    }

    unsigned widthOf(Type *T) {
        if (T->isIntegerTy()) return T->getIntegerBitWidth();
        if (T->isPointerTy()) return 64;
        if (T->isDoubleTy()) return 64;
        if (T->isFloatTy()) return 32;
        return 0;
    }

    // Evaluates a constant to a concrete value (aggregates become Agg).
    Val constVal(const Constant *C) {
        Type *T = C->getType();
        if (auto *CI = dyn_cast<ConstantInt>(C)) {
            if (CI->getBitWidth() > 64) {
                if (CI->getValue().getActiveBits() <= 64) return Val(CI->getValue().getLoBits(64).trunc(64).getZExtValue());
                throw EngineError{"integer constant wider than 64 bits"};
            }
            return Val(CI->getZExtValue());
        }
        if (isa<ConstantPointerNull>(C)) return Val((uint64_t)0);
        if (auto *CF = dyn_cast<ConstantFP>(C)) return Val(CF->getValueAPF().bitcastToAPInt().getZExtValue());
        if (auto *GV = dyn_cast<GlobalValue>(C)) {
            auto it = gaddr.find(GV);
            if (it == gaddr.end()) throw EngineError{"unknown global " + GV->getName().str()};
            return Val(it->second);
        }
        if (T->isStructTy() || T->isArrayTy()) {
            std::vector<Val> v;
            unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
            for (unsigned i = 0; i < n; ++i) v.push_back(constVal(C->getAggregateElement(i)));
            return mkAgg(v);
        }
        if (isa<UndefValue>(C)) return Val((uint64_t)0);
        if (auto *CE = dyn_cast<ConstantExpr>(C)) {
            switch (CE->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0);
                if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) throw EngineError{"constant GEP"};
                return Val(constVal(CE->getOperand(0)).c + off.getSExtValue());
            }
            case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: {
                uint64_t v = constVal(CE->getOperand(0)).c;
                return Val(v & maskOf(widthOf(T)));
            }
            case Instruction::Trunc: return Val(constVal(CE->getOperand(0)).c & maskOf(widthOf(T)));
            case Instruction::Add: return Val((constVal(CE->getOperand(0)).c + constVal(CE->getOperand(1)).c) & maskOf(widthOf(T)));
            case Instruction::Sub: return Val((constVal(CE->getOperand(0)).c - constVal(CE->getOperand(1)).c) & maskOf(widthOf(T)));
            case Instruction::ICmp: {
                uint64_t a = constVal(CE->getOperand(0)).c, b = constVal(CE->getOperand(1)).c;
                switch (CE->getPredicate()) {
                case CmpInst::ICMP_EQ: return Val((uint64_t)(a == b));
                case CmpInst::ICMP_NE: return Val((uint64_t)(a != b));
                default: break;
                }
                break;
            }
            default: break;
            }
            throw EngineError{std::string("constant expression ") + CE->getOpcodeName()};
        }
        if (T->isVectorTy()) throw EngineError{"vector constant"};
        throw EngineError{"unsupported constant"};
    }

    KFunc *decode(Function *F) {
        auto it = kfuncs.find(F);
        if (it != kfuncs.end()) return it->second.get();
        auto kf = std::make_unique<KFunc>();
        kf->F = F;
        DenseMap<const Value *, int> reg;
        for (auto &A : F->args()) reg[&A] = kf->nregs++;
        uint32_t n = 0;
        for (auto &BB : *F) {
            kf->blockStart[&BB] = n;
            for (auto &I : BB) {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                if (!I.getType()->isVoidTy()) reg[&I] = kf->nregs++;
                ++n;
            }
        }
        auto operand = [&](const Value *V) -> int {
            if (auto *C = dyn_cast<Constant>(V)) {
                kf->consts.push_back(constVal(C));
                return ~(int)(kf->consts.size() - 1);
            }
            auto r = reg.find(V);
            if (r != reg.end()) return r->second;
            kf->consts.push_back(Val((uint64_t)0)); // metadata, inline asm, block
            return ~(int)(kf->consts.size() - 1);
        };
        for (auto &BB : *F) {
            for (auto &I : BB) {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                kf->insts.emplace_back();
                KInst &k = kf->insts.back();
                k.I = &I;
                k.op = I.getOpcode();
                if (!I.getType()->isVoidTy()) { k.dest = reg[&I]; k.w = widthOf(I.getType()); }
                if (I.getNumOperands()) k.ow = widthOf(I.getOperand(0)->getType());
                if (auto *GEP = dyn_cast<GetElementPtrInst>(&I)) {
                    k.ops.push_back(operand(GEP->getPointerOperand()));
                    for (auto gi = gep_type_begin(GEP), ge = gep_type_end(GEP); gi != ge; ++gi) {
                        if (StructType *ST = gi.getStructTypeOrNull()) {
                            k.gepConst += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue());
                        } else {
                            uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
                            if (auto *CI = dyn_cast<ConstantInt>(gi.getOperand())) k.gepConst += CI->getSExtValue() * (int64_t)sz;
                            else {
                                k.gepIdx.push_back({operand(gi.getOperand()), sz});
                                k.gepIdxW.push_back(widthOf(gi.getOperand()->getType()));
                            }
                        }
                    }
                    continue;
                }
                if (auto *P = dyn_cast<PHINode>(&I)) {
                    for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) k.ops.push_back(operand(P->getIncomingValue(i)));
                    continue;
                }
                if (auto *CB = dyn_cast<CallBase>(&I)) {
                    for (unsigned i = 0; i < CB->arg_size(); ++i) {
                        Value *A = CB->getArgOperand(i);
                        if (A->getType()->isMetadataTy()) { k.ops.push_back(operand(A)); continue; }
                        k.ops.push_back(operand(A));
                    }
                    Value *cv = CB->getCalledOperand()->stripPointerCasts();
                    if (auto *GA = dyn_cast<GlobalAlias>(cv)) cv = const_cast<GlobalObject *>(GA->getAliaseeObject());
                    k.callee = dyn_cast<Function>(cv);
                    if (!k.callee) k.ops.push_back(operand(CB->getCalledOperand()));
                    if (auto *II = dyn_cast<InvokeInst>(&I)) {
                        k.succ.push_back(kf->blockStart[II->getNormalDest()]);
                        k.succ.push_back(kf->blockStart[II->getUnwindDest()]);
                    }
                    if (k.callee) {
                        auto b = builtins.find(k.callee->getName().str());
                        if (b != builtins.end()) k.builtin = b->second;
                    }
                    continue;
                }
                if (isa<LandingPadInst>(I)) continue;
                for (Value *V : I.operands()) {
                    if (auto *B = dyn_cast<BasicBlock>(V)) { (void)B; continue; }
                    k.ops.push_back(operand(V));
                }
                if (auto *B = dyn_cast<BranchInst>(&I)) {
                    for (unsigned i = 0; i < B->getNumSuccessors(); ++i) k.succ.push_back(kf->blockStart[B->getSuccessor(i)]);
                } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
                    k.ops.resize(1);
                    k.ops[0] = operand(S->getCondition());
                    k.succ.push_back(kf->blockStart[S->getDefaultDest()]);
                }
            }
        }
        KFunc *r = kf.get();
        kfuncs[F] = std::move(kf);
        return r;
    }

    // ------------------------------------------------------------------ helpers
    std::string locOf(const Instruction *I) {
        if (const DebugLoc &d = I->getDebugLoc()) {
            std::string f = cast<DIScope>(d.getScope())->getFilename().str();
            return f + ":" + std::to_string(d.getLine());
        }
        return I->getFunction()->getName().str();
    }
    std::string where(State &s) {
        // The innermost frame that lies in the sources under test, else the innermost frame.
        std::string first;
        for (size_t i = s.st.size(); i-- > 0;) {
            Frame &f = s.st[i];
            uint32_t pc = f.pc;
            if (pc >= f.kf->insts.size()) pc = f.kf->insts.size() - 1;
            std::string l = locOf(f.kf->insts[pc].I);
            if (first.empty()) first = l;
            if (l.compare(0, srcPrefix.size(), srcPrefix) == 0) return l;
        }
        return first;
    }
    std::string stackStr(State &s) {
        std::string r;
        int n = 0;
        for (size_t i = s.st.size(); i-- > 0 && n < 14; ++n) {
            Frame &f = s.st[i];
            uint32_t pc = std::min<uint32_t>(f.pc, f.kf->insts.size() - 1);
            r += f.kf->F->getName().str() + " (" + locOf(f.kf->insts[pc].I) + ")\n";
        }
        return r;
    }

    Val get(State &s, int o) {
        Frame &f = s.st.back();
        return o >= 0 ? f.regs[o] : f.kf->consts[~o];
    }
    void setReg(State &s, const KInst &k, Val v) {
        if (k.dest >= 0) s.st.back().regs[k.dest] = v;
    }

    void addCons(State &s, E c) {
        if (isC(c)) { if (!c->c) throw EngineError{"added a false constraint"}; return; }
        if (c->op == Op::And && c->width == 1) { addCons(s, c->k[0]); addCons(s, c->k[1]); return; }
        if (c->width == 1 && c->op == Op::Xor && isC(c->k[1]) && c->k[0]->op == Op::Or) { addCons(s, mkNot(c->k[0]->k[0])); addCons(s, mkNot(c->k[0]->k[1])); return; }
        s.cons.push_back(c);
    }
    // The value of a condition that the path has decided word for word: 1, 0 or -1.
    int known(State &s, E c) {
        if (isC(c)) return (int)c->c;
        E n = mkNot(c);
        for (E k : s.cons) { if (k == c) return 1; if (k == n) return 0; }
        return -1;
    }
    // Simplifies a value by the choices that the path has made.
    E settle(State &s, E e, int depth) {
        if (depth == 0) return e;
        switch (e->op) {
        case Op::Ite: {
            int c = known(s, e->k[0]);
            if (c >= 0) return settle(s, e->k[c ? 1 : 2], depth);
            E a = settle(s, e->k[1], depth - 1), b = settle(s, e->k[2], depth - 1);
            return a == e->k[1] && b == e->k[2] ? e : mkIte(e->k[0], a, b);
        }
        case Op::Add: case Op::Sub: case Op::Concat: case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle: {
            E a = settle(s, e->k[0], depth - 1), b = settle(s, e->k[1], depth - 1);
            return a == e->k[0] && b == e->k[1] ? e : e->op == Op::Concat ? mkConcat(a, b) : mkBin(e->op, a, b);
        }
        case Op::ZExt: case Op::SExt: case Op::Extract: {
            E a = settle(s, e->k[0], depth - 1);
            return a == e->k[0] ? e : e->op == Op::ZExt ? mkZExt(a, e->width) : e->op == Op::SExt ? mkSExt(a, e->width) : mkExtract(a, (unsigned)e->c, e->width);
        }
        default: return e;
        }
    }
    Val settle(State &s, const Val &v) {
        if (v.conc()) return v;
        E e = settle(s, v.e, 10);
        return isC(e) ? Val(e->c) : Val(e);
    }
    // Is `c` satisfiable together with the path?
    bool feasible(State &s, E c, Model *m) {
        if (isC(c)) { if (c->c && m) *m = s.model; return c->c; }
        if (evalExpr(c, s.model)) { if (m) *m = s.model; return true; }
        Sat r = solver.check(s.cons, c, s.model, m);
        if (r == Sat::Unknown) throw EngineError{"solver gave no answer (time limit) at " + where(s)};
        return r == Sat::Sat;
    }
    std::unique_ptr<State> fork(State &s) {
        ++nForks;
        auto n = std::make_unique<State>(s);
        n->depth = ++s.depth;
        maxDepth = std::max<uint64_t>(maxDepth, n->depth);
        return n;
    }
    // Decides a symbolic condition for the current state; the other side, if feasible, becomes a new state that
    // re-executes the current instruction.  Must run before any side effect of the instruction.
    bool decide(State &s, E c) {
        if (isC(c)) return c->c;
        c = settle(s, c, 10);
        if (isC(c)) return c->c;
        bool v = evalExpr(c, s.model);
        E other = v ? mkNot(c) : c;
        Model m;
        if (feasible(s, other, &m)) {
            auto n = fork(s);
            n->model = std::move(m);
            addCons(*n, other);
            work.push_back(std::move(n));
            addCons(s, v ? c : mkNot(c));
        }
        return v;
    }
    uint64_t concretize(State &s, const Val &x0, unsigned w) {
        const Val x = settle(s, x0);
        if (x.conc()) return x.c;
        uint64_t v = evalExpr(x.e, s.model);
        E c = mkEq(x.e, mkConst(v, w));
        if (isC(c)) return v;
        Model m;
        if (feasible(s, mkNot(c), &m)) {
            auto n = fork(s);
            n->model = std::move(m);
            addCons(*n, mkNot(c));
            work.push_back(std::move(n));
            addCons(s, c);
        }
        return v;
    }

    void report(State &s, const std::string &kind, const std::string &msg, const Model &m) {
        Violation v;
        v.kind = kind;
        v.msg = msg;
        v.where = where(s);
        v.stack = stackStr(s);
        std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : v.where);
        if (!violKeys.insert(key).second) return;
        std::vector<const NdNode *> l;
        for (const NdNode *n = s.nd; n; n = n->prev) l.push_back(n);
        for (size_t i = l.size(); i-- > 0;)
            v.inputs.push_back({l[i]->name, l[i]->bits, l[i]->e ? evalExpr(l[i]->e, m) : l[i]->c});
        violations.push_back(std::move(v));
        if (verbose) fprintf(stderr, "violation %s: %s at %s\n%s", kind.c_str(), msg.c_str(), violations.back().where.c_str(), violations.back().stack.c_str());
    }
    struct PathEnd {};
    [[noreturn]] void errorPath(State &s, const std::string &kind, const std::string &msg) {
        report(s, kind, msg, s.model);
        ++nErrPaths;
        s.dead = true;
        throw PathEnd{};
    }
    [[noreturn]] void endPath(State &s) { s.dead = true; throw PathEnd{}; }

    // ------------------------------------------------------------------ memory
    // Resolves an access of n bytes.  Returns the object id; *off is the offset (symbolic or concrete).
    uint32_t resolve(State &s, const Val &addr, uint64_t n, Val *off, bool write) {
        uint64_t a = addr.conc() ? addr.c : evalExpr(addr.e, s.model);
        int64_t id = s.mem.idOf(a);
        const MemObj *o = id >= 0 ? s.mem.get(id) : nullptr;
        uint64_t o0 = id >= 0 ? a - Memory::addrOf(id) : 0;
        bool ok = o && o0 <= o->size() && n <= o->size() - o0 && (int64_t)o0 >= 0;
        const char *rw = write ? "write" : "read";
        if (!ok) {
            if (a < 0x10000) errorPath(s, "memory", std::string("null-pointer ") + rw);
            if (id >= 0 && !o) errorPath(s, "memory", std::string(rw) + " of a freed object");
            errorPath(s, "memory", std::string("out-of-bounds ") + rw + (o ? std::string(" of ") + std::to_string(n) + " bytes at offset " +
                std::to_string((int64_t)o0) + " of a " + std::to_string(o->size()) + "-byte object " + o->name : ""));
        }
        if (addr.conc()) {
            *off = Val(o0);
        } else {
            E offE = mkBin(Op::Sub, addr.e, mkConst(Memory::addrOf(id), 64));
            E inb = mkBin(Op::Ule, offE, mkConst(o->size() - n, 64));
            if (!isC(inb)) {
                Model m;
                if (feasible(s, mkNot(inb), &m)) {
                    auto f = fork(s);
                    f->model = std::move(m);
                    addCons(*f, mkNot(inb));
                    work.push_back(std::move(f));
                    addCons(s, inb);
                }
            }
            *off = Val(offE);
        }
        if (write && o->readOnly) errorPath(s, "memory", std::string("write to constant object ") + o->name);
        return id;
    }

    E byteAt(State &s, uint32_t id, uint64_t off) {
        const MemObj *o = s.mem.get(id);
        if (o->sym.empty() || !o->sym[off]) return mkConst(o->data[off], 8);
        if (o->sym[off] == UNDEF_BYTE) {
            // Uninitialised memory holds an arbitrary value, the same at every later read.
            E v = freshUninit(s, o);
            s.mem.getW(id)->sym[off] = v;
            return v;
        }
        return o->sym[off];
    }
    uint64_t uninitReads = 0;
    E freshUninit(State &, const MemObj *o) {
        ++uninitReads;
        return mkVar(std::string("uninit:") + o->name, 8);
    }
    Val readAt(State &s, uint32_t id, uint64_t off, unsigned bytes) {
        const MemObj *o = s.mem.get(id);
        bool conc = true;
        if (!o->sym.empty())
            for (unsigned i = 0; i < bytes; ++i)
                if (o->sym[off + i]) { conc = false; break; }
        if (conc) {
            uint64_t v = 0;
            memcpy(&v, &o->data[off], bytes);
            return Val(v);
        }
        E r = byteAt(s, id, off);
        for (unsigned i = 1; i < bytes; ++i) r = mkConcat(byteAt(s, id, off + i), r);
        return Val(r);
    }
    void writeAt(State &s, uint32_t id, uint64_t off, const Val &v, unsigned bytes) {
        MemObj *o = s.mem.getW(id);
        if (v.conc()) {
            memcpy(&o->data[off], &v.c, bytes);
            if (!o->sym.empty()) for (unsigned i = 0; i < bytes; ++i) o->sym[off + i] = nullptr;
        } else {
            if (o->sym.empty()) o->sym.assign(o->size(), nullptr);
            for (unsigned i = 0; i < bytes; ++i) {
                E b = mkExtract(v.e, 8 * i, 8);
                if (isC(b)) { o->data[off + i] = b->c; o->sym[off + i] = nullptr; }
                else o->sym[off + i] = b;
            }
        }
    }
    // Offsets an expression can take: c0 + k * stride.
    static uint64_t gcd(uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; }
    static void strideOf(E e, uint64_t &stride, uint64_t &c0, int depth = 0) {
        stride = 1; c0 = 0;
        if (isC(e)) { stride = 0; c0 = e->c; return; }
        if (depth > 40) return;
        uint64_t s1, c1, s2, c2;
        switch (e->op) {
        case Op::Add:
            strideOf(e->k[0], s1, c1, depth + 1); strideOf(e->k[1], s2, c2, depth + 1);
            stride = gcd(s1, s2); c0 = c1 + c2; break;
        case Op::Mul:
            if (isC(e->k[1])) {
                E x = e->k[0];
                uint64_t c = e->k[1]->c, m = maskOf(e->width);
                bool noWrap = x->umax <= m / std::max<uint64_t>(c, 1) || (x->op == Op::SExt && x->k[0]->width <= 32 && e->width == 64 && c < (1u << 20));
                strideOf(x, s1, c1, depth + 1);
                if (noWrap && s1 < (1u << 20) && c < (1u << 20)) { stride = s1 * c; c0 = c1 * c; }
                else { stride = (c & (0 - c)); c0 = 0; }
            }
            break;
        case Op::Shl:
            if (isC(e->k[1]) && e->k[1]->c < 20) {
                strideOf(e->k[0], s1, c1, depth + 1);
                uint64_t p = s1 ? s1 & (0 - s1) : 0;
                stride = (s1 == p || (e->k[0]->umax >> (e->width - 1 - e->k[1]->c)) == 0 ? s1 : p) << e->k[1]->c;
                c0 = c1 << e->k[1]->c;
                if (stride > (1ull << 32)) { stride = 1; c0 = 0; }
            }
            break;
        case Op::ZExt: {
            // Wrap-around at the narrow width keeps only the power-of-two part of the stride.
            strideOf(e->k[0], s1, c1, depth + 1);
            E x = e->k[0];
            bool noWrap = x->op == Op::Mul && isC(x->k[1]) && x->k[1]->c && x->k[0]->umax <= maskOf(x->width) / x->k[1]->c;
            stride = s1 ? (noWrap ? s1 : s1 & (0 - s1)) : 0;
            c0 = c1;
            break;
        }
        case Op::Concat:
            if (isC(e->k[1])) { stride = 1ull << e->k[1]->width; c0 = e->k[1]->c; }
            else {
                strideOf(e->k[1], s2, c2, depth + 1);
                stride = s2 ? gcd(s2 & (0 - s2), 1ull << e->k[1]->width) : 1ull << e->k[1]->width; c0 = c2;
            }
            break;
        case Op::Ite:
            strideOf(e->k[1], s1, c1, depth + 1); strideOf(e->k[2], s2, c2, depth + 1);
            stride = gcd(gcd(s1, s2), c1 > c2 ? c1 - c2 : c2 - c1); c0 = c1;
            if (stride > (1ull << 32)) { stride = 1; c0 = 0; }
            break;
        default:
            stride = ~e->zeros ? (1ull << __builtin_ctzll(~e->zeros)) : 0;
            if (stride == 0) stride = 1;
            c0 = 0;
        }
    }
    // The constants an if-then-else tree can evaluate to (sums of such trees and constants included).
    struct Leaves { bool ok = false; std::vector<uint64_t> v; };
    std::unordered_map<E, Leaves> leafCache;
    const Leaves &leavesOf(E e) {
        auto it = leafCache.find(e);
        if (it != leafCache.end()) return it->second;
        Leaves r;
        if (isC(e)) { r.ok = true; r.v = {e->c}; }
        else if (e->op == Op::Ite) {
            Leaves a = leavesOf(e->k[1]);
            if (a.ok) {
                const Leaves &b = leavesOf(e->k[2]);
                if (b.ok) {
                    std::set_union(a.v.begin(), a.v.end(), b.v.begin(), b.v.end(), std::back_inserter(r.v));
                    r.ok = r.v.size() <= 600;
                }
            }
        } else if (e->op == Op::Add || e->op == Op::Sub) {
            if (isC(e->k[1])) {
                const Leaves &a = leavesOf(e->k[0]);
                r.ok = a.ok;
                for (uint64_t x : a.v) r.v.push_back((e->op == Op::Add ? x + e->k[1]->c : x - e->k[1]->c) & maskOf(e->width));
                std::sort(r.v.begin(), r.v.end());
            }
        }
        if (!r.ok) r.v.clear();
        return leafCache[e] = std::move(r);
    }
    bool candidates(E off, uint64_t maxOff, std::vector<uint64_t> &out, size_t limit) {
        const Leaves &lv = leavesOf(off);
        if (lv.ok) {
            for (uint64_t x : lv.v) if (x <= maxOff) out.push_back(x);
            return !out.empty();
        }
        uint64_t st, c0;
        strideOf(off, st, c0);
        if (st == 0) st = 1;
        uint64_t lo = std::min(off->umin, maxOff + 1), hi = std::min(off->umax, maxOff);
        if ((hi - lo) / std::max<uint64_t>(st, 1) > limit * 4) return false;
        uint64_t r = (uint64_t)((((int64_t)c0 % (int64_t)st) + (int64_t)st) % (int64_t)st);
        uint64_t start = lo + ((r + st - lo % st) % st);
        for (uint64_t p = start; p <= hi; p += st) {
            if (p & off->zeros) continue;
            out.push_back(p);
            if (out.size() > limit) return false;
        }
        return true;
    }
    E readTree(E off, const std::vector<uint64_t> &pos, const std::vector<E> &vals, size_t a, size_t b) {
        bool same = true;
        for (size_t i = a + 1; i < b; ++i) if (vals[i] != vals[a]) { same = false; break; }
        if (same) return vals[a];
        if (b - a <= 3) {
            E r = vals[b - 1];
            for (size_t i = b - 1; i-- > a;) r = mkIte(mkEq(off, mkConst(pos[i], 64)), vals[i], r);
            return r;
        }
        size_t m = (a + b) / 2;
        return mkIte(mkBin(Op::Ult, off, mkConst(pos[m], 64)), readTree(off, pos, vals, a, m), readTree(off, pos, vals, m, b));
    }
    // A pointer read from a table is an if-then-else tree over addresses: split the path by its value.
    bool forkPtrs = true;
    Val pickPtr(State &s, const Val &addr) {
        if (addr.conc() || !forkPtrs) return addr;
        const Leaves &lv = leavesOf(addr.e);
        if (!lv.ok) return addr;
        return Val(concretize(s, addr, 64));
    }
    Val load(State &s, const Val &addr0, unsigned bytes) {
        Val off, addr = pickPtr(s, addr0);
        uint32_t id = resolve(s, addr, bytes, &off, false);
        if (off.conc()) return readAt(s, id, off.c, bytes);
        const MemObj *o = s.mem.get(id);
        std::vector<uint64_t> pos;
        if (!candidates(off.e, o->size() - bytes, pos, 4096)) {
            uint64_t v = concretize(s, off, 64);
            return readAt(s, id, v, bytes);
        }
        std::vector<E> vals;
        unsigned sym = 0;
        for (uint64_t p : pos) { vals.push_back(toE(readAt(s, id, p, bytes), bytes * 8)); sym += !isC(vals.back()); }
        // A choice of few places in symbolic data stands for branches that the compiler merged: split the path again.
        if (sym > 1 && pos.size() <= 8 && leavesOf(off.e).ok) return readAt(s, id, concretize(s, off, 64), bytes);
        if (pos.empty()) throw EngineError{"no candidate offset"};
        return Val(readTree(off.e, pos, vals, 0, pos.size()));
    }
    void store(State &s, const Val &addr0, const Val &v, unsigned bytes) {
        Val off, addr = pickPtr(s, addr0);
        uint32_t id = resolve(s, addr, bytes, &off, true);
        if (off.conc()) { writeAt(s, id, off.c, v, bytes); return; }
        const MemObj *o = s.mem.get(id);
        std::vector<uint64_t> pos;
        if (!candidates(off.e, o->size() - bytes, pos, 300)) {
            uint64_t p = concretize(s, off, 64);
            writeAt(s, id, p, v, bytes);
            return;
        }
        for (uint64_t p : pos) {
            E c = mkEq(off.e, mkConst(p, 64));
            E old = toE(readAt(s, id, p, bytes), bytes * 8);
            writeAt(s, id, p, Val(mkIte(c, toE(v, bytes * 8), old)), bytes);
        }
    }
    std::string cstr(State &s, const Val &p) {
        std::string r;
        for (uint64_t a = concretize(s, p, 64);; ++a) {
            int64_t id = s.mem.idOf(a);
            if (id < 0 || !s.mem.get(id)) return r;
            const MemObj *o = s.mem.get(id);
            uint64_t off = a - Memory::addrOf(id);
            if (off >= o->size() || (!o->sym.empty() && o->sym[off])) return r;
            if (!o->data[off]) return r;
            r += (char)o->data[off];
        }
    }

    // ------------------------------------------------------------------ calls
    void pushFrame(State &s, KFunc *kf, const std::vector<Val> &args, int retReg, bool fromEngine) {
        if (s.st.size() > 2000) errorPath(s, "stack", "call depth exceeds 2000");
        kf->entered = true;
        s.st.emplace_back();
        Frame &f = s.st.back();
        f.kf = kf;
        f.regs.resize(kf->nregs);
        unsigned np = kf->F->arg_size();
        for (unsigned i = 0; i < np && i < args.size(); ++i) f.regs[i] = args[i];
        f.retReg = retReg;
        f.fromEngine = fromEngine;
        if (kf->F->isVarArg()) {
            unsigned extra = args.size() > np ? args.size() - np : 0;
            uint64_t a = s.mem.alloc(std::max(8u, extra * 8), ObjKind::VarArg, "varargs", false);
            uint32_t id = s.mem.idOf(a);
            for (unsigned i = 0; i < extra; ++i) {
                Val v = args[np + i];
                if (v.e && v.e->width < 64) v = Val(mkZExt(v.e, 64));
                writeAt(s, id, i * 8, v, 8);
            }
            f.vaAddr = a;
            f.allocas.push_back(id);
        }
    }
    void popFrame(State &s) {
        for (uint32_t id : s.st.back().allocas) s.mem.release(id);
        s.st.pop_back();
    }
    void gotoBlock(State &s, uint32_t target, const BasicBlock *from) {
        Frame &f = s.st.back();
        f.prevBB = from;
        f.pc = target;
        // Evaluate the phis of the block together.
        uint32_t p = target;
        Val tmp[64];
        uint32_t n = 0;
        while (f.kf->insts[p + n].op == Instruction::PHI) {
            KInst &k = f.kf->insts[p + n];
            int ix = cast<PHINode>(k.I)->getBasicBlockIndex(from);
            if (n >= 64) throw EngineError{"too many phis"};
            tmp[n] = get(s, k.ops[ix]);
            k.executed = true;
            ++n;
        }
        for (uint32_t i = 0; i < n; ++i) f.regs[f.kf->insts[p + i].dest] = tmp[i];
        f.pc = p + n;
    }
    // Called when a callee returned normally: continue the caller after its call or invoke.
    void resumeCaller(State &s) {
        Frame &f = s.st.back();
        KInst &k = f.kf->insts[f.pc];
        if (k.op == Instruction::Invoke) gotoBlock(s, k.succ[0], k.I->getParent());
        else ++f.pc;
    }

    // ------------------------------------------------------------------ exceptions
    std::string tinfoName(uint64_t a) {
        auto it = tinfoByAddr.find(a);
        if (it != tinfoByAddr.end()) return it->second->getName().str();
        auto e = extTinfoName.find(a);
        return e == extTinfoName.end() ? "?" : e->second;
    }
    static std::vector<std::string> stdBases(const std::string &n) {
        static const std::map<std::string, std::string> b = {
            {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
            {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
            {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
            {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
            {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
            {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}};
        auto it = b.find(n);
        if (it == b.end()) return {};
        return {it->second};
    }
    bool derives(const std::string &t, const std::string &base, int depth = 0) {
        if (t == base) return true;
        if (depth > 20) return false;
        for (auto &b : stdBases(t)) if (derives(b, base, depth + 1)) return true;
        GlobalVariable *G = M->getGlobalVariable(t, true);
        if (!G || !G->hasInitializer()) return false;
        auto *CS = dyn_cast<ConstantStruct>(G->getInitializer());
        if (!CS) return false;
        for (unsigned i = 1; i < CS->getNumOperands(); ++i) {
            auto *B = dyn_cast<GlobalVariable>(CS->getOperand(i)->stripPointerCasts());
            if (B && B->getName().starts_with("_ZTI") && derives(B->getName().str(), base, depth + 1)) return true;
        }
        return false;
    }
    int typeId(uint64_t tinfo) {
        auto it = typeIds.find(tinfo);
        if (it != typeIds.end()) return it->second;
        int n = typeIds.size() + 1;
        typeIds[tinfo] = n;
        return n;
    }
    uint64_t stdTinfo(const std::string &n) {
        if (GlobalVariable *G = M->getGlobalVariable(n, true)) return gaddr[G];
        auto it = extTinfo.find(n);
        if (it != extTinfo.end()) return it->second;
        uint64_t a = 0x7000000000000000ull + extTinfo.size() * 256;
        extTinfo[n] = a;
        extTinfoName[a] = n;
        return a;
    }
    ExcInfo *findExc(State &s, uint64_t obj) {
        for (auto &e : s.excs) if (e.obj == obj) return &e;
        return nullptr;
    }
    // The current frame's instruction (or an inner frame already popped) raised `obj`.
    void unwind(State &s, uint64_t obj, bool popFirst) {
        ExcInfo *e = findExc(s, obj);
        if (!e) throw EngineError{"unknown exception object"};
        std::string t = tinfoName(e->tinfo);
        if (popFirst) popTop(s, t);
        while (true) {
            Frame &f = s.st.back();
            KInst &k = f.kf->insts[f.pc];
            if (k.op == Instruction::Invoke) {
                const BasicBlock *lpBB = cast<InvokeInst>(k.I)->getUnwindDest();
                LandingPadInst *lp = const_cast<LandingPadInst *>(lpBB->getLandingPadInst());
                int sel = -1;
                for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; ++i) {
                    if (lp->isCatch(i)) {
                        Constant *c = lp->getClause(i);
                        if (c->isNullValue()) { sel = typeId(0); break; }
                        uint64_t ti = constVal(c).c;
                        if (derives(t, tinfoName(ti))) sel = typeId(ti);
                    } else {
                        throw EngineError{"exception filter"};
                    }
                }
                if (sel < 0 && lp->isCleanup()) sel = 0;
                if (sel >= 0) {
                    gotoBlock(s, k.succ[1], k.I->getParent());
                    Frame &g = s.st.back();
                    KInst &lk = g.kf->insts[g.pc];
                    lk.executed = true;
                    g.regs[lk.dest] = mkAgg({Val(obj), Val((uint64_t)sel)});
                    ++g.pc;
                    return;
                }
            }
            popTop(s, t);
        }
    }
    void popTop(State &s, const std::string &t) {
        if (s.st.size() <= 1 || s.st.back().fromEngine) errorPath(s, "exception", "uncaught exception of type " + t);
        popFrame(s);
    }
    void throwStd(State &s, const std::string &tname) {
        uint64_t a = s.mem.alloc(64, ObjKind::Exc, "std exception", false);
        s.excs.push_back(ExcInfo{a, stdTinfo(tname), 0, 0, false});
        unwind(s, a, false);
    }

    // ------------------------------------------------------------------ builtins
    void initBuiltins() {
        auto &b = builtins;
        for (auto n : {"malloc"}) b[n] = B_malloc;
        b["calloc"] = B_calloc; b["realloc"] = B_realloc; b["free"] = B_free;
        for (auto n : {"_Znwy", "_Znay", "_Znwm", "_Znam"}) b[n] = B_new;
        for (auto n : {"_ZnwyRKSt9nothrow_t", "_ZnayRKSt9nothrow_t"}) b[n] = B_newNothrow;
        for (auto n : {"_ZdlPv", "_ZdlPvy", "_ZdaPv", "_ZdaPvy", "_ZdlPvm", "_ZdaPvm"}) b[n] = B_delete;
        for (auto n : {"memcpy", "memmove"}) b[n] = B_memcpy;
        b["memset"] = B_memset; b["memcmp"] = B_memcmp;
        b["memchr"] = B_memchr;
        for (auto n : {"abort", "__assert_fail", "_ZSt9terminatev", "__cxa_pure_virtual", "_assert", "_wassert"}) b[n] = B_abort;
        b["__cxa_allocate_exception"] = B_allocExc; b["__cxa_throw"] = B_throw; b["__cxa_begin_catch"] = B_beginCatch;
        b["__cxa_end_catch"] = B_endCatch; b["__cxa_rethrow"] = B_rethrow; b["__cxa_free_exception"] = B_freeExc;
        b["__cxa_get_exception_ptr"] = B_getExcPtr;
        for (auto n : {"atexit", "__cxa_atexit", "_onexit"}) b[n] = B_atexit;
        b["wsym_nondet"] = B_nondet; b["wsym_symbolic"] = B_symbolic; b["wsym_assume"] = B_assume; b["wsym_assert"] = B_assert;
        b["wsym_fail"] = B_fail; b["wsym_reach"] = B_reach; b["wsym_stop"] = B_stop; b["wsym_param"] = B_param;
        b["wsym_log"] = B_log; b["wsym_replay"] = B_replay; b["wsym_concretize"] = B_concretize;
        b["wsym_alloc_fault"] = B_allocFault; b["wsym_is_symbolic"] = B_isSymbolic; b["wsym_obj_size"] = B_objSize;
        b["wsym_live"] = B_live; b["wsym_unmodelled"] = B_unmodelled; b["wsym_alloc_count"] = B_allocCount; b["wsym_alloc_peak"] = B_allocPeak; b["wsym_alloc_sticky"] = B_allocSticky;
        for (auto n : {"_ZSt20__throw_length_errorPKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt19__throw_logic_errorPKc",
                 "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt20__throw_out_of_rangePKc",
                 "_ZSt25__throw_bad_function_callv", "_ZSt24__throw_invalid_argumentPKc", "_ZSt16__throw_bad_castv"}) b[n] = B_throwStd;
    }

    // Fault injection: does this allocation fail?
    bool allocFails(State &s) {
        if (!s.allocFaultOn) return false;
        bool f;
        if (s.allocFault) f = decide(s, mkEq(s.allocFault, mkConst(s.allocCount, s.allocFault->width)));
        else f = s.allocFaultC == s.allocCount;
        if (s.allocSticky) { if (s.allocDown) f = true; else if (f) s.allocDown = true; }
        ++s.allocCount;
        return f;
    }
    Val doAlloc(State &s, uint64_t n, const char *name) {
        if (n > (1ull << 28)) return Val((uint64_t)0);
        return Val(s.mem.alloc(n, ObjKind::Heap, name, true));
    }
    void doFree(State &s, const Val &p, ObjKind kind) {
        uint64_t a = concretize(s, p, 64);
        if (a == 0) return;
        int64_t id = s.mem.idOf(a);
        if (id < 0 || Memory::addrOf(id) != a) errorPath(s, "memory", "free of a pointer that is not the start of an object");
        const MemObj *o = s.mem.get(id);
        if (!o) errorPath(s, "memory", "double free");
        if (o->kind != kind && !(kind == ObjKind::Heap && o->kind == ObjKind::Array)) errorPath(s, "memory", "free of a non-heap object");
        s.mem.release(id);
    }
    void doMemcpy(State &s, const Val &d, const Val &sr, const Val &n, unsigned nw) {
        uint64_t len = concretize(s, n, nw);
        if (len == 0) return;
        Val so, dd;
        Val dA = d, sA = sr;
        if (!d.conc()) dA = Val(concretize(s, d, 64));
        if (!sr.conc()) sA = Val(concretize(s, sr, 64));
        uint32_t sid = resolve(s, sA, len, &so, false);
        uint32_t did = resolve(s, dA, len, &dd, true);
        ObjRef keep;
        const MemObj *so_ = s.mem.get(sid);
        // Copy through temporaries: the ranges may overlap.
        std::vector<uint8_t> bytes(so_->data.begin() + so.c, so_->data.begin() + so.c + len);
        std::vector<E> sy;
        if (!so_->sym.empty()) sy.assign(so_->sym.begin() + so.c, so_->sym.begin() + so.c + len);
        MemObj *o = s.mem.getW(did);
        memcpy(&o->data[dd.c], bytes.data(), len);
        if (!sy.empty()) {
            if (o->sym.empty()) o->sym.assign(o->size(), nullptr);
            std::copy(sy.begin(), sy.end(), o->sym.begin() + dd.c);
        } else if (!o->sym.empty()) {
            std::fill(o->sym.begin() + dd.c, o->sym.begin() + dd.c + len, nullptr);
        }
    }
    void doMemset(State &s, const Val &d, const Val &c, const Val &n, unsigned nw) {
        uint64_t len = concretize(s, n, nw);
        if (len == 0) return;
        Val dd, dA = d;
        if (!d.conc()) dA = Val(concretize(s, d, 64));
        uint32_t did = resolve(s, dA, len, &dd, true);
        MemObj *o = s.mem.getW(did);
        if (c.conc()) {
            memset(&o->data[dd.c], (int)c.c, len);
            if (!o->sym.empty()) std::fill(o->sym.begin() + dd.c, o->sym.begin() + dd.c + len, nullptr);
        } else {
            E b = mkExtract(c.e, 0, 8);
            for (uint64_t i = 0; i < len; ++i) writeAt(s, did, dd.c + i, Val(b), 1);
        }
    }
    const NdNode *addNd(State &s, const char *name, unsigned bits, E e, uint64_t c) {
        s.nd = new NdNode{s.nd, name, bits, e, c};
        ++s.ndCount;
        return s.nd;
    }
    Val nondet(State &s, const std::string &name, unsigned bits) {
        const char *n = internName(name);
        if (replay) {
            if (s.ndCount >= replayVals.size()) { // the rest of the inputs are free: use 0
                addNd(s, n, bits, nullptr, 0);
                return Val((uint64_t)0);
            }
            auto &r = replayVals[s.ndCount];
            uint64_t v = std::get<2>(r) & maskOf(bits);
            addNd(s, n, bits, nullptr, v);
            return Val(v);
        }
        // The k-th value of a name is the same variable on every path, so that queries of different paths can coincide.
        unsigned occ = 0;
        for (const NdNode *p = s.nd; p; p = p->prev) occ += p->name == n;
        E &e = varOf[{n, occ << 8 | bits}];
        if (!e) e = mkVar(name, bits);
        addNd(s, n, bits, e, 0);
        return Val(e);
    }

    void doBuiltin(State &s, KInst &k, int b, std::vector<Val> &a) {
        CallBase *CB = cast<CallBase>(k.I);
        auto aw = [&](unsigned i) { return widthOf(CB->getArgOperand(i)->getType()); };
        switch (b) {
        case B_malloc: {
            uint64_t n = concretize(s, a[0], aw(0));
            setReg(s, k, allocFails(s) ? Val((uint64_t)0) : doAlloc(s, n, "malloc"));
            break;
        }
        case B_calloc: {
            uint64_t n = concretize(s, a[0], aw(0));
            uint64_t m = concretize(s, a[1], aw(1));
            Val p = allocFails(s) ? Val((uint64_t)0) : doAlloc(s, n * m, "calloc");
            if (p.c) { MemObj *o = s.mem.getW(s.mem.idOf(p.c)); o->sym.clear(); }
            setReg(s, k, p);
            break;
        }
        case B_new:
        case B_newNothrow: {
            bool huge = !a[0].conc() && decide(s, mkBin(Op::Ult, mkConst(1ull << 28, aw(0)), a[0].e));
            uint64_t n = huge ? (1ull << 28) + 1 : concretize(s, a[0], aw(0));
            if (n > s.allocPeak) s.allocPeak = n;
            bool fail = allocFails(s) || n > (1ull << 28);
            if (fail) {
                if (b == B_newNothrow) { setReg(s, k, Val((uint64_t)0)); break; }
                throwStd(s, "_ZTISt9bad_alloc");
                return;
            }
            setReg(s, k, doAlloc(s, n, "new"));
            break;
        }
        case B_free: case B_delete: doFree(s, a[0], ObjKind::Heap); break;
        case B_realloc: throw EngineError{"realloc"};
        case B_memcpy: doMemcpy(s, a[0], a[1], a[2], aw(2)); setReg(s, k, a[0]); break;
        case B_memset: doMemset(s, a[0], a[1], a[2], aw(2)); setReg(s, k, a[0]); break;
        case B_memcmp: {
            uint64_t len = concretize(s, a[2], aw(2));
            Val x = Val(concretize(s, a[0], 64)), y = Val(concretize(s, a[1], 64)), xo, yo;
            if (len == 0) { setReg(s, k, Val((uint64_t)0)); break; }
            uint32_t xi = resolve(s, x, len, &xo, false), yi = resolve(s, y, len, &yo, false);
            E r = mkConst(0, 32);
            for (uint64_t i = len; i-- > 0;) {
                E p = byteAt(s, xi, xo.c + i), q = byteAt(s, yi, yo.c + i);
                r = mkIte(mkEq(p, q), r, mkIte(mkBin(Op::Ult, p, q), mkConst(~0ull, 32), mkConst(1, 32)));
            }
            setReg(s, k, Val(r));
            break;
        }
        case B_memchr: {
            uint64_t len = concretize(s, a[2], aw(2));
            Val x = Val(concretize(s, a[0], 64)), xo;
            if (len == 0) { setReg(s, k, Val((uint64_t)0)); break; }
            uint32_t xi = resolve(s, x, len, &xo, false);
            E c = mkExtract(toE(a[1], 32), 0, 8);
            E r = mkConst(0, 64);
            for (uint64_t i = len; i-- > 0;) r = mkIte(mkEq(byteAt(s, xi, xo.c + i), c), mkConst(x.c + i, 64), r);
            setReg(s, k, Val(r));
            break;
        }
        case B_abort: errorPath(s, "abort", "call of " + k.callee->getName().str());
        case B_allocExc: {
            uint64_t n = concretize(s, a[0], aw(0));
            uint64_t p = s.mem.alloc(n, ObjKind::Exc, "exception", true);
            setReg(s, k, Val(p));
            break;
        }
        case B_freeExc: doFree(s, a[0], ObjKind::Exc); break;
        case B_throw:
            s.excs.push_back(ExcInfo{a[0].c, a[1].c, a[2].c, 0, false});
            unwind(s, a[0].c, false);
            return;
        case B_getExcPtr: setReg(s, k, a[0]); break;
        case B_beginCatch: {
            ExcInfo *e = findExc(s, a[0].c);
            if (!e) throw EngineError{"begin_catch of unknown exception"};
            e->handlers++;
            s.caught.push_back(a[0].c);
            setReg(s, k, a[0]);
            break;
        }
        case B_endCatch: {
            uint64_t o = s.caught.back();
            s.caught.pop_back();
            ExcInfo *e = findExc(s, o);
            e->handlers--;
            if (e->rethrown) { e->rethrown = false; break; }
            if (e->handlers == 0) {
                uint64_t dtor = e->dtor;
                s.excs.erase(s.excs.begin() + (e - &s.excs[0]));
                if (dtor) {
                    Function *D = fnTable[(dtor - FN_BASE) / 16 - 1];
                    if (!D->isDeclaration()) {
                        // The destructor returns to this instruction's successor.
                        pushFrame(s, decode(D), {Val(o)}, -1, false);
                        return;
                    }
                }
            }
            break;
        }
        case B_rethrow: {
            if (s.caught.empty()) errorPath(s, "abort", "rethrow without an exception");
            uint64_t o = s.caught.back();
            findExc(s, o)->rethrown = true;
            unwind(s, o, false);
            return;
        }
        case B_atexit: setReg(s, k, Val((uint64_t)0)); break;
        case B_nondet: {
            std::string n = cstr(s, a[0]);
            unsigned bits = a[1].c;
            Val v = nondet(s, n, bits);
            if (v.e && bits < 64) v = Val(mkZExt(v.e, 64));
            setReg(s, k, v);
            break;
        }
        case B_symbolic: {
            uint64_t n = a[1].c;
            std::string nm = cstr(s, a[2]);
            Val off;
            uint32_t id = resolve(s, a[0], n, &off, true);
            for (uint64_t i = 0; i < n; ++i) writeAt(s, id, off.c + i, nondet(s, nm + "[" + std::to_string(i) + "]", 8), 1);
            break;
        }
        case B_assume: {
            E c = boolOf(a[0], aw(0));
            if (isC(c)) { if (!c->c) endPathCount(s, nStopped); break; }
            Model m;
            if (!feasible(s, c, &m)) endPathCount(s, nStopped);
            s.model = std::move(m);
            addCons(s, c);
            break;
        }
        case B_assert: {
            ++nAsserts;
            E c = boolOf(a[0], aw(0));
            if (isC(c)) {
                if (!c->c) errorPath(s, "assert", cstr(s, a[1]));
                break;
            }
            ++nAssertQueries;
            Model m;
            if (feasible(s, mkNot(c), &m)) {
                report(s, "assert", cstr(s, a[1]), m);
                Model m2;
                if (!feasible(s, c, &m2)) { ++nErrPaths; endPath(s); }
                s.model = std::move(m2);
                addCons(s, c);
            }
            break;
        }
        case B_fail: errorPath(s, "assert", cstr(s, a[0]));
        case B_reach: {
            std::string n = cstr(s, a[0]);
            reached[n]++;
            logNodes.push_back({s.logs, internName(n), true, nullptr, 0});
            s.logs = &logNodes.back();
            break;
        }
        case B_stop: endPathCount(s, nStopped);
        case B_param: {
            auto it = params.find(cstr(s, a[0]));
            setReg(s, k, Val((it == params.end() ? a[1].c : (uint64_t)it->second) & 0xffffffff));
            break;
        }
        case B_log:
            logNodes.push_back({s.logs, internName(cstr(s, a[0])), false, a[1].conc() ? nullptr : a[1].e, a[1].conc() ? a[1].c : 0});
            s.logs = &logNodes.back();
            if (verbose) fprintf(stderr, "log: %s %s\n", cstr(s, a[0]).c_str(), a[1].conc() ? std::to_string((int64_t)a[1].c).c_str() : exprStr(a[1].e).c_str());
            break;
        case B_unmodelled: throw EngineError{"call of the unmodelled Win32 function " + cstr(s, a[0])};
        case B_replay: setReg(s, k, Val((uint64_t)0)); break;
        case B_concretize: setReg(s, k, Val(concretize(s, a[0], aw(0)))); break;
        case B_allocFault:
            if (a[0].conc()) { s.allocFaultC = a[0].c; s.allocFault = nullptr; } else s.allocFault = a[0].e;
            s.allocFaultOn = !(a[0].conc() && a[0].c == ~0ull);
            s.allocCount = s.allocPeak = 0;
            s.allocSticky = s.allocDown = false;
            break;
        case B_allocCount: setReg(s, k, Val(s.allocCount)); break;
        case B_allocSticky: s.allocSticky = true; break;
        case B_allocPeak: setReg(s, k, Val(s.allocPeak)); break;
        case B_isSymbolic: setReg(s, k, Val((uint64_t)!a[0].conc())); break;
        case B_objSize: {
            int64_t id = a[0].conc() ? s.mem.idOf(a[0].c) : -1;
            setReg(s, k, Val(id >= 0 && s.mem.get(id) ? (uint64_t)s.mem.get(id)->size() : ~0ull));
            break;
        }
        case B_live: { // number of live heap objects
            uint64_t n = 0;
            for (uint32_t i = 0; i < s.mem.count(); ++i) { const MemObj *o = s.mem.get(i); if (o && o->kind == ObjKind::Heap) ++n; }
            setReg(s, k, Val(n));
            break;
        }
        case B_throwStd: {
            std::string n = k.callee->getName().str();
            const char *t = "_ZTISt9exception";
            if (n.find("length_error") != n.npos) t = "_ZTISt12length_error";
            else if (n.find("out_of_range") != n.npos) t = "_ZTISt12out_of_range";
            else if (n.find("logic_error") != n.npos) t = "_ZTISt11logic_error";
            else if (n.find("bad_alloc") != n.npos) t = "_ZTISt9bad_alloc";
            else if (n.find("bad_array_new") != n.npos) t = "_ZTISt20bad_array_new_length";
            else if (n.find("bad_function") != n.npos) t = "_ZTISt17bad_function_call";
            else if (n.find("invalid_arg") != n.npos) t = "_ZTISt16invalid_argument";
            throwStd(s, t);
            return;
        }
        default: throw EngineError{"builtin"};
        }
        resumeCaller(s);
    }
    [[noreturn]] void endPathCount(State &s, uint64_t &ctr) { ++ctr; s.dead = true; throw PathEnd{}; }
    E boolOf(const Val &v, unsigned w) {
        E e = toE(v, w);
        return w == 1 ? e : mkNot(mkEq(e, mkConst(0, w)));
    }

    // Atomic read-modify-write helper.
    Val rmw(AtomicRMWInst::BinOp op, const Val &old, const Val &v, unsigned w) {
        E a = toE(old, w), b = toE(v, w);
        switch (op) {
        case AtomicRMWInst::Xchg: return v;
        case AtomicRMWInst::Add: return Val(mkBin(Op::Add, a, b));
        case AtomicRMWInst::Sub: return Val(mkBin(Op::Sub, a, b));
        case AtomicRMWInst::And: return Val(mkAnd(a, b));
        case AtomicRMWInst::Or: return Val(mkOr(a, b));
        case AtomicRMWInst::Xor: return Val(mkBin(Op::Xor, a, b));
        default: throw EngineError{"atomicrmw"};
        }
    }

    Val binop(unsigned opc, const Val &x, const Val &y, unsigned w) {
        Op op;
        switch (opc) {
        case Instruction::Add: op = Op::Add; break;
        case Instruction::Sub: op = Op::Sub; break;
        case Instruction::Mul: op = Op::Mul; break;
        case Instruction::UDiv: op = Op::UDiv; break;
        case Instruction::SDiv: op = Op::SDiv; break;
        case Instruction::URem: op = Op::URem; break;
        case Instruction::SRem: op = Op::SRem; break;
        case Instruction::And: op = Op::And; break;
        case Instruction::Or: op = Op::Or; break;
        case Instruction::Xor: op = Op::Xor; break;
        case Instruction::Shl: op = Op::Shl; break;
        case Instruction::LShr: op = Op::LShr; break;
        case Instruction::AShr: op = Op::AShr; break;
        default: throw EngineError{"binop"};
        }
        if (x.conc() && y.conc()) return Val(foldBin(op, x.c, y.c, w));
        return Val(mkBin(op, toE(x, w), toE(y, w)));
    }
    E icmpE(CmpInst::Predicate p, E a, E b) {
        switch (p) {
        case CmpInst::ICMP_EQ: return mkEq(a, b);
        case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
        case CmpInst::ICMP_ULT: return mkBin(Op::Ult, a, b);
        case CmpInst::ICMP_ULE: return mkBin(Op::Ule, a, b);
        case CmpInst::ICMP_UGT: return mkBin(Op::Ult, b, a);
        case CmpInst::ICMP_UGE: return mkBin(Op::Ule, b, a);
        case CmpInst::ICMP_SLT: return mkBin(Op::Slt, a, b);
        case CmpInst::ICMP_SLE: return mkBin(Op::Sle, a, b);
        case CmpInst::ICMP_SGT: return mkBin(Op::Slt, b, a);
        case CmpInst::ICMP_SGE: return mkBin(Op::Sle, b, a);
        default: throw EngineError{"icmp"};
        }
    }
    Val iteVal(E c, const Val &a, const Val &b, Type *T) {
        if (T->isStructTy()) {
            std::vector<Val> v;
            for (unsigned i = 0; i < T->getStructNumElements(); ++i)
                v.push_back(iteVal(c, aggOf(a)->v[i], aggOf(b)->v[i], T->getStructElementType(i)));
            return mkAgg(v);
        }
        unsigned w = widthOf(T);
        if (!w) throw EngineError{"select of unsupported type"};
        return Val(mkIte(c, toE(a, w), toE(b, w)));
    }

    Val loadType(State &s, const Val &addr, Type *T) {
        if (T->isStructTy()) {
            const StructLayout *SL = DL->getStructLayout(cast<StructType>(T));
            std::vector<Val> v;
            for (unsigned i = 0; i < T->getStructNumElements(); ++i) {
                Val p = addr.conc() ? Val(addr.c + SL->getElementOffset(i)) : Val(mkBin(Op::Add, addr.e, mkConst(SL->getElementOffset(i), 64)));
                v.push_back(loadType(s, p, T->getStructElementType(i)));
            }
            return mkAgg(v);
        }
        unsigned w = widthOf(T);
        if (!w || w > 64) throw EngineError{"load of unsupported type at " + where(s)};
        unsigned bytes = (w + 7) / 8;
        Val v = settle(s, load(s, addr, bytes));
        if (w % 8) { if (v.conc()) v.c &= maskOf(w); else v = Val(mkExtract(v.e, 0, w)); }
        return v;
    }
    void storeType(State &s, const Val &addr, const Val &v0, Type *T) {
        if (T->isStructTy()) {
            const StructLayout *SL = DL->getStructLayout(cast<StructType>(T));
            for (unsigned i = 0; i < T->getStructNumElements(); ++i) {
                Val p = addr.conc() ? Val(addr.c + SL->getElementOffset(i)) : Val(mkBin(Op::Add, addr.e, mkConst(SL->getElementOffset(i), 64)));
                storeType(s, p, aggOf(v0)->v[i], T->getStructElementType(i));
            }
            return;
        }
        unsigned w = widthOf(T);
        if (!w || w > 64) throw EngineError{"store of unsupported type at " + where(s)};
        unsigned bytes = (w + 7) / 8;
        Val v = v0;
        if (w % 8) { if (v.e) v = Val(mkZExt(v.e, bytes * 8)); }
        store(s, addr, settle(s, v), bytes);
    }

    void intrinsic(State &s, KInst &k, IntrinsicInst *II, std::vector<Val> &a) {
        unsigned w = k.w;
        switch (II->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
            doMemcpy(s, a[0], a[1], a[2], widthOf(II->getArgOperand(2)->getType())); break;
        case Intrinsic::memset: doMemset(s, a[0], a[1], a[2], widthOf(II->getArgOperand(2)->getType())); break;
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::vaend:
        case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::invariant_end:
            break;
        case Intrinsic::invariant_start: case Intrinsic::stacksave: setReg(s, k, Val((uint64_t)0)); break;
        case Intrinsic::vastart: {
            store(s, a[0], Val(s.st.back().vaAddr), 8);
            break;
        }
        case Intrinsic::vacopy: store(s, a[0], load(s, a[1], 8), 8); break;
        case Intrinsic::threadlocal_address:
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
            setReg(s, k, a[0]); break;
        case Intrinsic::is_constant: setReg(s, k, Val((uint64_t)0)); break;
        case Intrinsic::objectsize: setReg(s, k, Val(maskOf(w))); break;
        case Intrinsic::eh_typeid_for: setReg(s, k, Val((uint64_t)typeId(a[0].c))); break;
        case Intrinsic::umax: { E x = toE(a[0], w), y = toE(a[1], w); setReg(s, k, Val(mkIte(mkBin(Op::Ult, x, y), y, x))); break; }
        case Intrinsic::umin: { E x = toE(a[0], w), y = toE(a[1], w); setReg(s, k, Val(mkIte(mkBin(Op::Ult, x, y), x, y))); break; }
        case Intrinsic::smax: { E x = toE(a[0], w), y = toE(a[1], w); setReg(s, k, Val(mkIte(mkBin(Op::Slt, x, y), y, x))); break; }
        case Intrinsic::smin: { E x = toE(a[0], w), y = toE(a[1], w); setReg(s, k, Val(mkIte(mkBin(Op::Slt, x, y), x, y))); break; }
        case Intrinsic::abs: { E x = toE(a[0], w); setReg(s, k, Val(mkIte(mkBin(Op::Slt, x, mkConst(0, w)), mkBin(Op::Sub, mkConst(0, w), x), x))); break; }
        case Intrinsic::usub_sat: { E x = toE(a[0], w), y = toE(a[1], w); setReg(s, k, Val(mkIte(mkBin(Op::Ult, x, y), mkConst(0, w), mkBin(Op::Sub, x, y)))); break; }
        case Intrinsic::uadd_sat: { E x = toE(a[0], w), y = toE(a[1], w), z = mkBin(Op::Add, x, y); setReg(s, k, Val(mkIte(mkBin(Op::Ult, z, x), mkConst(~0ull, w), z))); break; }
        case Intrinsic::bswap: {
            E x = toE(a[0], w), r = mkExtract(x, 0, 8);
            for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(x, i, 8));
            setReg(s, k, Val(r)); break;
        }
        case Intrinsic::bitreverse: {
            E x = toE(a[0], w), r = mkExtract(x, 0, 1);
            for (unsigned i = 1; i < w; ++i) r = mkConcat(r, mkExtract(x, i, 1));
            setReg(s, k, Val(r)); break;
        }
        case Intrinsic::ctpop: {
            E x = toE(a[0], w), r = mkConst(0, w);
            for (unsigned i = 0; i < w; ++i) { E b = mkExtract(x, i, 1); r = mkBin(Op::Add, r, w > 1 ? mkZExt(b, w) : b); }
            setReg(s, k, Val(r)); break;
        }
        case Intrinsic::ctlz: {
            E x = toE(a[0], w), r = mkConst(w, w);
            for (unsigned i = 0; i < w; ++i) r = mkIte(mkEq(mkExtract(x, i, 1), mkConst(1, 1)), mkConst(w - 1 - i, w), r);
            setReg(s, k, Val(r)); break;
        }
        case Intrinsic::cttz: {
            E x = toE(a[0], w), r = mkConst(w, w);
            for (unsigned i = w; i-- > 0;) r = mkIte(mkEq(mkExtract(x, i, 1), mkConst(1, 1)), mkConst(i, w), r);
            setReg(s, k, Val(r)); break;
        }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            E x = toE(a[0], w), y = toE(a[1], w);
            uint64_t sh = concretize(s, a[2], w) % w;
            bool l = II->getIntrinsicID() == Intrinsic::fshl;
            if (sh == 0) setReg(s, k, Val(l ? x : y));
            else {
                unsigned n = l ? sh : w - sh;
                setReg(s, k, Val(mkOr(mkBin(Op::Shl, x, mkConst(n, w)), mkBin(Op::LShr, y, mkConst(w - n, w)))));
            }
            break;
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            unsigned ow = widthOf(II->getArgOperand(0)->getType());
            E x = toE(a[0], ow), y = toE(a[1], ow), r, o;
            switch (II->getIntrinsicID()) {
            case Intrinsic::uadd_with_overflow: r = mkBin(Op::Add, x, y); o = mkBin(Op::Ult, r, x); break;
            case Intrinsic::usub_with_overflow: r = mkBin(Op::Sub, x, y); o = mkBin(Op::Ult, x, y); break;
            case Intrinsic::umul_with_overflow:
                if (ow <= 32) {
                    E p = mkBin(Op::Mul, mkZExt(x, ow * 2), mkZExt(y, ow * 2));
                    r = mkExtract(p, 0, ow); o = mkNot(mkEq(mkExtract(p, ow, ow), mkConst(0, ow)));
                } else {
                    r = mkBin(Op::Mul, x, y);
                    E z = mkEq(y, mkConst(0, ow));
                    o = mkAnd(mkNot(z), mkNot(mkEq(mkBin(Op::UDiv, r, mkIte(z, mkConst(1, ow), y)), x)));
                }
                break;
            case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
                if (ow > 32) throw EngineError{"64-bit signed overflow intrinsic"};
                E xx = mkSExt(x, ow * 2), yy = mkSExt(y, ow * 2);
                Op op = II->getIntrinsicID() == Intrinsic::sadd_with_overflow ? Op::Add : II->getIntrinsicID() == Intrinsic::ssub_with_overflow ? Op::Sub : Op::Mul;
                E p = mkBin(op, xx, yy);
                r = mkExtract(p, 0, ow);
                o = mkNot(mkEq(p, mkSExt(r, ow * 2)));
                break;
            }
            default: abort();
            }
            setReg(s, k, mkAgg({Val(r), Val(o)}));
            break;
        }
        case Intrinsic::trap: case Intrinsic::debugtrap: errorPath(s, "abort", "trap");
        default: throw EngineError{"intrinsic " + II->getCalledFunction()->getName().str() + " at " + where(s)};
        }
        resumeCaller(s);
    }

    void doCall(State &s, KInst &k) {
        CallBase *CB = cast<CallBase>(k.I);
        std::vector<Val> a;
        unsigned n = CB->arg_size();
        a.reserve(n);
        for (unsigned i = 0; i < n; ++i) a.push_back(get(s, k.ops[i]));
        Function *F = k.callee;
        if (!F) {
            if (CB->isInlineAsm()) {
                auto *IA = cast<InlineAsm>(CB->getCalledOperand());
                std::string as = IA->getAsmString();
                if (as.empty() || as.find("pause") != as.npos || as == "nop") { resumeCaller(s); return; }
                throw EngineError{"inline asm '" + as + "' at " + where(s)};
            }
            Val p = get(s, k.ops[n]);
            uint64_t fa = concretize(s, p, 64);
            if (fa < FN_BASE || (fa - FN_BASE) / 16 - 1 >= fnTable.size() || (fa & 15)) errorPath(s, "memory", "call through an invalid function pointer");
            F = fnTable[(fa - FN_BASE) / 16 - 1];
        }
        if (auto *II = dyn_cast<IntrinsicInst>(CB)) { intrinsic(s, k, II, a); return; }
        int b = k.builtin;
        if (!k.callee) {
            auto it = builtins.find(F->getName().str());
            if (it != builtins.end()) b = it->second;
        }
        if (b >= 0) { doBuiltin(s, k, b, a); return; }
        if (F->isDeclaration()) throw EngineError{"call of the unmodelled function " + F->getName().str() + " at " + where(s)};
        KFunc *kf = k.kcallee && k.callee ? k.kcallee : decode(F);
        if (k.callee) k.kcallee = kf;
        pushFrame(s, kf, a, k.dest, false);
    }

    void doRet(State &s, KInst &k) {
        Val r;
        bool has = !k.ops.empty();
        if (has) r = get(s, k.ops[0]);
        Frame &f = s.st.back();
        bool eng = f.fromEngine;
        int rr = f.retReg;
        popFrame(s);
        if (s.st.empty() || eng) {
            if (s.st.empty()) { ++nPaths; if ((nPaths & (nPaths - 1)) == 0) takeSample(s); s.dead = true; throw PathEnd{}; }
            return;
        }
        if (has && rr >= 0) s.st.back().regs[rr] = r;
        resumeCaller(s);
    }

    static double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
    static float asF(uint64_t v) { uint32_t x = v; float d; memcpy(&d, &x, 4); return d; }
    static uint64_t fromD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
    static uint64_t fromF(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }

    void step(State &s) {
        Frame &f = s.st.back();
        KInst &k = f.kf->insts[f.pc];
        k.executed = true;
        ++s.steps;
        ++nSteps;
        switch (k.op) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or:
        case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
            if (!k.w || k.w > 64) throw EngineError{"operation on unsupported type at " + where(s)};
            f.regs[k.dest] = binop(k.op, get(s, k.ops[0]), get(s, k.ops[1]), k.w);
            ++f.pc;
            break;
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
            Val d = get(s, k.ops[1]);
            E z = mkEq(toE(d, k.w), mkConst(0, k.w));
            if (decide(s, z)) errorPath(s, "divzero", "division by zero");
            f.regs[k.dest] = binop(k.op, get(s, k.ops[0]), d, k.w);
            ++f.pc;
            break;
        }
        case Instruction::ICmp: {
            Val x = get(s, k.ops[0]), y = get(s, k.ops[1]);
            if (!k.ow) throw EngineError{"vector icmp at " + where(s)};
            f.regs[k.dest] = Val(icmpE(cast<ICmpInst>(k.I)->getPredicate(), toE(x, k.ow), toE(y, k.ow)));
            ++f.pc;
            break;
        }
        case Instruction::Trunc: {
            Val x = get(s, k.ops[0]);
            f.regs[k.dest] = x.conc() ? Val(x.c & maskOf(k.w)) : Val(mkExtract(x.e, 0, k.w));
            ++f.pc;
            break;
        }
        case Instruction::ZExt: {
            Val x = get(s, k.ops[0]);
            if (k.w > 64) throw EngineError{"wide integer at " + where(s)};
            f.regs[k.dest] = x.conc() ? x : Val(mkZExt(x.e, k.w));
            ++f.pc;
            break;
        }
        case Instruction::SExt: {
            Val x = get(s, k.ops[0]);
            if (k.w > 64) throw EngineError{"wide integer at " + where(s)};
            f.regs[k.dest] = x.conc() ? Val((uint64_t)sextOf(x.c, k.ow) & maskOf(k.w)) : Val(mkSExt(x.e, k.w));
            ++f.pc;
            break;
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: {
            Val x = get(s, k.ops[0]);
            if (k.w && k.ow && k.w != k.ow) {
                if (k.w < k.ow) x = x.conc() ? Val(x.c & maskOf(k.w)) : Val(mkExtract(x.e, 0, k.w));
                else if (x.e) x = Val(mkZExt(x.e, k.w));
            }
            f.regs[k.dest] = x;
            ++f.pc;
            break;
        }
        case Instruction::GetElementPtr: {
            Val p = get(s, k.ops[0]);
            if (p.conc()) p.c += k.gepConst;
            else if (k.gepConst) p = Val(mkBin(Op::Add, p.e, mkConst(k.gepConst, 64)));
            for (size_t i = 0; i < k.gepIdx.size(); ++i) {
                Val x = get(s, k.gepIdx[i].first);
                unsigned iw = k.gepIdxW[i];
                if (x.conc()) {
                    uint64_t d = (uint64_t)sextOf(x.c, iw) * k.gepIdx[i].second;
                    if (p.conc()) p.c += d;
                    else p = Val(mkBin(Op::Add, p.e, mkConst(d, 64)));
                } else {
                    E d = mkBin(Op::Mul, mkSExt(x.e, 64), mkConst(k.gepIdx[i].second, 64));
                    p = Val(mkBin(Op::Add, toE(p, 64), d));
                }
            }
            f.regs[k.dest] = p;
            ++f.pc;
            break;
        }
        case Instruction::Alloca: {
            auto *AI = cast<AllocaInst>(k.I);
            uint64_t n = DL->getTypeAllocSize(AI->getAllocatedType());
            if (AI->isArrayAllocation()) n *= concretize(s, get(s, k.ops[0]), k.ow);
            uint64_t a = s.mem.alloc(n, ObjKind::Stack, "stack", true);
            f.allocas.push_back(s.mem.idOf(a));
            f.regs[k.dest] = Val(a);
            ++f.pc;
            break;
        }
        case Instruction::Load: {
            Val v = loadType(s, get(s, k.ops[0]), k.I->getType());
            s.st.back().regs[k.dest] = v;
            ++s.st.back().pc;
            break;
        }
        case Instruction::Store: {
            storeType(s, get(s, k.ops[1]), get(s, k.ops[0]), cast<StoreInst>(k.I)->getValueOperand()->getType());
            ++f.pc;
            break;
        }
        case Instruction::AtomicRMW: {
            auto *A = cast<AtomicRMWInst>(k.I);
            Val p = get(s, k.ops[0]);
            if (!p.conc()) p = Val(concretize(s, p, 64));
            Val old = loadType(s, p, A->getType());
            storeType(s, p, rmw(A->getOperation(), old, get(s, k.ops[1]), k.w), A->getType());
            f.regs[k.dest] = old;
            ++f.pc;
            break;
        }
        case Instruction::AtomicCmpXchg: {
            auto *A = cast<AtomicCmpXchgInst>(k.I);
            Val p = get(s, k.ops[0]);
            if (!p.conc()) p = Val(concretize(s, p, 64));
            Type *T = A->getNewValOperand()->getType();
            unsigned w = widthOf(T);
            Val old = loadType(s, p, T);
            E eq = mkEq(toE(old, w), toE(get(s, k.ops[1]), w));
            storeType(s, p, Val(mkIte(eq, toE(get(s, k.ops[2]), w), toE(old, w))), T);
            f.regs[k.dest] = mkAgg({old, Val(eq)});
            ++f.pc;
            break;
        }
        case Instruction::Fence: ++f.pc; break;
        case Instruction::Select: {
            Val c = get(s, k.ops[0]);
            if (c.conc()) f.regs[k.dest] = get(s, k.ops[c.c ? 1 : 2]);
            else f.regs[k.dest] = iteVal(c.e, get(s, k.ops[1]), get(s, k.ops[2]), k.I->getType());
            ++f.pc;
            break;
        }
        case Instruction::Br: {
            if (k.succ.size() == 1) { gotoBlock(s, k.succ[0], k.I->getParent()); break; }
            Val c = get(s, k.ops[0]);
            bool t = c.conc() ? c.c != 0 : decide(s, c.e);
            gotoBlock(s, k.succ[t ? 0 : 1], k.I->getParent());
            break;
        }
        case Instruction::Switch: {
            auto *S = cast<SwitchInst>(k.I);
            Val c = get(s, k.ops[0]);
            BasicBlock *dst = nullptr;
            if (c.conc()) {
                dst = S->findCaseValue(ConstantInt::get(cast<IntegerType>(S->getCondition()->getType()), c.c))->getCaseSuccessor();
            } else {
                // One decision per distinct destination.
                uint64_t v = evalExpr(c.e, s.model);
                dst = S->findCaseValue(ConstantInt::get(cast<IntegerType>(S->getCondition()->getType()), v))->getCaseSuccessor();
                E any = mkConst(0, 1), def = mkConst(1, 1);
                for (auto &cs : S->cases()) {
                    E eq = mkEq(c.e, mkConst(cs.getCaseValue()->getZExtValue(), k.ow));
                    if (cs.getCaseSuccessor() == dst) any = mkOr(any, eq);
                    def = mkAnd(def, mkNot(eq));
                }
                if (dst == S->getDefaultDest()) any = mkOr(any, def);
                decide(s, any);
            }
            gotoBlock(s, f.kf->blockStart[dst], k.I->getParent());
            break;
        }
        case Instruction::Call: case Instruction::Invoke: doCall(s, k); break;
        case Instruction::Ret: doRet(s, k); break;
        case Instruction::Resume: {
            uint64_t o = aggOf(get(s, k.ops[0]))->v[0].c;
            unwind(s, o, true);
            break;
        }
        case Instruction::Unreachable: errorPath(s, "unreachable", "executed an unreachable instruction");
        case Instruction::ExtractValue: {
            auto *X = cast<ExtractValueInst>(k.I);
            Val v = get(s, k.ops[0]);
            for (unsigned ix : X->indices()) v = aggOf(v)->v[ix];
            f.regs[k.dest] = v;
            ++f.pc;
            break;
        }
        case Instruction::InsertValue: {
            auto *X = cast<InsertValueInst>(k.I);
            if (X->getNumIndices() != 1) throw EngineError{"nested insertvalue"};
            std::vector<Val> v = aggOf(get(s, k.ops[0]))->v;
            v[X->getIndices()[0]] = get(s, k.ops[1]);
            f.regs[k.dest] = mkAgg(v);
            ++f.pc;
            break;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
            Val x = get(s, k.ops[0]), y = get(s, k.ops[1]);
            if (!x.conc() || !y.conc()) throw EngineError{"symbolic floating point at " + where(s)};
            double a = k.w == 64 ? asD(x.c) : asF(x.c), b = k.w == 64 ? asD(y.c) : asF(y.c), r;
            r = k.op == Instruction::FAdd ? a + b : k.op == Instruction::FSub ? a - b : k.op == Instruction::FMul ? a * b : a / b;
            f.regs[k.dest] = Val(k.w == 64 ? fromD(r) : fromF((float)r));
            ++f.pc;
            break;
        }
        case Instruction::FCmp: {
            Val x = get(s, k.ops[0]), y = get(s, k.ops[1]);
            if (!x.conc() || !y.conc()) throw EngineError{"symbolic floating point at " + where(s)};
            double a = k.ow == 64 ? asD(x.c) : asF(x.c), b = k.ow == 64 ? asD(y.c) : asF(y.c);
            bool r;
            switch (cast<FCmpInst>(k.I)->getPredicate()) {
            case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = a == b; break;
            case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = a != b; break;
            case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = a < b; break;
            case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = a <= b; break;
            case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = a > b; break;
            case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = a >= b; break;
            default: throw EngineError{"fcmp"};
            }
            f.regs[k.dest] = Val((uint64_t)r);
            ++f.pc;
            break;
        }
        case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: {
            Val x = get(s, k.ops[0]);
            if (!x.conc()) throw EngineError{"symbolic floating point at " + where(s)};
            uint64_t r = 0;
            if (k.op == Instruction::UIToFP) r = k.w == 64 ? fromD((double)x.c) : fromF((float)x.c);
            else if (k.op == Instruction::SIToFP) r = k.w == 64 ? fromD((double)sextOf(x.c, k.ow)) : fromF((float)sextOf(x.c, k.ow));
            else {
                double d = k.ow == 64 ? asD(x.c) : asF(x.c);
                if (k.op == Instruction::FPToUI) r = (uint64_t)d & maskOf(k.w);
                else if (k.op == Instruction::FPToSI) r = (uint64_t)(int64_t)d & maskOf(k.w);
                else r = k.w == 64 ? fromD(d) : fromF((float)d);
            }
            f.regs[k.dest] = Val(r);
            ++f.pc;
            break;
        }
        default:
            throw EngineError{std::string("instruction ") + k.I->getOpcodeName() + " at " + where(s)};
        }
    }

    // A concrete instance of a finished path: its inputs and what it logged, for comparison with a native run.
    void takeSample(State &s) {
        if (samples.size() >= maxSamples) samples.erase(samples.begin() + 1);
        Sample x;
        for (const NdNode *n = s.nd; n; n = n->prev) x.inputs.push_back({n->name, n->bits, n->e ? evalExpr(n->e, s.model) : n->c});
        std::reverse(x.inputs.begin(), x.inputs.end());
        for (const LogNode *n = s.logs; n; n = n->prev) x.logs.push_back({(n->reach ? "reach " : "log ") + std::string(n->name), n->e ? evalExpr(n->e, s.model) : n->c});
        std::reverse(x.logs.begin(), x.logs.end());
        samples.push_back(std::move(x));
    }

    // ------------------------------------------------------------------ main loop
    void runState(std::unique_ptr<State> sp) {
        State &s = *sp;
        cur = &s;
        uint64_t check = 0;
        try {
            while (true) {
                step(s);
                if (s.steps > maxSteps) { inconclusive = "step limit on one path at " + where(s); return; }
                if ((++check & 0xfff) == 0 && nowSec() - tStart > maxSeconds) {
                    inconclusive = "time limit at " + where(s);
                    work.push_back(std::move(sp));
                    return;
                }
            }
        } catch (PathEnd &) {
        }
    }
    void run(const std::string &entry) {
        auto s0 = std::make_unique<State>();
        initGlobals(*s0);
        Function *F = M->getFunction(entry);
        if (!F || F->isDeclaration()) throw EngineError{"no entry function " + entry};
        // Constructors run first: frames are pushed so that they execute in order before the entry.
        pushFrame(*s0, decode(F), {}, -1, false);
        std::vector<std::pair<uint64_t, Function *>> ctors;
        if (auto *G = M->getGlobalVariable("llvm.global_ctors")) {
            if (auto *CA = dyn_cast<ConstantArray>(G->getInitializer()))
                for (auto &op : CA->operands()) {
                    auto *CS = cast<ConstantStruct>(op);
                    ctors.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), cast<Function>(CS->getOperand(1)->stripPointerCasts())});
                }
        }
        std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
        for (size_t i = ctors.size(); i-- > 0;) pushFrame(*s0, decode(ctors[i].second), {}, -1, true);
        work.push_back(std::move(s0));
        if (shards > 1) {
            // Every shard explores the same prefix breadth first and then keeps its share of the pending states.
            while (!work.empty() && work.size() < 24 * shards && inconclusive.empty() && violations.size() < maxViolations) {
                auto s = std::move(work.front());
                work.erase(work.begin());
                runState(std::move(s));
                if (nowSec() - tStart > maxSeconds) { inconclusive = "time limit"; break; }
            }
            for (auto &s : work) prefixHash = prefixHash * 1000003 + s->steps * 31 + s->cons.size() * 7 + s->ndCount;
            prefixHash = (prefixHash * 1000003 + nPaths * 31 + nSteps) & 0xffffffffffffull;
            std::vector<std::unique_ptr<State>> mine;
            for (size_t i = 0; i < work.size(); ++i) if (i % shards == shard) mine.push_back(std::move(work[i]));
            work = std::move(mine);
            if (shard) { nPaths = nStopped = nErrPaths = nForks = nAsserts = nAssertQueries = 0; }
        }
        while (!work.empty() && inconclusive.empty()) {
            auto s = std::move(work.back());
            work.pop_back();
            runState(std::move(s));
            if (violations.size() >= maxViolations) break;
            if (nPaths + nStopped + nErrPaths > maxPaths) { inconclusive = "path limit"; break; }
            if (nowSec() - tStart > maxSeconds) { if (!work.empty()) inconclusive = "time limit"; break; }
        }
    }

    void writeJson(FILE *out, const std::string &err) {
        std::string st = !violations.empty() ? "violation" : !err.empty() || !inconclusive.empty() ? "inconclusive" : "ok";
        fprintf(out, "{\"status\":%s,\"reason\":%s,\"paths\":%llu,\"assumed_away\":%llu,\"error_paths\":%llu,\"pending\":%zu,\"forks\":%llu,\"instructions\":%llu,",
                jstr(st).c_str(), jstr(err.empty() ? inconclusive : err).c_str(), (unsigned long long)nPaths, (unsigned long long)nStopped,
                (unsigned long long)nErrPaths, work.size(), (unsigned long long)nForks, (unsigned long long)nSteps);
        fprintf(out, "\"asserts\":%llu,\"assert_queries\":%llu,\"max_depth\":%llu,\"uninit_reads\":%llu,", (unsigned long long)nAsserts, (unsigned long long)nAssertQueries, (unsigned long long)maxDepth, (unsigned long long)uninitReads);
        auto &q = solver.stats;
        fprintf(out, "\"queries\":%llu,\"z3_queries\":%llu,\"z3_sat\":%llu,\"z3_unsat\":%llu,\"z3_unknown\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"exprs\":%u,\"vars\":%u,",
                (unsigned long long)q.queries, (unsigned long long)q.z3Queries, (unsigned long long)q.sat, (unsigned long long)q.unsat,
                (unsigned long long)q.unknown, q.z3Seconds, nowSec() - tStart, numExprs(), numVars());
        fprintf(out, "\"prefix_hash\":%llu,\"samples\":[", (unsigned long long)prefixHash);
        for (size_t i = 0; i < samples.size(); ++i) {
            fprintf(out, "%s{\"inputs\":[", i ? "," : "");
            for (size_t j = 0; j < samples[i].inputs.size(); ++j) {
                auto &t = samples[i].inputs[j];
                fprintf(out, "%s[%s,%u,%llu]", j ? "," : "", jstr(std::get<0>(t)).c_str(), std::get<1>(t), (unsigned long long)std::get<2>(t));
            }
            fprintf(out, "],\"logs\":[");
            for (size_t j = 0; j < samples[i].logs.size(); ++j)
                fprintf(out, "%s[%s,%llu]", j ? "," : "", jstr(samples[i].logs[j].first).c_str(), (unsigned long long)samples[i].logs[j].second);
            fprintf(out, "]}");
        }
        fprintf(out, "],\"reached\":{");
        bool c = false;
        for (auto &r : reached) { fprintf(out, "%s%s:%llu", c ? "," : "", jstr(r.first).c_str(), (unsigned long long)r.second); c = true; }
        fprintf(out, "},\"functions\":[");
        c = false;
        std::set<std::string> lines, fns;
        auto addFn = [&](const DISubprogram *sp) {
            std::string file = sp->getFile() ? sp->getFilename().str() : "";
            if (file.compare(0, srcPrefix.size(), srcPrefix) == 0) fns.insert(file.substr(srcPrefix.size()) + ":" + sp->getName().str());
        };
        for (auto &p : kfuncs) {
            KFunc *kf = p.second.get();
            if (!kf->entered) continue;
            DISubprogram *sp = kf->F->getSubprogram();
            for (auto &ki : kf->insts)
                if (ki.executed) {
                    std::string l = ki.I->getDebugLoc() ? locOf(ki.I) : "";
                    if (l.compare(0, srcPrefix.size(), srcPrefix) == 0) lines.insert(l);
                    for (const DILocation *d = ki.I->getDebugLoc(); d; d = d->getInlinedAt()) // inlined code belongs to the function it came from
                        if (auto *isp = d->getScope()->getSubprogram()) addFn(isp);
                }
            if (sp) addFn(sp);
        }
        for (auto &f : fns) { fprintf(out, "%s%s", c ? "," : "", jstr(f).c_str()); c = true; }
        fprintf(out, "],\"lines\":[");
        c = false;
        for (auto &l : lines) { fprintf(out, "%s%s", c ? "," : "", jstr(l.substr(srcPrefix.size())).c_str()); c = true; }
        fprintf(out, "],\"violations\":[");
        c = false;
        for (auto &v : violations) {
            fprintf(out, "%s{\"kind\":%s,\"msg\":%s,\"where\":%s,\"stack\":%s,\"inputs\":[", c ? "," : "", jstr(v.kind).c_str(), jstr(v.msg).c_str(), jstr(v.where).c_str(), jstr(v.stack).c_str());
            bool d = false;
            for (auto &i : v.inputs) { fprintf(out, "%s[%s,%u,%llu]", d ? "," : "", jstr(std::get<0>(i)).c_str(), std::get<1>(i), (unsigned long long)std::get<2>(i)); d = true; }
            fprintf(out, "]}");
            c = true;
        }
        fprintf(out, "]}\n");
    }
};

} // namespace

int realMain(int argc, char **argv) {
    auto &X = *new Exec; // never destroyed: the process exits
    std::vector<std::string> files;
    std::string entry = "harness", outp;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") entry = val();
        else if (a == "--out") outp = val();
        else if (a == "--param") { std::string p = val(); size_t e = p.find('='); X.params[p.substr(0, e)] = atoll(p.c_str() + e + 1); }
        else if (a == "--max-seconds") X.maxSeconds = atof(val().c_str());
        else if (a == "--max-steps") X.maxSteps = atoll(val().c_str());
        else if (a == "--max-violations") X.maxViolations = atoi(val().c_str());
        else if (a == "--src-prefix") X.srcPrefix = val();
        else if (a == "--shard") { std::string p = val(); X.shard = atoi(p.c_str()); X.shards = atoi(p.c_str() + p.find('/') + 1); }
        else if (a == "-v") X.verbose = true;
        else if (a == "--replay") {
            X.replay = true;
            FILE *f = fopen(val().c_str(), "r");
            if (!f) { perror("replay"); return 3; }
            char name[512];
            unsigned bits;
            unsigned long long v;
            while (fscanf(f, "%511s %u %llu", name, &bits, &v) == 3) X.replayVals.push_back({name, bits, v});
            fclose(f);
        } else files.push_back(a);
    }
    std::string err;
    try {
        if (!X.load(files)) { fprintf(stderr, "cannot load modules\n"); return 3; }
        X.run(entry);
    } catch (EngineError &e) {
        err = e.msg;
        if (X.verbose && X.cur && !X.cur->st.empty()) fprintf(stderr, "%s", X.stackStr(*X.cur).c_str());
    }
    FILE *out = outp.empty() ? stdout : fopen(outp.c_str(), "w");
    if (!out) { perror("out"); return 3; }
    X.writeJson(out, err);
    fflush(out);
    _exit(0);
}

int main(int argc, char **argv) {
    // Expression recursion can be deep: run on a large stack.
    struct rlimit rl;
    getrlimit(RLIMIT_STACK, &rl);
    const rlim_t want = 2048ull << 20;
    if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < want && !getenv("WSYM_STACK")) {
        rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? want : std::min<rlim_t>(want, rl.rlim_max);
        if (setrlimit(RLIMIT_STACK, &rl) == 0) {
            setenv("WSYM_STACK", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    return realMain(argc, argv);
}
