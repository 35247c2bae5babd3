// irdump: reads an LLVM IR file produced by clang from a witness translation unit, keeps what is
// reachable from the non-inline functions of the witness, runs a few canonicalising passes and writes the
// control flow graphs as JSON for the analyses in /verif/py. It decides nothing itself.
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/IPO/Internalize.h"
#include "llvm/Transforms/IPO/DeadArgumentElimination.h"
#include "llvm/Transforms/IPO/FunctionAttrs.h"
#include "llvm/Transforms/IPO/SCCP.h"
#include "llvm/Transforms/Scalar/DeadStoreElimination.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/LowerInvoke.h"
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
using namespace llvm;

static const DataLayout* DL;
static raw_ostream* O;
static std::map<std::string, int> locIds;
static std::vector<std::string> locs;

static void str(StringRef s)
{
    *O << '"';
    for (char c : s) {
        if (c == '"' || c == '\\')
            *O << '\\' << c;
        else if ((unsigned char)c < 32)
            *O << ' ';
        else
            *O << c;
    }
    *O << '"';
}

struct FnCtx {
    std::unordered_map<const Value*, int> ids;
    int next = 0;
    int id(const Value* v)
    {
        auto it = ids.find(v);
        if (it != ids.end())
            return it->second;
        return ids[v] = next++;
    }
};

static bool Optimised = false;

static void ty(Type* t)
{
    if (t->isVoidTy())
        *O << "0";
    else if (t->isIntegerTy())
        *O << t->getIntegerBitWidth();
    else if (t->isPointerTy())
        *O << "\"p\"";
    else if (t->isFloatingPointTy())
        *O << "\"f\"";
    else
        *O << "\"a\"";
}

// type layout for aggregate loads/stores: list of [offset,type]
static void layout(Type* t, uint64_t off, bool& first)
{
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++)
            layout(st->getElementType(i), off + sl->getElementOffset(i), first);
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
        for (unsigned i = 0; i < at->getNumElements(); i++)
            layout(at->getElementType(), off + i * DL->getTypeAllocSize(at->getElementType()), first);
    } else {
        if (!first)
            *O << ",";
        first = false;
        *O << "[" << off << ",";
        ty(t);
        *O << "," << DL->getTypeStoreSize(t) << "]";
    }
}

static void constant(const Constant* c);

static void value(FnCtx& f, const Value* v)
{
    if (auto* c = dyn_cast<Constant>(v)) {
        constant(c);
        return;
    }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) {
        *O << "[\"u\"]";
        return;
    }
    *O << f.id(v);
}

static void constant(const Constant* c)
{
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() <= 64)
            *O << "[\"c\"," << ci->getZExtValue() << "]";
        else {
            SmallString<40> s;
            ci->getValue().toString(s, 10, false);
            *O << "[\"c\"," << s << "]";
        }
    } else if (isa<ConstantPointerNull>(c))
        *O << "[\"c\",0]";
    else if (isa<UndefValue>(c))
        *O << "[\"u\"]";
    else if (auto* fn = dyn_cast<Function>(c)) {
        *O << "[\"f\",";
        str(fn->getName());
        *O << "]";
    } else if (auto* gv = dyn_cast<GlobalVariable>(c)) {
        *O << "[\"g\",";
        str(gv->getName());
        *O << ",0]";
    } else if (auto* ga = dyn_cast<GlobalAlias>(c)) {
        constant(ga->getAliasee());
    } else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getOpcode() == Instruction::GetElementPtr) {
            APInt off(64, 0);
            cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off);
            *O << "[\"o\",";
            constant(cast<Constant>(ce->getOperand(0)));
            *O << "," << off.getSExtValue() << "]";
        } else if (ce->isCast())
            constant(cast<Constant>(ce->getOperand(0)));
        else
            *O << "[\"x\"]";
    } else if (isa<ConstantAggregateZero>(c))
        *O << "[\"z\"]";
    else if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        *O << "[\"a\",[";
        for (unsigned i = 0; i < ca->getNumOperands(); i++) {
            if (i)
                *O << ",";
            constant(cast<Constant>(ca->getOperand(i)));
        }
        *O << "]]";
    } else if (isa<ConstantFP>(c))
        *O << "[\"x\"]";
    else
        *O << "[\"x\"]";
}

// global initialiser -> list of [off,size,value]
static void initCells(const Constant* c, uint64_t off, bool& first, uint64_t& budget)
{
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c)) {
        if (!first)
            *O << ",";
        first = false;
        *O << "[" << off << "," << DL->getTypeAllocSize(t) << ",[\"z\"]]";
        return;
    }
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        if (auto* ca = dyn_cast<ConstantStruct>(c)) {
            for (unsigned i = 0; i < ca->getNumOperands(); i++)
                initCells(cast<Constant>(ca->getOperand(i)), off + sl->getElementOffset(i), first, budget);
            return;
        }
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        if (auto* ca = dyn_cast<ConstantArray>(c)) {
            for (unsigned i = 0; i < ca->getNumOperands(); i++)
                initCells(cast<Constant>(ca->getOperand(i)), off + i * es, first, budget);
            return;
        }
        if (auto* cd = dyn_cast<ConstantDataArray>(c)) {
            if (cd->getNumElements() > 64) {
                return;
            }
            for (unsigned i = 0; i < cd->getNumElements(); i++)
                initCells(cd->getElementAsConstant(i), off + i * es, first, budget);
            return;
        }
        return;
    }
    if (!first)
        *O << ",";
    first = false;
    *O << "[" << off << "," << DL->getTypeStoreSize(t) << ",";
    constant(c);
    *O << "]";
}

static int locOf(const Instruction& I)
{
    const DILocation* d = I.getDebugLoc().get();
    if (!d)
        return -1;
    std::string s = (d->getFilename() + ":" + Twine(d->getLine())).str();
    auto it = locIds.find(s);
    if (it != locIds.end())
        return it->second;
    int n = (int)locs.size();
    locIds[s] = n;
    locs.push_back(s);
    return n;
}

static const char* binop(unsigned op)
{
    switch (op) {
    case Instruction::Add: return "add";
    case Instruction::Sub: return "sub";
    case Instruction::Mul: return "mul";
    case Instruction::UDiv: return "udiv";
    case Instruction::SDiv: return "sdiv";
    case Instruction::URem: return "urem";
    case Instruction::SRem: return "srem";
    case Instruction::Shl: return "shl";
    case Instruction::LShr: return "lshr";
    case Instruction::AShr: return "ashr";
    case Instruction::And: return "and";
    case Instruction::Or: return "or";
    case Instruction::Xor: return "xor";
    default: return "fop";
    }
}

static void dumpFn(Function& F)
{
    FnCtx c;
    for (auto& a : F.args())
        c.id(&a);
    std::unordered_map<const BasicBlock*, int> bid;
    int n = 0;
    for (auto& b : F)
        bid[&b] = n++;
    *O << "{\"name\":";
    str(F.getName());
    *O << ",\"args\":[";
    {
        bool f = true;
        for (auto& a : F.args()) {
            if (!f)
                *O << ",";
            f = false;
            ty(a.getType());
        }
    }
    *O << "],\"ret\":";
    ty(F.getReturnType());
    int fl = -1;
    if (auto* sp = F.getSubprogram()) {
        std::string s = (sp->getFilename() + ":" + Twine(sp->getLine())).str();
        auto it = locIds.find(s);
        if (it != locIds.end())
            fl = it->second;
        else {
            fl = (int)locs.size();
            locIds[s] = fl;
            locs.push_back(s);
        }
    }
    *O << ",\"loc\":" << fl << ",\"blocks\":[";
    bool fb = true;
    for (auto& b : F) {
        if (!fb)
            *O << ",\n";
        fb = false;
        *O << "[";
        bool fi = true;
        for (auto& I : b) {
            if (isa<DbgInfoIntrinsic>(I))
                continue;
            if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
                switch (ii->getIntrinsicID()) {
                case Intrinsic::lifetime_start:
                case Intrinsic::lifetime_end:
                case Intrinsic::assume:
                case Intrinsic::experimental_noalias_scope_decl:
                case Intrinsic::donothing:
                case Intrinsic::prefetch:
                case Intrinsic::invariant_start:
                case Intrinsic::invariant_end:
                    continue;
                default: break;
                }
            }
            if (!fi)
                *O << ",\n ";
            fi = false;
            int d = I.getType()->isVoidTy() ? -1 : c.id(&I);
            *O << "[";
            auto head = [&](const char* op) {
                *O << "\"" << op << "\"," << d << "," << locOf(I);
            };
            if (auto* a = dyn_cast<AllocaInst>(&I)) {
                head("alloca");
                uint64_t sz = DL->getTypeAllocSize(a->getAllocatedType());
                *O << "," << sz;
            } else if (auto* l = dyn_cast<LoadInst>(&I)) {
                head("load");
                *O << ",";
                value(c, l->getPointerOperand());
                *O << ",";
                ty(l->getType());
                *O << "," << DL->getTypeStoreSize(l->getType());
                if (l->getType()->isAggregateType()) {
                    *O << ",[";
                    bool f = true;
                    layout(l->getType(), 0, f);
                    *O << "]";
                }
            } else if (auto* s = dyn_cast<StoreInst>(&I)) {
                head("store");
                *O << ",";
                value(c, s->getPointerOperand());
                *O << ",";
                value(c, s->getValueOperand());
                *O << ",";
                ty(s->getValueOperand()->getType());
                *O << "," << DL->getTypeStoreSize(s->getValueOperand()->getType());
                if (s->getValueOperand()->getType()->isAggregateType()) {
                    *O << ",[";
                    bool f = true;
                    layout(s->getValueOperand()->getType(), 0, f);
                    *O << "]";
                }
            } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                head("gep");
                *O << ",";
                value(c, g->getPointerOperand());
                MapVector<Value*, APInt> vars;
                APInt off(64, 0);
                if (cast<GEPOperator>(g)->collectOffset(*DL, 64, vars, off)) {
                    *O << "," << off.getSExtValue() << ",[";
                    bool f = true;
                    for (auto& [v, s] : vars) {
                        if (!f)
                            *O << ",";
                        f = false;
                        *O << "[";
                        value(c, v);
                        *O << "," << s.getSExtValue() << "," << v->getType()->getIntegerBitWidth();
                        // the number of elements of the array that is indexed
                        auto* at = dyn_cast<ArrayType>(g->getSourceElementType());
                        if (!Optimised && at && at->getNumElements() && g->getNumIndices() == 2 && vars.size() == 1)
                            *O << "," << at->getNumElements();
                        *O << "]";
                    }
                    *O << "]";
                } else
                    *O << ",null,[]";
            } else if (auto* p = dyn_cast<PHINode>(&I)) {
                head("phi");
                *O << ",[";
                for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
                    if (i)
                        *O << ",";
                    *O << "[" << bid[p->getIncomingBlock(i)] << ",";
                    value(c, p->getIncomingValue(i));
                    *O << "]";
                }
                *O << "]";
            } else if (auto* br = dyn_cast<BranchInst>(&I)) {
                head("br");
                if (br->isConditional()) {
                    *O << ",";
                    value(c, br->getCondition());
                    *O << "," << bid[br->getSuccessor(0)] << "," << bid[br->getSuccessor(1)];
                } else
                    *O << "," << bid[br->getSuccessor(0)];
            } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                head("switch");
                *O << ",";
                value(c, sw->getCondition());
                *O << "," << bid[sw->getDefaultDest()] << ",[";
                bool f = true;
                for (auto& cs : sw->cases()) {
                    if (!f)
                        *O << ",";
                    f = false;
                    *O << "[" << cs.getCaseValue()->getZExtValue() << "," << bid[cs.getCaseSuccessor()] << "]";
                }
                *O << "]," << sw->getCondition()->getType()->getIntegerBitWidth();
            } else if (auto* se = dyn_cast<SelectInst>(&I)) {
                head("select");
                for (int i = 0; i < 3; i++) {
                    *O << ",";
                    value(c, se->getOperand(i));
                }
            } else if (auto* ic = dyn_cast<ICmpInst>(&I)) {
                head("icmp");
                *O << ",\"" << CmpInst::getPredicateName(ic->getPredicate()) << "\",";
                value(c, ic->getOperand(0));
                *O << ",";
                value(c, ic->getOperand(1));
                *O << ",";
                ty(ic->getOperand(0)->getType());
            } else if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
                head("bin");
                *O << ",\"" << binop(bo->getOpcode()) << "\",";
                value(c, bo->getOperand(0));
                *O << ",";
                value(c, bo->getOperand(1));
                *O << ",";
                ty(bo->getType());
            } else if (auto* ca = dyn_cast<CastInst>(&I)) {
                head("cast");
                *O << ",\"" << Instruction::getOpcodeName(ca->getOpcode()) << "\",";
                value(c, ca->getOperand(0));
                *O << ",";
                ty(ca->getSrcTy());
                *O << ",";
                ty(ca->getDestTy());
            } else if (auto* cb = dyn_cast<CallBase>(&I)) {
                head("call");
                *O << ",";
                value(c, cb->getCalledOperand());
                *O << ",[";
                bool f = true;
                for (auto& a : cb->args()) {
                    if (!f)
                        *O << ",";
                    f = false;
                    value(c, a.get());
                }
                *O << "],";
                ty(cb->getType());
                if (auto* inv = dyn_cast<InvokeInst>(cb))
                    *O << "," << bid[inv->getNormalDest()] << "," << bid[inv->getUnwindDest()];
            } else if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
                head("landingpad");
                // kinds of the clauses: 0 catches everything, 1 a type, 2 filter
                *O << "," << (lp->isCleanup() ? 1 : 0) << ",[";
                for (unsigned i = 0; i < lp->getNumClauses(); i++)
                    *O << (i ? "," : "") << (lp->isFilter(i) ? 2 : isa<ConstantPointerNull>(lp->getClause(i)) ? 0 : 1);
                *O << "]";
            } else if (isa<ResumeInst>(&I)) {
                head("resume");
            } else if (auto* r = dyn_cast<ReturnInst>(&I)) {
                head("ret");
                if (r->getReturnValue()) {
                    *O << ",";
                    value(c, r->getReturnValue());
                }
            } else if (isa<UnreachableInst>(&I)) {
                head("unreachable");
            } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
                head("extractvalue");
                *O << ",";
                value(c, ev->getAggregateOperand());
                *O << ",[";
                bool f = true;
                for (auto i : ev->indices()) {
                    if (!f)
                        *O << ",";
                    f = false;
                    *O << i;
                }
                *O << "]";
            } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
                head("insertvalue");
                *O << ",";
                value(c, iv->getAggregateOperand());
                *O << ",";
                value(c, iv->getInsertedValueOperand());
                *O << ",[";
                bool f = true;
                for (auto i : iv->indices()) {
                    if (!f)
                        *O << ",";
                    f = false;
                    *O << i;
                }
                *O << "]";
            } else if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) {
                head("rmw");
                *O << ",\"" << AtomicRMWInst::getOperationName(rm->getOperation()) << "\",";
                value(c, rm->getPointerOperand());
                *O << ",";
                value(c, rm->getValOperand());
                *O << "," << DL->getTypeStoreSize(rm->getType());
            } else if (isa<FreezeInst>(&I)) {
                head("copy");
                *O << ",";
                value(c, I.getOperand(0));
            } else if (auto* u = dyn_cast<UnaryOperator>(&I)) {
                (void)u;
                head("unk");
            } else {
                head("unk");
            }
            *O << "]";
        }
        *O << "]";
    }
    *O << "]}";
}

int main(int argc, char** argv)
{
    if (argc < 3) {
        errs() << "usage: irdump in.ll out.json [--opt | --only=function]\n";
        return 2;
    }
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) {
        err.print("irdump", errs());
        return 2;
    }
    DL = &M->getDataLayout();
    // strip attributes that would keep functions from being transformed
    for (auto& F : *M) {
        F.removeFnAttr(Attribute::OptimizeNone);
        if (!F.isDeclaration() && F.hasLinkOnceLinkage())
            ;
    }
    // --only=f: keep one function, fully optimised. --opt: optimise everything
    std::string only;
    bool optimise = false;
    for (int i = 3; i < argc; i++) {
        StringRef a(argv[i]);
        if (a == "--opt")
            optimise = true;
        else if (a.consume_front("--only="))
            only = a.str(), optimise = true;
    }
    PipelineTuningOptions PTO;
    PTO.LoopVectorization = PTO.SLPVectorization = false;
    PassBuilder PB(nullptr, PTO);
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    MPM.addPass(InternalizePass([&](const GlobalValue& g) { return isa<Function>(g) && (only.empty() || g.getName() == only) && g.hasExternalLinkage() && !g.isDeclaration(); }));
    MPM.addPass(GlobalDCEPass());
    Optimised = optimise;
    if (optimise)
        MPM.addPass(PB.buildPerModuleDefaultPipeline(OptimizationLevel::O2));
    {
        FunctionPassManager FPM;
        FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
        FPM.addPass(EarlyCSEPass(false));
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    }
    // The library computes type level information by calling functions on empty objects. Fold these
    // calls: they have no effects, and their results are constants.
    for (int i = 0; i < 2; i++) {
        MPM.addPass(createModuleToPostOrderCGSCCPassAdaptor(PostOrderFunctionAttrsPass()));
        MPM.addPass(IPSCCPPass());
        FunctionPassManager FPM;
        FPM.addPass(EarlyCSEPass(true));
        FPM.addPass(DSEPass());
        FPM.addPass(ADCEPass());
        FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
        MPM.addPass(DeadArgumentEliminationPass());
    }
    MPM.addPass(GlobalDCEPass());
    MPM.run(*M, MAM);

    std::error_code ec;
    raw_fd_ostream out(argv[2], ec);
    if (ec) {
        errs() << ec.message() << "\n";
        return 2;
    }
    O = &out;
    *O << "{\"functions\":[\n";
    bool first = true;
    for (auto& F : *M) {
        if (F.isDeclaration())
            continue;
        if (!first)
            *O << ",\n";
        first = false;
        dumpFn(F);
    }
    *O << "],\n\"globals\":[\n";
    first = true;
    for (auto& G : M->globals()) {
        if (!first)
            *O << ",\n";
        first = false;
        *O << "[";
        str(G.getName());
        *O << "," << (G.isConstant() ? 1 : 0) << ","
           << (G.isDeclaration() ? 0 : (uint64_t)DL->getTypeAllocSize(G.getValueType())) << ","
           << (G.isThreadLocal() ? 1 : 0) << ",[";
        if (G.hasInitializer()) {
            bool f = true;
            uint64_t budget = 4096;
            initCells(G.getInitializer(), 0, f, budget);
        }
        *O << "],";
        // declared in /repo, in the witness, or in a system header?
        SmallVector<DIGlobalVariableExpression*, 2> dbg;
        G.getDebugInfo(dbg);
        std::string w;
        if (!dbg.empty() && dbg[0]->getVariable())
            w = (dbg[0]->getVariable()->getFilename() + ":" + Twine(dbg[0]->getVariable()->getLine())).str();
        str(w);
        *O << "]";
    }
    *O << "],\n\"decls\":[";
    first = true;
    for (auto& F : *M) {
        if (!F.isDeclaration())
            continue;
        if (!first)
            *O << ",";
        first = false;
        str(F.getName());
    }
    *O << "],\n\"locs\":[";
    for (size_t i = 0; i < locs.size(); i++) {
        if (i)
            *O << ",";
        str(locs[i]);
    }
    *O << "]}\n";
    return 0;
}
