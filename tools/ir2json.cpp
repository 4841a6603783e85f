// Dumps an LLVM-18 bitcode/IR module as JSON for the verification-condition generator.
// It performs no transformation: every instruction is emitted with its flags, DataLayout offsets resolved.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/MapVector.h>
#include <map>
#include <set>
using namespace llvm;
namespace J = llvm::json;
static const DataLayout* DL;
static std::map<const Value*, int> ids;

static J::Value ty(Type* t)
{
    if (t->isVoidTy()) return J::Array{"v"};
    if (t->isIntegerTy()) return J::Array{"i", (int64_t)t->getIntegerBitWidth()};
    if (t->isPointerTy()) return J::Array{"p"};
    if (t->isFloatTy()) return J::Array{"f", 32};
    if (t->isDoubleTy()) return J::Array{"f", 64};
    if (t->isX86_FP80Ty()) return J::Array{"f", 80};
    if (auto* s = dyn_cast<StructType>(t))
    {
        if (s->isOpaque()) return J::Array{"opaque"};
        const StructLayout* L = DL->getStructLayout(s);
        J::Array offs, tys;
        for (unsigned i = 0; i < s->getNumElements(); i++)
        {
            offs.push_back((int64_t)L->getElementOffset(i).getFixedValue());
            tys.push_back(ty(s->getElementType(i)));
        }
        return J::Array{"s", (int64_t)L->getSizeInBytes().getFixedValue(), std::move(offs), std::move(tys)};
    }
    if (auto* a = dyn_cast<ArrayType>(t))
        return J::Array{"a", (int64_t)a->getNumElements(), (int64_t)DL->getTypeAllocSize(a->getElementType()).getFixedValue(), ty(a->getElementType())};
    if (auto* v = dyn_cast<FixedVectorType>(t))
        return J::Array{"vec", (int64_t)v->getNumElements(), (int64_t)DL->getTypeAllocSize(v->getElementType()).getFixedValue(), ty(v->getElementType())};
    return J::Array{"other"};
}
static std::string apstr(const APInt& a)
{
    SmallString<64> s;
    a.toString(s, 10, false);
    return std::string(s);
}
static J::Value val(const Value* v);
static J::Value cst(const Constant* c)
{
    if (auto* ci = dyn_cast<ConstantInt>(c)) return J::Array{"i", (int64_t)ci->getBitWidth(), apstr(ci->getValue())};
    if (auto* cf = dyn_cast<ConstantFP>(c))
        return J::Array{"f", (int64_t)cf->getType()->getPrimitiveSizeInBits(), apstr(cf->getValueAPF().bitcastToAPInt())};
    if (isa<ConstantPointerNull>(c)) return J::Array{"null"};
    if (isa<PoisonValue>(c)) return J::Array{"poison", ty(c->getType())};
    if (isa<UndefValue>(c)) return J::Array{"undef", ty(c->getType())};
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return cst(ga->getAliasee());
    if (auto* g = dyn_cast<GlobalValue>(c)) return J::Array{"g", g->getName().str(), 0};
    if (isa<ConstantAggregateZero>(c)) return J::Array{"zero", ty(c->getType())};
    if (auto* ca = dyn_cast<ConstantAggregate>(c))
    {
        J::Array els;
        for (auto& op : ca->operands()) els.push_back(cst(cast<Constant>(op)));
        return J::Array{"agg", ty(c->getType()), std::move(els)};
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c))
    {
        J::Array els;
        for (unsigned i = 0; i < cd->getNumElements(); i++) els.push_back(cst(cd->getElementAsConstant(i)));
        return J::Array{"agg", ty(c->getType()), std::move(els)};
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c))
    {
        if (auto* g = dyn_cast<GEPOperator>(ce))
        {
            APInt off(64, 0);
            if (g->accumulateConstantOffset(*DL, off)) return J::Array{"cgep", cst(cast<Constant>(g->getPointerOperand())), apstr(off)};
        }
        J::Array ops;
        for (auto& op : ce->operands()) ops.push_back(cst(cast<Constant>(op)));
        return J::Array{"ce", ce->getOpcodeName(), ty(ce->getType()), std::move(ops)};
    }
    return J::Array{"unknownconst"};
}
static J::Value val(const Value* v)
{
    if (auto* c = dyn_cast<Constant>(v)) return cst(c);
    if (isa<MetadataAsValue>(v)) return J::Array{"md"};
    if (isa<InlineAsm>(v)) return J::Array{"asm"};
    auto it = ids.find(v);
    if (it == ids.end()) return J::Array{"unknown"};
    return J::Array{"v", it->second};
}
// flatten initialiser
static void flat(const Constant* c, uint64_t off, std::string& bytes, J::Array& rel)
{
    Type* t = c->getType();
    uint64_t sz = DL->getTypeStoreSize(t).getFixedValue();
    if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return;
    if (auto* ci = dyn_cast<ConstantInt>(c))
    {
        APInt a = ci->getValue().zextOrTrunc(sz * 8);
        for (uint64_t i = 0; i < sz; i++) bytes[off + i] = (char)a.extractBitsAsZExtValue(8, i * 8);
        return;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c))
    {
        APInt a = cf->getValueAPF().bitcastToAPInt().zextOrTrunc(sz * 8);
        for (uint64_t i = 0; i < sz; i++) bytes[off + i] = (char)a.extractBitsAsZExtValue(8, i * 8);
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c))
    {
        uint64_t es = DL->getTypeAllocSize(cd->getElementType()).getFixedValue();
        for (unsigned i = 0; i < cd->getNumElements(); i++) flat(cd->getElementAsConstant(i), off + i * es, bytes, rel);
        return;
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c))
    {
        for (unsigned i = 0; i < ca->getNumOperands(); i++)
        {
            uint64_t eo;
            if (auto* st = dyn_cast<StructType>(t)) eo = DL->getStructLayout(st)->getElementOffset(i).getFixedValue();
            else if (auto* at = dyn_cast<ArrayType>(t)) eo = i * DL->getTypeAllocSize(at->getElementType()).getFixedValue();
            else eo = i * DL->getTypeAllocSize(cast<VectorType>(t)->getElementType()).getFixedValue();
            flat(cast<Constant>(ca->getOperand(i)), off + eo, bytes, rel);
        }
        return;
    }
    rel.push_back(J::Array{(int64_t)off, cst(c)});
}
static J::Value loc(const Instruction& I)
{
    const DebugLoc& d = I.getDebugLoc();
    if (!d) return nullptr;
    const DILocation* L = d.get();
    std::string f = L->getFilename().str();
    std::string r = f + ":" + std::to_string(L->getLine());
    if (auto* sp = L->getScope()->getSubprogram()) r += " in " + sp->getName().str();
    return r;
}
int main(int argc, char** argv)
{
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print(argv[0], errs()); return 1; }
    DL = &M->getDataLayout();
    J::Array globals, funcs;
    for (auto& g : M->globals())
    {
        J::Object o{{"name", g.getName().str()}, {"const", g.isConstant()}, {"decl", g.isDeclaration()}};
        if (g.getValueType()->isSized())
        {
            uint64_t sz = DL->getTypeAllocSize(g.getValueType()).getFixedValue();
            o["size"] = (int64_t)sz;
            if (g.hasInitializer())
            {
                std::string b(sz, '\0');
                J::Array rel;
                flat(g.getInitializer(), 0, b, rel);
                std::string hex;
                static const char* H = "0123456789abcdef";
                for (unsigned char ch : b) { hex += H[ch >> 4]; hex += H[ch & 15]; }
                // trim trailing zeros
                while (hex.size() >= 2 && hex[hex.size() - 1] == '0' && hex[hex.size() - 2] == '0') hex.resize(hex.size() - 2);
                o["init"] = hex;
                o["rel"] = std::move(rel);
            }
        }
        globals.push_back(std::move(o));
    }
    for (auto& F : *M)
    {
        J::Object fo{{"name", F.getName().str()}, {"dem", demangle(F.getName().str())}, {"ret", ty(F.getReturnType())}, {"vararg", F.isVarArg()}, {"noret", F.doesNotReturn()}};
        ids.clear();
        int n = 0;
        J::Array args;
        for (auto& a : F.args())
        {
            ids[&a] = n++;
            J::Object ao{{"id", ids[&a]}, {"ty", ty(a.getType())}};
            if (a.hasByValAttr()) ao["byval"] = (int64_t)DL->getTypeAllocSize(a.getParamByValType()).getFixedValue();
            if (a.hasStructRetAttr()) ao["sret"] = (int64_t)DL->getTypeAllocSize(a.getParamStructRetType()).getFixedValue();
            args.push_back(std::move(ao));
        }
        fo["args"] = std::move(args);
        if (!F.isDeclaration())
        {
            std::map<const BasicBlock*, int> bid;
            int b = 0;
            for (auto& B : F) { bid[&B] = b++; for (auto& I : B) ids[&I] = n++; }
            J::Array blocks;
            for (auto& B : F)
            {
                J::Array insts;
                for (auto& I : B)
                {
                    if (isa<DbgInfoIntrinsic>(I)) continue;
                    J::Object o{{"op", I.getOpcodeName()}, {"id", ids[&I]}, {"ty", ty(I.getType())}};
                    J::Value l = loc(I);
                    if (l.kind() != J::Value::Null) o["loc"] = std::move(l);
                    auto ops = [&](unsigned from = 0) { J::Array a; for (unsigned i = from; i < I.getNumOperands(); i++) a.push_back(val(I.getOperand(i))); return a; };
                    if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) { if (ob->hasNoSignedWrap()) o["nsw"] = true; if (ob->hasNoUnsignedWrap()) o["nuw"] = true; }
                    if (auto* pe = dyn_cast<PossiblyExactOperator>(&I)) { if (pe->isExact()) o["exact"] = true; }
                    if (auto* p = dyn_cast<PHINode>(&I))
                    {
                        J::Array inc;
                        for (unsigned i = 0; i < p->getNumIncomingValues(); i++) inc.push_back(J::Array{bid[p->getIncomingBlock(i)], val(p->getIncomingValue(i))});
                        o["inc"] = std::move(inc);
                    }
                    else if (auto* br = dyn_cast<BranchInst>(&I))
                    {
                        if (br->isConditional()) { o["cond"] = val(br->getCondition()); o["succ"] = J::Array{bid[br->getSuccessor(0)], bid[br->getSuccessor(1)]}; }
                        else o["succ"] = J::Array{bid[br->getSuccessor(0)]};
                    }
                    else if (auto* sw = dyn_cast<SwitchInst>(&I))
                    {
                        o["cond"] = val(sw->getCondition());
                        o["def"] = bid[sw->getDefaultDest()];
                        J::Array cs;
                        for (auto& c : sw->cases()) cs.push_back(J::Array{apstr(c.getCaseValue()->getValue()), bid[c.getCaseSuccessor()]});
                        o["cases"] = std::move(cs);
                    }
                    else if (auto* cb = dyn_cast<CallBase>(&I))
                    {
                        J::Array as, byv;
                        for (unsigned i = 0; i < cb->arg_size(); i++)
                        {
                            as.push_back(val(cb->getArgOperand(i)));
                            if (cb->isByValArgument(i)) byv.push_back(J::Array{(int64_t)i, (int64_t)DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue()});
                        }
                        o["args"] = std::move(as);
                        if (!byv.empty()) o["byval"] = std::move(byv);
                        o["callee"] = val(cb->getCalledOperand()->stripPointerCastsAndAliases());
                        if (auto* iv = dyn_cast<InvokeInst>(&I)) { o["normal"] = bid[iv->getNormalDest()]; o["unwind"] = bid[iv->getUnwindDest()]; }
                    }
                    else if (auto* gp = dyn_cast<GetElementPtrInst>(&I))
                    {
                        o["base"] = val(gp->getPointerOperand());
                        unsigned bw = 64;
                        MapVector<Value*, APInt> vo;
                        APInt co(bw, 0);
                        if (!cast<GEPOperator>(gp)->collectOffset(*DL, bw, vo, co)) o["bad"] = true;
                        o["off"] = apstr(co);
                        if (gp->isInBounds()) o["inb"] = true;
                        J::Array vs;
                        for (auto& kv : vo) vs.push_back(J::Array{val(kv.first), (int64_t)kv.first->getType()->getIntegerBitWidth(), apstr(kv.second)});
                        o["idx"] = std::move(vs);
                    }
                    else if (auto* al = dyn_cast<AllocaInst>(&I))
                    {
                        o["esz"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue();
                        o["cnt"] = val(al->getArraySize());
                    }
                    else if (auto* ic = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(ic->getPredicate()).str(); o["opty"] = ty(ic->getOperand(0)->getType()); o["ops"] = ops(); }
                    else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { J::Array ix; for (auto i : ev->getIndices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix); o["ops"] = ops(); }
                    else if (auto* iv = dyn_cast<InsertValueInst>(&I)) { J::Array ix; for (auto i : iv->getIndices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix); o["ops"] = ops(); }
                    else if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) { o["rmw"] = AtomicRMWInst::getOperationName(rm->getOperation()).str(); o["ops"] = ops(); }
                    else if (auto* st = dyn_cast<StoreInst>(&I)) { o["sty"] = ty(st->getValueOperand()->getType()); o["ops"] = ops(); }
                    else if (auto* lp = dyn_cast<LandingPadInst>(&I)) { o["cleanup"] = lp->isCleanup(); o["ops"] = ops(); }
                    else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) { J::Array m; for (int i : sv->getShuffleMask()) m.push_back(i); o["mask"] = std::move(m); o["ops"] = ops(); }
                    else
                    {
                        o["ops"] = ops();
                        if (I.isCast()) o["sty"] = ty(I.getOperand(0)->getType());
                    }
                    insts.push_back(std::move(o));
                }
                blocks.push_back(std::move(insts));
            }
            fo["blocks"] = std::move(blocks);
        }
        funcs.push_back(std::move(fo));
    }
    outs() << J::Value(J::Object{{"globals", std::move(globals)}, {"functions", std::move(funcs)}});
    return 0;
}
