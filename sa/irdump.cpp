// irdump: LLVM bitcode/IR -> JSON for the abstract interpreter.
// Lowers GEPs to byte offsets and flattens constant initialisers.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
using namespace llvm;
static const DataLayout *DL;
static std::map<const Value *, int> ids;
static json::OStream *J;

static json::Value cval(const Constant *C, bool &ok);

static json::Value tyj(Type *T) {
  if (T->isIntegerTy()) return json::Array{"i", (int64_t)T->getIntegerBitWidth()};
  if (T->isPointerTy()) return json::Array{"p", 64};
  if (T->isVoidTy()) return json::Array{"v", 0};
  if (T->isFloatingPointTy()) return json::Array{"f", (int64_t)T->getPrimitiveSizeInBits().getFixedValue()};
  if (T->isSized()) return json::Array{"a", (int64_t)DL->getTypeAllocSize(T).getFixedValue() * 8};
  return json::Array{"?", 0};
}

static json::Value val(const Value *V) {
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    if (CI->getBitWidth() > 64) return json::Array{"u"};
    return json::Array{"c", CI->getSExtValue(), (int64_t)CI->getBitWidth()};
  }
  if (isa<ConstantPointerNull>(V)) return json::Array{"c", 0, 64};
  if (auto *A = dyn_cast<Argument>(V)) return json::Array{"a", (int64_t)A->getArgNo()};
  if (auto *GV = dyn_cast<GlobalValue>(V)) return json::Array{"g", GV->getName().str(), 0};
  if (auto *I = dyn_cast<Instruction>(V)) return json::Array{"i", ids[I]};
  if (isa<UndefValue>(V)) return json::Array{"u"};
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    APInt Off(64, 0);
    const Value *B = CE->stripAndAccumulateConstantOffsets(*DL, Off, true);
    if (auto *GV = dyn_cast<GlobalValue>(B)) return json::Array{"g", GV->getName().str(), Off.getSExtValue()};
    if (CE->getOpcode() == Instruction::IntToPtr || CE->getOpcode() == Instruction::PtrToInt)
      return val(CE->getOperand(0));
    return json::Array{"u"};
  }
  if (auto *CF = dyn_cast<ConstantFP>(V)) return json::Array{"d", CF->getValueAPF().convertToDouble()};
  if (auto *C = dyn_cast<Constant>(V)) if (C->isNullValue()) return json::Array{"c", 0, 64};
  if (isa<MetadataAsValue>(V)) return json::Array{"m"};
  return json::Array{"u"};
}

static void flat(const Constant *C, uint64_t off, json::Array &out) {
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  Type *T = C->getType();
  if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
    uint64_t es = DL->getTypeAllocSize(CDS->getElementType());
    for (unsigned i = 0; i < CDS->getNumElements(); i++) {
      if (CDS->getElementType()->isIntegerTy()) {
        int64_t v = (int64_t)CDS->getElementAsAPInt(i).getSExtValue();
        if (v) out.push_back(json::Array{(int64_t)(off + i * es), (int64_t)es, json::Array{"c", v, (int64_t)es * 8}});
      } else out.push_back(json::Array{(int64_t)(off + i * es), (int64_t)es, json::Array{"u"}});
    }
    return;
  }
  if (auto *CA = dyn_cast<ConstantArray>(C)) {
    uint64_t es = DL->getTypeAllocSize(cast<ArrayType>(T)->getElementType());
    for (unsigned i = 0; i < CA->getNumOperands(); i++) flat(CA->getOperand(i), off + i * es, out);
    return;
  }
  if (auto *CS = dyn_cast<ConstantStruct>(C)) {
    const StructLayout *SL = DL->getStructLayout(cast<StructType>(T));
    for (unsigned i = 0; i < CS->getNumOperands(); i++) flat(CS->getOperand(i), off + SL->getElementOffset(i), out);
    return;
  }
  if (C->isNullValue()) return;
  out.push_back(json::Array{(int64_t)off, (int64_t)DL->getTypeStoreSize(T).getFixedValue(), val(C)});
}

static json::Value loc(const Instruction &I) {
  const DebugLoc &D = I.getDebugLoc();
  if (!D) return nullptr;
  const DILocation *L = D.get();
  return json::Array{L->getFilename().str(), (int64_t)L->getLine(), (int64_t)L->getColumn()};
}

int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  json::OStream JO(outs()); J = &JO;
  JO.objectBegin();
  JO.attributeBegin("globals"); JO.arrayBegin();
  for (auto &G : M->globals()) {
    JO.objectBegin();
    JO.attribute("name", G.getName());
    JO.attribute("const", G.isConstant());
    JO.attribute("local", G.hasLocalLinkage());
    JO.attribute("decl", G.isDeclaration());
    Type *T = G.getValueType();
    JO.attribute("size", T->isSized() ? (int64_t)DL->getTypeAllocSize(T).getFixedValue() : (int64_t)-1);
    json::Array cells;
    if (G.hasInitializer()) {
      if (auto *CDA = dyn_cast<ConstantDataArray>(G.getInitializer()))
        if (CDA->isString()) {
          // hex of the bytes
          std::string h; static const char *hx = "0123456789abcdef";
          for (unsigned char c : CDA->getAsString()) { h += hx[c >> 4]; h += hx[c & 15]; }
          JO.attribute("bytes", h);
        }
      flat(G.getInitializer(), 0, cells);
    }
    JO.attribute("cells", std::move(cells));
    SmallVector<DIGlobalVariableExpression *, 1> GVs; G.getDebugInfo(GVs);
    if (!GVs.empty()) { auto *V = GVs[0]->getVariable(); JO.attribute("file", V->getFilename()); JO.attribute("line", (int64_t)V->getLine()); }
    JO.objectEnd();
  }
  JO.arrayEnd(); JO.attributeEnd();
  JO.attributeBegin("functions"); JO.arrayBegin();
  for (auto &F : *M) {
    JO.objectBegin();
    JO.attribute("name", F.getName());
    JO.attribute("decl", F.isDeclaration());
    JO.attribute("local", F.hasLocalLinkage());
    JO.attribute("vararg", F.isVarArg());
    JO.attribute("ret", tyj(F.getReturnType()));
    json::Array at; for (auto &A : F.args()) at.push_back(tyj(A.getType()));
    JO.attribute("args", std::move(at));
    if (auto *SP = F.getSubprogram()) { JO.attribute("file", SP->getFilename()); JO.attribute("line", (int64_t)SP->getLine()); }
    if (!F.isDeclaration()) {
      ids.clear(); int n = 0; std::map<const BasicBlock *, int> bb; int b = 0;
      for (auto &B : F) { bb[&B] = b++; for (auto &I : B) ids[&I] = n++; }
      json::Object argn;
      JO.attributeBegin("blocks"); JO.arrayBegin();
      for (auto &B : F) {
        JO.arrayBegin();
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(&I)) continue;
          JO.objectBegin();
          JO.attribute("id", ids[&I]);
          JO.attribute("op", I.getOpcodeName());
          JO.attribute("ty", tyj(I.getType()));
          JO.attribute("loc", loc(I));
          if (auto *GEP = dyn_cast<GetElementPtrInst>(&I)) {
            APInt co(64, 0); MapVector<Value *, APInt> vo;
            if (GEP->collectOffset(*DL, 64, vo, co)) {
              JO.attribute("base", val(GEP->getPointerOperand()));
              JO.attribute("off", co.getSExtValue());
              json::Array ix;
              for (auto &p : vo) ix.push_back(json::Array{val(p.first), p.second.getSExtValue()});
              JO.attribute("idx", std::move(ix));
            } else JO.attribute("base", json::Array{"u"});
          } else if (auto *AI = dyn_cast<AllocaInst>(&I)) {
            JO.attribute("esize", (int64_t)DL->getTypeAllocSize(AI->getAllocatedType()).getFixedValue());
            JO.attribute("n", val(AI->getArraySize()));
          } else if (auto *CB = dyn_cast<CallBase>(&I)) {
            const Value *callee = CB->getCalledOperand()->stripPointerCasts();
            JO.attribute("callee", val(callee));
            json::Array as, aty; for (auto &A : CB->args()) { as.push_back(val(A.get())); aty.push_back(tyj(A->getType())); }
            JO.attribute("ops", std::move(as));
            JO.attribute("aty", std::move(aty));
          } else if (auto *PN = dyn_cast<PHINode>(&I)) {
            json::Array in;
            for (unsigned i = 0; i < PN->getNumIncomingValues(); i++)
              in.push_back(json::Array{bb[PN->getIncomingBlock(i)], val(PN->getIncomingValue(i))});
            JO.attribute("in", std::move(in));
          } else if (auto *BI = dyn_cast<BranchInst>(&I)) {
            if (BI->isConditional()) JO.attribute("cond", val(BI->getCondition()));
            json::Array s; for (unsigned q = 0; q < BI->getNumSuccessors(); q++) s.push_back(bb[BI->getSuccessor(q)]);
            JO.attribute("succ", std::move(s));
          } else if (auto *SI = dyn_cast<SwitchInst>(&I)) {
            JO.attribute("cond", val(SI->getCondition()));
            json::Array cs;
            for (auto &C : SI->cases()) cs.push_back(json::Array{C.getCaseValue()->getSExtValue(), bb[C.getCaseSuccessor()]});
            JO.attribute("cases", std::move(cs));
            JO.attribute("default", bb[SI->getDefaultDest()]);
          } else {
            if (auto *CI = dyn_cast<CmpInst>(&I)) {
              JO.attribute("pred", CmpInst::getPredicateName(CI->getPredicate()));
              JO.attribute("oty", tyj(CI->getOperand(0)->getType()));
            }
            if (auto *LI = dyn_cast<LoadInst>(&I)) JO.attribute("size", (int64_t)DL->getTypeStoreSize(LI->getType()).getFixedValue());
            if (auto *SI = dyn_cast<StoreInst>(&I)) JO.attribute("size", (int64_t)DL->getTypeStoreSize(SI->getValueOperand()->getType()).getFixedValue());
            if (auto *CI = dyn_cast<CastInst>(&I)) JO.attribute("sty", tyj(CI->getOperand(0)->getType()));
            json::Array os; for (auto &O : I.operands()) os.push_back(val(O.get()));
            JO.attribute("ops", std::move(os));
          }
          JO.objectEnd();
        }
        JO.arrayEnd();
      }
      JO.arrayEnd(); JO.attributeEnd();
    }
    JO.objectEnd();
  }
  JO.arrayEnd(); JO.attributeEnd();
  JO.objectEnd();
  outs() << "\n";
  return 0;
}
