// irdump: links LLVM bitcode/IR modules, applies mem2reg, and dumps the
// resolved program (functions, CFG, loops, globals, class layouts and vtable
// slots from debug info) as JSON for the abstract interpreter in /verif/engine.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/LegacyPassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <map>
#include <set>
using namespace llvm;

static json::OStream *J;
static const DataLayout *DL;
static std::map<const Value *, int> ids;

static std::string typeStr(Type *t) {
  if (t->isVoidTy()) return "void";
  if (t->isPointerTy()) return "ptr";
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  std::string s; raw_string_ostream os(s); t->print(os); return os.str();
}

static std::string intStr(const APInt &v) {
  SmallString<40> s; v.toString(s, 10, false); return std::string(s.str());
}

static json::Value constVal(const Value *v);

static json::Value operandVal(const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constVal(c);
  if (auto *a = dyn_cast<Argument>(v)) return json::Array{"a", (int64_t)a->getArgNo()};
  if (isa<InlineAsm>(v)) return json::Array{"asm"};
  if (isa<MetadataAsValue>(v)) return json::Array{"md"};
  auto it = ids.find(v);
  if (it == ids.end()) return json::Array{"?"};
  return json::Array{"v", it->second};
}

static json::Value constVal(const Value *v) {
  if (auto *ci = dyn_cast<ConstantInt>(v))
    return json::Array{"c", (int64_t)ci->getBitWidth(), intStr(ci->getValue())};
  if (isa<ConstantPointerNull>(v)) return json::Array{"null"};
  if (isa<UndefValue>(v)) return json::Array{"undef", typeStr(v->getType())};
  if (auto *f = dyn_cast<Function>(v)) return json::Array{"fn", f->getName().str()};
  if (auto *g = dyn_cast<GlobalVariable>(v)) return json::Array{"g", g->getName().str()};
  if (auto *ga = dyn_cast<GlobalAlias>(v)) return constVal(ga->getAliasee());
  if (isa<ConstantAggregateZero>(v)) return json::Array{"zero", typeStr(v->getType())};
  if (auto *ce = dyn_cast<ConstantExpr>(v)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off))
        return json::Array{"cgep", constVal(gep->getPointerOperand()), (int64_t)off.getSExtValue()};
    }
    return json::Array{"cexpr", ce->getOpcodeName()};
  }
  if (isa<ConstantFP>(v)) return json::Array{"fp"};
  return json::Array{"const?"};
}

// flatten an initializer to (offset,size,value) list
static void flatten(const Constant *c, uint64_t off, json::Array &out) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c)) {
    out.push_back(json::Array{(int64_t)off, (int64_t)(uint64_t)DL->getTypeAllocSize(t), json::Array{"zero", ""}});
    return;
  }
  if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es = DL->getTypeAllocSize(cds->getElementType());
    for (unsigned i = 0; i < cds->getNumElements(); i++)
      out.push_back(json::Array{(int64_t)(off + i * es), (int64_t)es, constVal(cds->getElementAsConstant(i))});
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) flatten(ca->getOperand(i), off + i * es, out);
    return;
  }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    auto *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) flatten(cs->getOperand(i), off + (uint64_t)sl->getElementOffset(i), out);
    return;
  }
  out.push_back(json::Array{(int64_t)off, (int64_t)(uint64_t)DL->getTypeAllocSize(t), constVal(c)});
}

static std::string dityName(const DIType *t, int depth = 0) {
  if (!t) return "void";
  if (depth > 8) return "?";
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
    case dwarf::DW_TAG_pointer_type: return dityName(d->getBaseType(), depth + 1) + "*";
    case dwarf::DW_TAG_reference_type: case dwarf::DW_TAG_rvalue_reference_type: return dityName(d->getBaseType(), depth + 1) + "&";
    case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type: case dwarf::DW_TAG_typedef:
      return dityName(d->getBaseType(), depth + 1);
    default: return d->getName().str();
    }
  }
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      std::string n = dityName(c->getBaseType(), depth + 1);
      for (auto *e : c->getElements())
        if (auto *sr = dyn_cast<DISubrange>(e))
          if (auto *ci = dyn_cast_if_present<ConstantInt *>(sr->getCount())) n += "[" + std::to_string(ci->getSExtValue()) + "]";
      return n;
    }
    std::string scope;
    const DIScope *s = c->getScope();
    while (s && (isa<DINamespace>(s) || isa<DICompositeType>(s))) { scope = s->getName().str() + "::" + scope; s = s->getScope(); }
    std::string nm = c->getName().str();
    if (nm.empty()) nm = "<anon>";
    return scope + nm;
  }
  if (isa<DISubroutineType>(t)) return "<fn>";
  return t->getName().str();
}

static void loc(const DebugLoc &dl) {
  if (!dl) return;
  const DILocation *l = dl.get();
  J->attribute("ln", (int64_t)l->getLine());
  auto *sc = l->getScope();
  if (sc) J->attribute("fl", sc->getFilename().str());
}

int main(int argc, char **argv) {
  LLVMContext ctx;
  std::unique_ptr<Module> M;
  for (int i = 2; i < argc; i++) {
    SMDiagnostic err;
    auto m = parseIRFile(argv[i], err, ctx);
    if (!m) { err.print(argv[0], errs()); return 2; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m), Linker::Flags::OverrideFromSrc)) return 3;
  }
  DL = &M->getDataLayout();
  // promote scalars
  for (Function &F : *M) {
    if (F.isDeclaration()) continue;
    // drop unreachable blocks first
    for (;;) {
      DominatorTree DT(F);
      std::vector<AllocaInst *> al;
      for (Instruction &I : F.getEntryBlock())
        if (auto *a = dyn_cast<AllocaInst>(&I)) if (isAllocaPromotable(a)) al.push_back(a);
      if (al.empty()) break;
      PromoteMemToReg(al, DT);
    }
  }
  std::error_code ec;
  raw_fd_ostream os(argv[1], ec);
  json::OStream js(os, 0); J = &js;
  js.objectBegin();
  js.attribute("ptrbits", (int64_t)DL->getPointerSizeInBits());
  // globals
  js.attributeBegin("globals"); js.objectBegin();
  for (GlobalVariable &g : M->globals()) {
    js.attributeBegin(g.getName().str()); js.objectBegin();
    js.attribute("size", (int64_t)(uint64_t)DL->getTypeAllocSize(g.getValueType()));
    js.attribute("const", g.isConstant());
    js.attribute("type", typeStr(g.getValueType()));
    SmallVector<DIGlobalVariableExpression *, 2> gvs; g.getDebugInfo(gvs);
    if (!gvs.empty()) {
      js.attribute("dity", dityName(gvs[0]->getVariable()->getType()));
      js.attribute("diname", gvs[0]->getVariable()->getName());
    }
    if (g.hasInitializer()) {
      json::Array a; flatten(g.getInitializer(), 0, a);
      js.attribute("init", json::Value(std::move(a)));
    }
    js.objectEnd(); js.attributeEnd();
  }
  js.objectEnd(); js.attributeEnd();
  // debug-info composite types
  DebugInfoFinder dif; dif.processModule(*M);
  std::set<std::string> seen;
  js.attributeBegin("types"); js.objectBegin();
  std::map<std::string, const DICompositeType *> best;
  for (const DIType *t : dif.types())
    if (auto *c = dyn_cast<DICompositeType>(t)) {
      if (c->getTag() == dwarf::DW_TAG_array_type) continue;
      if (c->isForwardDecl()) continue;
      best.emplace(dityName(c), c);
    }
  for (auto &kv : best) {
    const DICompositeType *c = kv.second;
    js.attributeBegin(kv.first); js.objectBegin();
    js.attribute("size", (int64_t)c->getSizeInBits() / 8);
    js.attribute("tag", (int64_t)c->getTag());
    js.attribute("file", c->getFilename().str());
    js.attributeBegin("members"); js.arrayBegin();
    for (auto *e : c->getElements()) {
      if (auto *d = dyn_cast<DIDerivedType>(e)) {
        if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember()) {
          js.objectBegin();
          js.attribute("name", d->getName());
          js.attribute("off", (int64_t)d->getOffsetInBits() / 8);
          js.attribute("size", (int64_t)d->getSizeInBits() / 8);
          js.attribute("type", dityName(d->getBaseType()));
          js.objectEnd();
        }
      }
    }
    js.arrayEnd(); js.attributeEnd();
    js.attributeBegin("bases"); js.arrayBegin();
    for (auto *e : c->getElements())
      if (auto *d = dyn_cast<DIDerivedType>(e))
        if (d->getTag() == dwarf::DW_TAG_inheritance) {
          js.arrayBegin(); js.value(dityName(d->getBaseType())); js.value((int64_t)d->getOffsetInBits() / 8); js.arrayEnd();
        }
    js.arrayEnd(); js.attributeEnd();
    js.attributeBegin("methods"); js.arrayBegin();
    for (auto *e : c->getElements())
      if (auto *sp = dyn_cast<DISubprogram>(e)) {
        js.objectBegin();
        js.attribute("name", sp->getName());
        js.attribute("link", sp->getLinkageName());
        js.attribute("virt", (int64_t)(sp->getVirtuality() ? (int64_t)sp->getVirtualIndex() : -1));
        js.attribute("access", (int64_t)(sp->getFlags() & DINode::FlagAccessibility));
        js.attribute("static", (sp->getFlags() & DINode::FlagStaticMember) != 0);
        js.objectEnd();
      }
    js.arrayEnd(); js.attributeEnd();
    js.attributeBegin("enum"); js.objectBegin();
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
      std::set<std::string> en;
      for (auto *e : c->getElements())
        if (auto *d = dyn_cast<DIEnumerator>(e))
          if (en.insert(d->getName().str()).second) js.attribute(d->getName(), intStr(d->getValue()));
    }
    js.objectEnd(); js.attributeEnd();
    js.objectEnd(); js.attributeEnd();
  }
  js.objectEnd(); js.attributeEnd();
  // functions
  js.attributeBegin("functions"); js.objectBegin();
  for (Function &F : *M) {
    if (F.getName().starts_with("llvm.dbg")) continue;
    js.attributeBegin(F.getName().str()); js.objectBegin();
    js.attribute("dem", demangle(F.getName().str()));
    js.attribute("ret", typeStr(F.getReturnType()));
    js.attribute("vararg", F.isVarArg());
    js.attributeBegin("params"); js.arrayBegin();
    for (auto &a : F.args()) {
      js.objectBegin();
      js.attribute("type", typeStr(a.getType()));
      if (a.hasStructRetAttr()) { js.attribute("sret", (int64_t)(uint64_t)DL->getTypeAllocSize(a.getParamStructRetType())); }
      if (a.hasByValAttr()) { js.attribute("byval", (int64_t)(uint64_t)DL->getTypeAllocSize(a.getParamByValType())); }
      js.objectEnd();
    }
    js.arrayEnd(); js.attributeEnd();
    if (auto *sp = F.getSubprogram()) {
      js.attribute("file", sp->getFilename().str());
      js.attribute("line", (int64_t)sp->getLine());
      std::string cls;
      if (auto *c = dyn_cast_or_null<DICompositeType>(sp->getScope())) cls = dityName(c);
      if (auto *dcl = sp->getDeclaration()) if (auto *c = dyn_cast_or_null<DICompositeType>(dcl->getScope())) cls = dityName(c);
      if (!cls.empty()) js.attribute("class", cls);
      js.attribute("name", sp->getName());
      js.attribute("static", (sp->getFlags() & DINode::FlagStaticMember) != 0 || (sp->getDeclaration() && (sp->getDeclaration()->getFlags() & DINode::FlagStaticMember) != 0));
      js.attributeBegin("ptypes"); js.arrayBegin();
      if (auto *st = sp->getType()) {
        auto arr = st->getTypeArray();
        for (unsigned i = 0; i < arr.size(); i++) js.value(dityName(arr[i]));
      }
      js.arrayEnd(); js.attributeEnd();
    }
    js.attribute("decl", F.isDeclaration());
    if (!F.isDeclaration()) {
      ids.clear();
      std::map<const BasicBlock *, int> bid;
      int n = 0, bn = 0;
      for (auto &B : F) { bid[&B] = bn++; for (auto &I : B) ids[&I] = n++; }
      DominatorTree DT(F); LoopInfo LI(DT);
      js.attributeBegin("loops"); js.arrayBegin();
      for (Loop *L : LI.getLoopsInPreorder()) {
        js.objectBegin();
        js.attribute("header", bid[L->getHeader()]);
        js.attribute("depth", (int64_t)L->getLoopDepth());
        js.attributeBegin("blocks"); js.arrayBegin();
        for (auto *b : L->blocks()) js.value(bid[b]);
        js.arrayEnd(); js.attributeEnd();
        js.objectEnd();
      }
      js.arrayEnd(); js.attributeEnd();
      js.attributeBegin("blocks"); js.arrayBegin();
      for (auto &B : F) {
        js.arrayBegin();
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(I)) {
            if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
              // names for values: helps reports only
              js.objectBegin(); js.attribute("op", "dbg");
              js.attribute("name", dv->getVariable()->getName());
              js.attribute("ty", dityName(dv->getVariable()->getType()));
              if (dv->getNumVariableLocationOps() == 1 && dv->getVariableLocationOp(0)) js.attribute("val", operandVal(dv->getVariableLocationOp(0)));
              loc(I.getDebugLoc());
              js.objectEnd();
            }
            continue;
          }
          js.objectBegin();
          js.attribute("op", I.getOpcodeName());
          js.attribute("id", ids[&I]);
          js.attribute("ty", typeStr(I.getType()));
          loc(I.getDebugLoc());
          if (auto *a = dyn_cast<AllocaInst>(&I)) {
            js.attribute("size", (int64_t)(uint64_t)DL->getTypeAllocSize(a->getAllocatedType()));
            js.attribute("n", operandVal(a->getArraySize()));
            js.attribute("aty", typeStr(a->getAllocatedType()));
          } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
            MapVector<Value *, APInt> vo; APInt co(64, 0);
            g->accumulateConstantOffset(*DL, co);
            co = APInt(64, 0);
            bool ok = cast<GEPOperator>(g)->collectOffset(*DL, 64, vo, co);
            js.attribute("ok", ok);
            js.attribute("sty", typeStr(g->getSourceElementType()));
            js.attribute("base", operandVal(g->getPointerOperand()));
            js.attribute("off", (int64_t)co.getSExtValue());
            js.attributeBegin("vars"); js.arrayBegin();
            for (auto &kv : vo) { js.arrayBegin(); js.value(operandVal(kv.first)); js.value((int64_t)kv.second.getSExtValue()); js.arrayEnd(); }
            js.arrayEnd(); js.attributeEnd();
            // subscripts of arrays of known size that are accessed directly
            bool acc = false;
            for (auto *u : g->users())
              acc |= isa<LoadInst>(u) || (isa<StoreInst>(u) && cast<StoreInst>(u)->getPointerOperand() == g);
            if (acc) {
              js.attributeBegin("arr"); js.arrayBegin();
              SmallVector<Value *, 4> pre;
              for (auto &ix : g->indices()) {
                if (!pre.empty())
                  if (auto *at = dyn_cast_or_null<ArrayType>(GetElementPtrInst::getIndexedType(g->getSourceElementType(), pre)))
                    if (at->getNumElements() > 1) { js.arrayBegin(); js.value(operandVal(ix.get())); js.value((int64_t)at->getNumElements()); js.arrayEnd(); }
                pre.push_back(ix.get());
              }
              js.arrayEnd(); js.attributeEnd();
            }
          } else if (auto *c = dyn_cast<CallBase>(&I)) {
            js.attribute("callee", operandVal(c->getCalledOperand()));
            js.attribute("intr", isa<IntrinsicInst>(c));
            js.attributeBegin("ops"); js.arrayBegin();
            for (auto &u : c->args()) js.value(operandVal(u.get()));
            js.arrayEnd(); js.attributeEnd();
            js.attributeBegin("otys"); js.arrayBegin();
            for (auto &u : c->args()) js.value(typeStr(u.get()->getType()));
            js.arrayEnd(); js.attributeEnd();
            for (unsigned k = 0; k < c->arg_size(); k++) {
              if (c->isByValArgument(k)) js.attribute("byval" + std::to_string(k), (int64_t)(uint64_t)DL->getTypeAllocSize(c->getParamByValType(k)));
              if (c->paramHasAttr(k, Attribute::StructRet)) js.attribute("sret", (int64_t)(uint64_t)DL->getTypeAllocSize(c->getParamStructRetType(k)));
            }
          } else if (auto *p = dyn_cast<PHINode>(&I)) {
            js.attributeBegin("inc"); js.arrayBegin();
            for (unsigned k = 0; k < p->getNumIncomingValues(); k++) {
              js.arrayBegin(); js.value(bid[p->getIncomingBlock(k)]); js.value(operandVal(p->getIncomingValue(k))); js.arrayEnd();
            }
            js.arrayEnd(); js.attributeEnd();
          } else if (auto *br = dyn_cast<BranchInst>(&I)) {
            js.attributeBegin("succ"); js.arrayBegin();
            for (unsigned k = 0; k < br->getNumSuccessors(); k++) js.value(bid[br->getSuccessor(k)]);
            js.arrayEnd(); js.attributeEnd();
            if (br->isConditional()) js.attribute("cond", operandVal(br->getCondition()));
          } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
            js.attribute("cond", operandVal(sw->getCondition()));
            js.attribute("default", bid[sw->getDefaultDest()]);
            js.attributeBegin("cases"); js.arrayBegin();
            for (auto &cs : sw->cases()) { js.arrayBegin(); js.value(intStr(cs.getCaseValue()->getValue())); js.value(bid[cs.getCaseSuccessor()]); js.arrayEnd(); }
            js.arrayEnd(); js.attributeEnd();
          } else {
            if (auto *cmp = dyn_cast<CmpInst>(&I)) js.attribute("pred", CmpInst::getPredicateName(cmp->getPredicate()));
            if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
              js.attributeBegin("idx"); js.arrayBegin(); for (auto x : ev->indices()) js.value((int64_t)x); js.arrayEnd(); js.attributeEnd();
            }
            if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
              js.attributeBegin("idx"); js.arrayBegin(); for (auto x : iv->indices()) js.value((int64_t)x); js.arrayEnd(); js.attributeEnd();
            }
            js.attributeBegin("ops"); js.arrayBegin();
            for (auto &u : I.operands()) js.value(operandVal(u.get()));
            js.arrayEnd(); js.attributeEnd();
            js.attributeBegin("otys"); js.arrayBegin();
            for (auto &u : I.operands()) js.value(typeStr(u.get()->getType()));
            js.arrayEnd(); js.attributeEnd();
          }
          js.objectEnd();
        }
        js.arrayEnd();
      }
      js.arrayEnd(); js.attributeEnd();
    }
    js.objectEnd(); js.attributeEnd();
  }
  js.objectEnd(); js.attributeEnd();
  js.objectEnd();
  return 0;
}
