// irdump: link the bitcode of the library, normalise it (inline every function
// that comes from the analysed source tree, promote memory to SSA, unroll the
// constant-trip component loops) and print a compact JSON form of the result.
//
//   irdump --src <prefix> [--opaque <regex>]... [--inline <regex>]... [--keep <regex>]...
//          [--no-unroll] [--keep-eh] -o out.json in.bc...
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/StringMap.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/Local.h>
#include <llvm/Analysis/TargetTransformInfo.h>
#include <map>
#include <set>
using namespace llvm;

static cl::list<std::string> Inputs(cl::Positional, cl::OneOrMore);
static cl::opt<std::string> Out("o", cl::Required);
static cl::list<std::string> Src("src", cl::OneOrMore);
static cl::list<std::string> Opaque("opaque");
static cl::list<std::string> Inl("inline-also");
static cl::list<std::string> NoInl("no-inline");
static cl::list<std::string> Keep("keep");
static cl::opt<bool> Reduce("reduce");
static cl::opt<std::string> Passes("pipeline", cl::init(""));
static cl::opt<bool> KeepEH("keep-eh");
static cl::opt<bool> EmitLL("emit-ll");

static std::string fileOf(const DISubprogram *sp) {
  if (!sp || !sp->getFile()) return "";
  SmallString<256> p;
  StringRef f = sp->getFile()->getFilename();
  if (f.starts_with("/")) return f.str();
  p = sp->getFile()->getDirectory(); p += "/"; p += f;
  return std::string(p);
}
static bool inSrc(const std::string &f) { for (auto &s : Src) if (StringRef(f).contains(s)) return true; return false; }

static bool matchAny(const std::vector<Regex> &rs, StringRef s) {
  for (auto &r : rs) if (r.match(s)) return true;
  return false;
}

int main(int argc, char **argv) {
  std::vector<const char *> av(argv, argv + argc);
  for (auto *o : {"--unroll-threshold=20000", "--unroll-max-iteration-count-to-analyze=16"}) av.push_back(o);
  cl::ParseCommandLineOptions(av.size(), av.data());
  LLVMContext ctx;
  SMDiagnostic err;
  std::unique_ptr<Module> M;
  for (auto &f : Inputs) {
    auto m = parseIRFile(f, err, ctx);
    if (!m) { err.print("irdump", errs()); return 3; }
    if (!M) { M = std::move(m); continue; }
    if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed: " << f << "\n"; return 3; }
  }
  for (auto &A : make_early_inc_range(M->aliases())) {
    if (auto *g = dyn_cast<GlobalObject>(A.getAliasee()->stripPointerCasts())) { A.replaceAllUsesWith(g); A.eraseFromParent(); }
  }
  std::vector<Regex> rOpaque, rInl, rKeep, rNo;
  for (auto &s : NoInl) rNo.emplace_back(s);
  for (auto &s : Opaque) rOpaque.emplace_back(s);
  for (auto &s : Inl) rInl.emplace_back(s);
  for (auto &s : Keep) rKeep.emplace_back(s);

  std::map<std::string, std::string> origFile; // function -> source file
  std::map<std::string, unsigned> origLine;
  std::set<std::string> opaqueSet;
  std::set<std::string> keepSet;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    std::string file = fileOf(F.getSubprogram());
    std::string dn = demangle(F.getName().str());
    origFile[F.getName().str()] = file;
    origLine[F.getName().str()] = F.getSubprogram() ? F.getSubprogram()->getLine() : 0;
    bool repo = inSrc(file);
    // outlined parallel regions carry the location of their parent
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::AlwaysInline);
    F.removeFnAttr(Attribute::InlineHint);
    // a closure is named after the function around it
    bool closure = dn.find("::$_") != std::string::npos || dn.find("'lambda") != std::string::npos;
    bool opq = !closure && matchAny(rOpaque, dn);
    bool inl = (repo || (matchAny(rInl, dn) && !matchAny(rNo, dn))) && !opq;
    if (F.getName().contains("omp_outlined")) inl = false;
    if (F.isVarArg()) inl = false;
    if (F.hasAddressTaken() && F.getName().contains("omp_outlined")) inl = false;
    if (matchAny(rKeep, dn) || repo) keepSet.insert(F.getName().str());
    if (opq) opaqueSet.insert(F.getName().str());
    if (inl) {
      F.removeFnAttr(Attribute::NoInline);
      F.addFnAttr(Attribute::AlwaysInline);
    } else {
      F.addFnAttr(Attribute::NoInline);
      if (!repo) { // library code: model by name, drop the body
        F.deleteBody();
        F.setComdat(nullptr);
      }
    }
    if (!F.isDeclaration()) { F.setComdat(nullptr); if (!Reduce) F.setLinkage(GlobalValue::ExternalLinkage); }
  }

  if (Reduce) {
    for (auto &F : *M) if (!F.isDeclaration() && !F.hasLocalLinkage()) F.setLinkage(GlobalValue::WeakODRLinkage);
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, "strip-dead-prototypes")) { errs() << toString(std::move(e)); return 3; }
    MPM.run(*M, MAM);
    std::error_code ec; raw_fd_ostream o(Out, ec); WriteBitcodeToFile(*M, o); return 0;
  }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  std::string pl = Passes;
  if (pl.empty()) {
    std::string head = KeepEH ? "" : "function(lowerinvoke),";
    pl = head +
      "function(simplifycfg<no-hoist-common-insts;no-sink-common-insts>),"
      "always-inline,"
      "function(simplifycfg<no-hoist-common-insts;no-sink-common-insts>,sroa<modify-cfg>,early-cse,instsimplify,"
      "simplifycfg<no-hoist-common-insts;no-sink-common-insts>,"
      "loop-simplify,lcssa,loop(indvars),"
      "loop-unroll<O3;full-unroll-max=8;no-partial;no-runtime;no-peeling;no-upperbound>,"
      "sroa<modify-cfg>,early-cse<memssa>,instsimplify,adce,"
      "simplifycfg<no-hoist-common-insts;no-sink-common-insts>)";
  }
  ModulePassManager MPM;
  if (auto e = PB.parsePassPipeline(MPM, pl)) { errs() << "pipeline: " << toString(std::move(e)) << "\n"; return 3; }
  MPM.run(*M, MAM);
  if (EmitLL) { std::error_code ec; raw_fd_ostream o(Out + ".ll", ec); M->print(o, nullptr); }

  // ---- dump
  std::error_code ec;
  raw_fd_ostream os(Out, ec);
  if (ec) { errs() << ec.message() << "\n"; return 3; }
  json::OStream J(os);
  const DataLayout &DL = M->getDataLayout();

  std::map<const DILocation *, int> locIds;
  std::vector<const DILocation *> locs;
  std::function<int(const DILocation *)> locId = [&](const DILocation *l) -> int {
    if (!l) return -1;
    auto it = locIds.find(l);
    if (it != locIds.end()) return it->second;
    if (l->getInlinedAt()) locId(l->getInlinedAt());
    int id = locs.size();
    locs.push_back(l); locIds[l] = id;
    return id;
  };
  std::map<Type *, int> structIds;
  std::vector<StructType *> structs;
  std::function<std::string(Type *)> tyStr = [&](Type *t) {
    std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str();
  };

  J.objectBegin();
  J.attributeBegin("functions");
  J.arrayBegin();
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    std::string nm = F.getName().str();
    if (!keepSet.count(nm) && !F.getName().contains("omp_outlined")) continue;
    J.objectBegin();
    J.attribute("name", nm);
    J.attribute("dem", demangle(nm));
    J.attribute("file", origFile.count(nm) ? origFile[nm] : "");
    J.attribute("line", (int64_t)origLine[nm]);
    J.attribute("opaque", opaqueSet.count(nm) != 0);
    std::map<const Value *, int> id;
    int n = 0;
    J.attributeBegin("args"); J.arrayBegin();
    for (auto &A : F.args()) {
      id[&A] = n++;
      J.arrayBegin(); J.value(tyStr(A.getType())); J.value(A.getName()); J.value(A.hasStructRetAttr()); J.arrayEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.attribute("ret", tyStr(F.getReturnType()));
    std::map<const BasicBlock *, int> bid;
    int nb = 0;
    for (auto &B : F) bid[&B] = nb++;
    for (auto &B : F) for (auto &I : B) if (!I.isDebugOrPseudoInst()) id[&I] = n++;
    std::function<void(const Value *)> val = [&](const Value *v) {
      auto it = id.find(v);
      if (it != id.end()) { J.value((int64_t)it->second); return; }
      if (auto *B = dyn_cast<BasicBlock>(v)) { J.value("b" + std::to_string(bid[B])); return; }
      J.arrayBegin();
      if (auto *c = dyn_cast<ConstantInt>(v)) {
        J.value("i");
        SmallString<32> s; c->getValue().toStringSigned(s);
        J.value(s.str()); J.value((int64_t)c->getBitWidth());
      } else if (auto *c = dyn_cast<ConstantFP>(v)) {
        J.value("f");
        SmallString<32> s; c->getValueAPF().convertToDouble();
        bool lose; APFloat a = c->getValueAPF(); a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
        double d = a.convertToDouble(); char buf[64]; snprintf(buf, sizeof buf, "%a", d); J.value(buf);
      } else if (isa<ConstantPointerNull>(v)) { J.value("null");
      } else if (isa<UndefValue>(v)) { J.value(isa<PoisonValue>(v) ? "poison" : "undef");
      } else if (auto *f = dyn_cast<Function>(v)) { J.value("fn"); J.value(f->getName());
      } else if (auto *g = dyn_cast<GlobalVariable>(v)) {
        J.value("g"); J.value(g->getName());
        if (g->hasInitializer()) {
          if (auto *s = dyn_cast<ConstantDataSequential>(g->getInitializer()); s && s->isCString()) J.value(json::fixUTF8(s->getAsCString()));
        }
      } else if (auto *ce = dyn_cast<ConstantExpr>(v)) {
        J.value("ce"); J.value(ce->getOpcodeName()); for (auto &o : ce->operands()) val(o);
        if (auto *g = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); if (g->accumulateConstantOffset(DL, off)) J.value("off:" + std::to_string(off.getSExtValue())); }
      } else if (isa<ConstantAggregateZero>(v)) { J.value("zero");
      } else if (auto *ca = dyn_cast<ConstantAggregate>(v)) { J.value("agg"); for (auto &o : ca->operands()) val(o);
      } else if (auto *cd = dyn_cast<ConstantDataSequential>(v)) {
        J.value("agg"); for (unsigned i = 0; i < cd->getNumElements(); i++) val(cd->getElementAsConstant(i));
      } else if (isa<MetadataAsValue>(v)) { J.value("md");
      } else if (isa<InlineAsm>(v)) { J.value("asm");
      } else { J.value("?"); }
      J.arrayEnd();
    };
    J.attributeBegin("blocks"); J.arrayBegin();
    for (auto &B : F) {
      J.arrayBegin();
      for (auto &I : B) {
        if (I.isDebugOrPseudoInst()) continue;
        J.objectBegin();
        J.attribute("o", I.getOpcodeName());
        J.attribute("i", id[&I]);
        if (!I.getType()->isVoidTy()) J.attribute("t", tyStr(I.getType()));
        if (I.getDebugLoc()) J.attribute("l", locId(I.getDebugLoc().get()));
        if (auto *p = dyn_cast<PHINode>(&I)) {
          J.attributeBegin("in"); J.arrayBegin();
          for (unsigned k = 0; k < p->getNumIncomingValues(); k++) {
            J.arrayBegin(); J.value(bid[p->getIncomingBlock(k)]); val(p->getIncomingValue(k)); J.arrayEnd();
          }
          J.arrayEnd(); J.attributeEnd();
        } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
          J.attributeBegin("a"); J.arrayBegin(); val(g->getPointerOperand()); J.arrayEnd(); J.attributeEnd();
          J.attribute("st", tyStr(g->getSourceElementType()));
          J.attributeBegin("ix"); J.arrayBegin(); for (auto &o : g->indices()) val(o); J.arrayEnd(); J.attributeEnd();
          // constant part and variable parts of the byte offset
          MapVector<Value *, APInt> vo; APInt co(64, 0);
          if (g->collectOffset(DL, 64, vo, co)) {
            J.attribute("off", co.getSExtValue());
            if (!vo.empty()) {
              J.attributeBegin("voff"); J.arrayBegin();
              for (auto &kv : vo) { J.arrayBegin(); val(kv.first); J.value(kv.second.getSExtValue()); J.arrayEnd(); }
              J.arrayEnd(); J.attributeEnd();
            }
          }
        } else if (auto *c = dyn_cast<CallBase>(&I)) {
          J.attributeBegin("f"); val(c->getCalledOperand()); J.attributeEnd();
          J.attributeBegin("a"); J.arrayBegin(); for (auto &o : c->args()) val(o); J.arrayEnd(); J.attributeEnd();
          if (c->hasStructRetAttr()) J.attribute("sret", true);
          {
            bool anyBV = false; for (unsigned k = 0; k < c->arg_size(); k++) if (c->isByValArgument(k)) anyBV = true;
            if (anyBV) { J.attributeBegin("byval"); J.arrayBegin(); for (unsigned k = 0; k < c->arg_size(); k++) if (c->isByValArgument(k)) J.value((int64_t)k); J.arrayEnd(); J.attributeEnd(); }
          }
          if (c->doesNotReturn()) J.attribute("nr", true);
          if (auto *inv = dyn_cast<InvokeInst>(&I)) {
            J.attribute("nd", bid[inv->getNormalDest()]); J.attribute("ud", bid[inv->getUnwindDest()]);
          }
        } else {
          J.attributeBegin("a"); J.arrayBegin();
          if (auto *br = dyn_cast<BranchInst>(&I)) {
            if (br->isConditional()) val(br->getCondition());
          } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
            val(sw->getCondition());
          } else for (auto &o : I.operands()) val(o.get());
          J.arrayEnd(); J.attributeEnd();
          if (auto *c = dyn_cast<CmpInst>(&I)) J.attribute("p", CmpInst::getPredicateName(c->getPredicate()));
          if (auto *a = dyn_cast<AllocaInst>(&I)) { J.attribute("at", tyStr(a->getAllocatedType())); J.attribute("nm", a->getName()); J.attribute("sz", (int64_t)DL.getTypeAllocSize(a->getAllocatedType()).getFixedValue()); }
          if (auto *s = dyn_cast<StoreInst>(&I)) { J.attribute("vt", tyStr(s->getValueOperand()->getType())); J.attribute("sz", (int64_t)DL.getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue()); }
          if (auto *l = dyn_cast<LoadInst>(&I)) J.attribute("sz", (int64_t)DL.getTypeStoreSize(l->getType()).getFixedValue());
          if (isa<ExtractValueInst>(&I) || isa<InsertValueInst>(&I)) {
            J.attributeBegin("xi"); J.arrayBegin();
            auto idx = isa<ExtractValueInst>(&I) ? cast<ExtractValueInst>(I).getIndices() : cast<InsertValueInst>(I).getIndices();
            for (auto k : idx) J.value((int64_t)k);
            J.arrayEnd(); J.attributeEnd();
          }
          if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) J.attribute("rmw", AtomicRMWInst::getOperationName(rm->getOperation()));
        }
        if (auto *t = I.getMetadata(LLVMContext::MD_tbaa)) {
          // (base type name, access type name, offset)
          if (t->getNumOperands() >= 3) {
            auto nmOf = [](Metadata *m) -> std::string { auto *n = dyn_cast_or_null<MDNode>(m); if (!n || n->getNumOperands() == 0) return ""; auto *s = dyn_cast<MDString>(n->getOperand(0)); return s ? s->getString().str() : ""; };
            std::string b = nmOf(t->getOperand(0)), a = nmOf(t->getOperand(1));
            auto *off = mdconst::dyn_extract<ConstantInt>(t->getOperand(2));
            J.attributeBegin("tb"); J.arrayBegin(); J.value(b); J.value(a); J.value((int64_t)(off ? off->getZExtValue() : 0)); J.arrayEnd(); J.attributeEnd();
          }
        }
        if (I.isTerminator()) {
          J.attributeBegin("s"); J.arrayBegin();
          if (auto *sw = dyn_cast<SwitchInst>(&I)) {
            J.arrayBegin(); J.value("default"); J.value(bid[sw->getDefaultDest()]); J.arrayEnd();
            for (auto &c : sw->cases()) { J.arrayBegin(); J.value(c.getCaseValue()->getSExtValue()); J.value(bid[c.getCaseSuccessor()]); J.arrayEnd(); }
          } else for (unsigned k = 0; k < I.getNumSuccessors(); k++) J.value(bid[I.getSuccessor(k)]);
          J.arrayEnd(); J.attributeEnd();
        }
        J.objectEnd();
      }
      J.arrayEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.objectEnd();
  }
  J.arrayEnd(); J.attributeEnd();

  // debug locations: [file, line, col, function, inlinedAt]
  J.attributeBegin("locs"); J.arrayBegin();
  for (size_t k = 0; k < locs.size(); k++) {
    auto *l = locs[k];
    auto *sp = l->getScope()->getSubprogram();
    J.arrayBegin();
    std::string f = l->getFilename().str();
    if (!StringRef(f).starts_with("/")) f = l->getDirectory().str() + "/" + f;
    J.value(f); J.value((int64_t)l->getLine()); J.value((int64_t)l->getColumn());
    J.value(sp ? demangle(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()) : "");
    J.value(l->getInlinedAt() ? (int64_t)locIds[l->getInlinedAt()] : -1);
    J.arrayEnd();
  }
  J.arrayEnd(); J.attributeEnd();

  // demangled names of every symbol
  J.attributeBegin("dem"); J.objectBegin();
  for (auto &F : *M) J.attribute(F.getName(), demangle(F.getName().str()));
  J.objectEnd(); J.attributeEnd();
  J.attributeBegin("noreturn"); J.arrayBegin();
  for (auto &F : *M) if (F.doesNotReturn()) J.value(F.getName());
  J.arrayEnd(); J.attributeEnd();

  // record layouts from the debug info: class -> [[field, byte offset, byte size, type]]
  DebugInfoFinder DF; DF.processModule(*M);
  std::function<std::string(const DIType *)> tname = [&](const DIType *t) -> std::string {
    if (!t) return "void";
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
      switch (d->getTag()) {
      case dwarf::DW_TAG_pointer_type: return tname(d->getBaseType()) + "*";
      case dwarf::DW_TAG_reference_type: case dwarf::DW_TAG_rvalue_reference_type: return tname(d->getBaseType()) + "&";
      case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type: return tname(d->getBaseType());
      case dwarf::DW_TAG_typedef: return tname(d->getBaseType());
      default: return d->getName().str();
      }
    }
    if (auto *c = dyn_cast<DICompositeType>(t)) {
      std::string s;
      const DIScope *sc = c->getScope();
      while (sc && (isa<DINamespace>(sc) || isa<DICompositeType>(sc))) {
        s = (sc->getName().empty() ? std::string("(anonymous namespace)") : sc->getName().str()) + "::" + s;
        sc = isa<DINamespace>(sc) ? cast<DINamespace>(sc)->getScope() : cast<DICompositeType>(sc)->getScope();
      }
      return s + c->getName().str();
    }
    return t->getName().str();
  };
  J.attributeBegin("records"); J.objectBegin();
  std::set<std::string> doneR;
  for (auto *t : DF.types()) {
    auto *c = dyn_cast<DICompositeType>(t);
    if (!c || (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type)) continue;
    if (c->isForwardDecl() || c->getElements().empty()) continue;
    std::string nm = tname(c);
    if (!c->getFile() || !inSrc((c->getFile()->getFilename().starts_with("/") ? "" : c->getDirectory().str() + "/") + c->getFile()->getFilename().str())) continue;
    if (!doneR.insert(nm).second) continue;
    J.attributeBegin(nm); J.objectBegin();
    J.attribute("size", (int64_t)c->getSizeInBits() / 8);
    J.attribute("file", c->getFile() ? c->getFile()->getFilename() : "");
    J.attribute("line", (int64_t)c->getLine());
    J.attributeBegin("fields"); J.arrayBegin();
    for (auto *e : c->getElements()) {
      auto *d = dyn_cast<DIDerivedType>(e);
      if (!d || d->isStaticMember()) continue;
      if (d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance) continue;
      J.arrayBegin();
      J.value(d->getTag() == dwarf::DW_TAG_inheritance ? "<base>" : d->getName());
      J.value((int64_t)d->getOffsetInBits() / 8); J.value((int64_t)d->getSizeInBits() / 8); J.value(tname(d->getBaseType()));
      J.arrayEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.objectEnd(); J.attributeEnd();
  }
  J.objectEnd(); J.attributeEnd();
  J.objectEnd();
  os << "\n";
  return 0;
}
