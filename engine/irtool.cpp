// irtool: links LLVM bitcode produced from /repo's current sources, deletes the bodies of functions that are
// handled by contract (opaque list), runs a small, loop-structure-preserving simplification pipeline and dumps the
// result as JSON for the VC generator (vcgen.py).  Nothing is rewritten by hand: every instruction in the dump is the
// image of an instruction clang produced from the source tree.
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Transforms/IPO/Internalize.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Transforms/Utils/SplitModule.h"
#include <functional>
#include "llvm/ADT/StringExtras.h"
#include <regex>
#include <chrono>
#include <map>
#include <set>
#include <fstream>
#include <iostream>
using namespace llvm;

static std::string esc(StringRef s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}
static std::string q(StringRef s) { return "\"" + esc(s) + "\""; }

static const DataLayout *DL;

static std::string ty(Type *t) {
  if (t->isVoidTy()) return "\"void\"";
  if (t->isIntegerTy()) return "\"i" + std::to_string(t->getIntegerBitWidth()) + "\"";
  if (t->isPointerTy()) return "\"p\"";
  if (t->isFloatTy()) return "\"f32\"";
  if (t->isDoubleTy()) return "\"f64\"";
  if (t->isX86_FP80Ty()) return "\"f80\"";
  if (t->isLabelTy() || t->isTokenTy() || t->isMetadataTy()) return "\"x\"";
  if (auto *st = dyn_cast<StructType>(t)) {
    if (st->isOpaque()) return "\"x\"";
    const StructLayout *sl = DL->getStructLayout(st);
    std::string o = "{\"k\":\"s\",\"size\":" + std::to_string((uint64_t)DL->getTypeAllocSize(t)) + ",\"e\":[";
    for (unsigned i = 0; i < st->getNumElements(); i++) {
      if (i) o += ",";
      o += "[" + std::to_string((uint64_t)sl->getElementOffset(i)) + "," + ty(st->getElementType(i)) + "]";
    }
    return o + "]}";
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    if (at->getNumElements() > 64) return "{\"k\":\"a\",\"n\":" + std::to_string(at->getNumElements()) + ",\"es\":" + std::to_string(es) + ",\"size\":" + std::to_string((uint64_t)DL->getTypeAllocSize(t)) + ",\"t\":" + ty(at->getElementType()) + "}";
    std::string o = "{\"k\":\"s\",\"size\":" + std::to_string((uint64_t)DL->getTypeAllocSize(t)) + ",\"e\":[";
    for (unsigned i = 0; i < at->getNumElements(); i++) {
      if (i) o += ",";
      o += "[" + std::to_string(i * es) + "," + ty(at->getElementType()) + "]";
    }
    return o + "]}";
  }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t bits = DL->getTypeSizeInBits(vt->getElementType());
    std::string o = "{\"k\":\"v\",\"size\":" + std::to_string((uint64_t)DL->getTypeStoreSize(t)) + ",\"e\":[";
    for (unsigned i = 0; i < vt->getNumElements(); i++) {
      if (i) o += ",";
      o += "[" + std::to_string(i * bits / 8) + "," + ty(vt->getElementType()) + "]";
    }
    return o + "]}";
  }
  return "\"x\"";
}

static std::map<const Value *, int> ids;

static std::string constant(const Constant *c);
static std::string operand(const Value *v) {
  auto it = ids.find(v);
  if (it != ids.end()) return std::to_string(it->second);
  if (auto *c = dyn_cast<Constant>(v)) return constant(c);
  if (isa<MetadataAsValue>(v)) return "[\"m\"]";
  if (isa<InlineAsm>(v)) return "[\"asm\"]";
  return "[\"?\"]";
}
static std::string hexbits(const APInt &a) { SmallString<40> s; a.toString(s, 16, false); return std::string(s); }

static std::string constant(const Constant *c) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) { SmallString<40> s; ci->getValue().toString(s, 10, false); return "[\"i\"," + ty(t) + "," + q(s) + "]"; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) return "[\"f\"," + ty(t) + "," + q(hexbits(cf->getValueAPF().bitcastToAPInt())) + "]";
  if (isa<ConstantPointerNull>(c)) return "[\"n\"]";
  if (isa<PoisonValue>(c)) return "[\"u\"," + ty(t) + "]";
  if (isa<UndefValue>(c)) return "[\"u\"," + ty(t) + "]";
  if (isa<ConstantAggregateZero>(c)) return "[\"z\"," + ty(t) + "]";
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    if (auto *ga = dyn_cast<GlobalAlias>(gv)) return constant(ga->getAliasee());
    return "[\"g\"," + q(gv->getName()) + ",0]";
  }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c) || isa<ConstantDataSequential>(c)) {
    std::string o = "[\"agg\"," + ty(t) + ",[";
    unsigned n = isa<ConstantDataSequential>(c) ? cast<ConstantDataSequential>(c)->getNumElements() : c->getNumOperands();
    for (unsigned i = 0; i < n; i++) { if (i) o += ","; o += constant(c->getAggregateElement(i)); }
    return o + "]]";
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off)) {
        std::string b = constant(cast<Constant>(gep->getPointerOperand()));
        return "[\"ce+\"," + b + "," + std::to_string(off.getSExtValue()) + "]";
      }
    }
    std::string o = "[\"ce\"," + q(ce->getOpcodeName()) + "," + ty(t) + ",[";
    for (unsigned i = 0; i < ce->getNumOperands(); i++) { if (i) o += ","; o += constant(ce->getOperand(i)); }
    o += "]";
    if (ce->getOpcode() == Instruction::ICmp) o += "," + q(CmpInst::getPredicateName((CmpInst::Predicate)ce->getPredicate()));
    return o + "]";
  }
  return "[\"?c\"]";
}

// flatten a global initialiser into cells [offset, constant]
static void flat(const Constant *c, uint64_t off, std::vector<std::string> &out) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c)) { out.push_back("[" + std::to_string(off) + ",[\"zero\"," + std::to_string((uint64_t)DL->getTypeAllocSize(t)) + "]]"); return; }
  if (isa<UndefValue>(c)) return;
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    const StructLayout *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) flat(cs->getOperand(i), off + sl->getElementOffset(i), out);
    return;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    if (cd->getElementType()->isIntegerTy(8)) {
      std::string raw = cd->getRawDataValues().str();
      out.push_back("[" + std::to_string(off) + ",[\"bytes\"," + q(toHex(raw)) + "]]");
      return;
    }
    uint64_t es = DL->getTypeAllocSize(cd->getElementType());
    for (unsigned i = 0; i < cd->getNumElements(); i++) flat(cd->getElementAsConstant(i), off + i * es, out);
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) flat(ca->getOperand(i), off + i * es, out);
    return;
  }
  out.push_back("[" + std::to_string(off) + "," + constant(c) + "]");
}

static void tick(const char *w) { static auto t = std::chrono::steady_clock::now(); auto n = std::chrono::steady_clock::now(); if (getenv("IRT_TIME")) errs() << w << " " << std::chrono::duration<double>(n - t).count() << "\n"; t = n; }
// (de)serialisation code of Boost is never executed by a contract: bodies and registrations are dropped
static void stripSer(Module &M) {
  std::regex ser("^(void |bool )?boost::(serialization|archive)::", std::regex::optimize), skip("serialization|archive|guid_initializer", std::regex::optimize);
  if (auto *gc = M.getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<Constant *> keep;
    auto bad = [&](Function *g) { for (auto &BB : *g) for (auto &I : BB) for (auto &o : I.operands()) if (auto *gv = dyn_cast<GlobalValue>(o->stripPointerCasts())) if (std::regex_search(gv->getName().str(), skip)) return true; return false; };
    for (auto &op : ca->operands()) {
      auto *cs = cast<ConstantStruct>(op); auto *f = dyn_cast<Function>(cs->getOperand(1)); if (!f || f->isDeclaration()) continue;
      if (f->getName().starts_with("_GLOBAL__sub_I")) {
        for (auto &BB : *f) for (auto it = BB.begin(); it != BB.end();) { auto &I = *it++; if (auto *cb = dyn_cast<CallInst>(&I)) if (auto *g = cb->getCalledFunction()) if (!g->isDeclaration() && cb->getType()->isVoidTy() && bad(g)) cb->eraseFromParent(); }
        keep.push_back(cs);
      } else if (!bad(f)) keep.push_back(cs);
    }
    auto *at = ArrayType::get(ca->getType()->getElementType(), keep.size());
    auto *nv = new GlobalVariable(M, at, false, GlobalValue::AppendingLinkage, ConstantArray::get(at, keep), ""); nv->takeName(gc); gc->eraseFromParent();
  }
  for (auto &F : M) if (!F.isDeclaration() && F.getName().contains("boost") && std::regex_search(demangle(F.getName().str()), ser)) { F.deleteBody(); F.setComdat(nullptr); }
}
// the same module for native runs: everything that is not reachable from the contracts is removed, the rest is split into parts
static int nativeParts(Module &M, const std::string &out, int n) {
  for (auto &F : M) { F.removeFnAttr(Attribute::OptimizeNone); if (F.hasAvailableExternallyLinkage()) F.setLinkage(GlobalValue::LinkOnceODRLinkage); }
  auto root = [](const GlobalValue &gv) { StringRef n = gv.getName(); return n == "main" || n.starts_with("vs_") || n.starts_with("llvm."); };
  std::set<const GlobalValue *> seen; std::vector<GlobalValue *> work; std::set<const Constant *> seenC;
  std::function<void(const Value *)> refs = [&](const Value *v) {
    if (auto *g = dyn_cast<GlobalValue>(v)) { if (seen.insert(g).second) work.push_back(const_cast<GlobalValue *>(g)); return; }
    auto *c = dyn_cast<Constant>(v); if (!c || c->getNumOperands() == 0 || !seenC.insert(c).second) return;
    for (auto &o : c->operands()) refs(o.get());
  };
  for (auto &F : M) if (root(F)) refs(&F);
  for (auto &G : M.globals()) if (root(G)) refs(&G);
  while (!work.empty()) {
    auto *g = work.back(); work.pop_back();
    if (auto *F = dyn_cast<Function>(g)) {
      if (F->isDeclaration()) continue;
      if (F->hasPersonalityFn()) refs(F->getPersonalityFn());
      for (auto &BB : *F) for (auto &I : BB) for (auto &o : I.operands()) if (isa<Constant>(o.get())) refs(o.get());
    } else if (auto *v = dyn_cast<GlobalVariable>(g)) { if (v->hasInitializer()) refs(v->getInitializer()); }
    else if (auto *al = dyn_cast<GlobalAlias>(g)) refs(al->getAliasee());
  }
  for (auto &F : M) if (!F.isDeclaration() && !seen.count(&F)) { F.deleteBody(); F.setComdat(nullptr); }
  for (auto &G : M.globals()) if (G.hasInitializer() && !seen.count(&G)) { G.setInitializer(nullptr); G.setLinkage(GlobalValue::ExternalLinkage); G.setComdat(nullptr); }
  internalizeModule(M, root);
  StripDebugInfo(M);
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM; MPM.addPass(GlobalDCEPass()); MPM.run(M, MAM);
  tick("native dce");
  size_t nf = 0; for (auto &F : M) if (!F.isDeclaration()) nf++; if (getenv("IRT_TIME")) errs() << nf << " functions\n";
  if (getenv("IRT_DEBUG")) for (auto &F : M) if (!F.isDeclaration()) errs() << demangle(F.getName().str()) << "\n";
  int k = 0;
  SplitModule(M, n, [&](std::unique_ptr<Module> P) { std::error_code ec; raw_fd_ostream os(out + "." + std::to_string(k++) + ".bc", ec); WriteBitcodeToFile(*P, os); });
  tick("native split");
  return 0;
}
int main(int argc, char **argv) {
  std::vector<std::string> ins, entries; std::string out, opaqueFile, passes; bool noopt = false; int native = 0; bool strip = false; std::string saveBC;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-o") out = argv[++i];
    else if (a == "--opaque") opaqueFile = argv[++i];
    else if (a == "--entry") entries.push_back(argv[++i]);
    else if (a == "--passes") passes = argv[++i];
    else if (a == "--save") saveBC = argv[++i];
    else if (a == "--noopt") noopt = true;
    else if (a == "--strip") strip = true;
    else if (a == "--native") native = atoi(argv[++i]);
    else ins.push_back(a);
  }
  tick("start");
  LLVMContext ctx; SMDiagnostic err;
  if (strip) {
    auto m = parseIRFile(ins[0], err, ctx); if (!m) { err.print(argv[0], errs()); return 3; }
    stripSer(*m);
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM; MPM.addPass(GlobalDCEPass()); MPM.run(*m, MAM);
    std::error_code ec; raw_fd_ostream os(out, ec); WriteBitcodeToFile(*m, os); return 0;
  }
  auto M = std::make_unique<Module>("vs", ctx);
  for (auto &f : ins) {
    auto m = getLazyIRFileModule(f, err, ctx);
    if (!m) { err.print(argv[0], errs()); return 3; }
    if (M->getTargetTriple().empty()) { M->setTargetTriple(m->getTargetTriple()); M->setDataLayout(m->getDataLayout()); }
    if (Linker::linkModules(*M, std::move(m))) { errs() << "link error\n"; return 3; }
  }
  tick("link");
  DL = &M->getDataLayout();
  if (native) return nativeParts(*M, out, native);
  // opaque functions: bodies removed, so they are only known by contract
  std::vector<std::pair<std::regex, std::string>> opq;
  if (!opaqueFile.empty()) {
    std::ifstream f(opaqueFile); std::string l;
    while (std::getline(f, l)) if (!l.empty() && l[0] != '#') opq.push_back({std::regex(l, std::regex::optimize), l});
  }
  std::map<std::string, std::string> dem;
  std::set<std::string> opaqueHit;
  std::set<const GlobalValue *> seen; std::vector<GlobalValue *> work;
  auto visit = [&](GlobalValue *g) { if (seen.insert(g).second) work.push_back(g); };
  std::set<const Constant *> seenC;
  std::function<void(const Value *)> refs = [&](const Value *v) {
    if (auto *g = dyn_cast<GlobalValue>(v)) { visit(const_cast<GlobalValue *>(g)); return; }
    auto *c = dyn_cast<Constant>(v); if (!c || c->getNumOperands() == 0 || !seenC.insert(c).second) return;
    for (auto &o : c->operands()) refs(o.get());
  };
  auto opaque = [&](Function &F) { // deletes the body of a function that is handled by contract
    std::string n = F.getName().str();
    if (!dem.count(n)) {
      std::string d = dem[n] = demangle(n);
      F.removeFnAttr(Attribute::OptimizeNone);
      if (!F.isDeclaration()) for (auto &r : opq) if (std::regex_search(d, r.first)) { F.deleteBody(); F.setComdat(nullptr); opaqueHit.insert(d); break; }
    }
    return F.isDeclaration();
  };
  auto reach = [&] {
    while (!work.empty()) {
      auto *g = work.back(); work.pop_back();
      if (auto *F = dyn_cast<Function>(g)) {
        if (opaque(*F)) continue;
        if (F->hasPersonalityFn()) refs(F->getPersonalityFn());
        for (auto &BB : *F) for (auto &I : BB) for (auto &o : I.operands()) if (isa<Constant>(o.get())) refs(o.get());
      } else if (auto *v = dyn_cast<GlobalVariable>(g)) { if (v->hasInitializer()) refs(v->getInitializer()); }
      else if (auto *al = dyn_cast<GlobalAlias>(g)) refs(al->getAliasee());
    }
  };
  // dynamic initialisers of namespace-scope variables (llvm.global_ctors), minus serialisation / test registration
  std::vector<std::string> ctors;
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) {
    std::regex skip("serialization|archive|unit_test|ios_base|singleton|guid_initializer|iostream|logger|GLogger|boost.*uuid|asio", std::regex::optimize);
    if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto &op : ca->operands()) {
        auto *cs = cast<ConstantStruct>(op);
        auto *f = dyn_cast<Function>(cs->getOperand(1)); if (!f || opaque(*f)) continue;
        std::vector<Function *> parts;
        if (f->getName().starts_with("_GLOBAL__sub_I")) {
          for (auto &BB : *f) for (auto &I : BB) if (auto *cb = dyn_cast<CallBase>(&I)) if (auto *g = cb->getCalledFunction()) if (!opaque(*g)) parts.push_back(g);
        } else parts.push_back(f);
        for (auto *g : parts) {
          bool bad = false;
          for (auto &BB : *g) for (auto &I : BB) for (auto &o : I.operands()) if (auto *gv = dyn_cast<GlobalValue>(o->stripPointerCasts())) { if (std::regex_search(gv->getName().str(), skip)) { bad = true; if (getenv("IRT_DEBUG")) errs() << "skip " << f->getName() << " " << g->getName() << " because " << gv->getName() << "\n"; } }
          if (bad) continue;
          if (g->hasLocalLinkage()) { g->setName("vs_ctor_" + std::to_string(ctors.size())); g->setComdat(nullptr); g->setLinkage(GlobalValue::ExternalLinkage); } g->removeFnAttr(Attribute::AlwaysInline); g->addFnAttr(Attribute::NoInline); ctors.push_back(g->getName().str());
        }
      }
    gc->eraseFromParent();
  }
  std::set<std::string> keep(entries.begin(), entries.end());
  for (auto &c : ctors) keep.insert(c);
  auto keeper = [&](const GlobalValue &gv) {
    StringRef n = gv.getName();
    if (n.starts_with("vs_entry_") || n.starts_with("vs_model_") || n.starts_with("llvm.")) return true;
    return keep.count(n.str()) > 0;
  };
  for (auto &F : *M) if (F.hasAvailableExternallyLinkage()) { F.setLinkage(GlobalValue::LinkOnceODRLinkage); }
  for (auto &G : M->globals()) if (G.hasAvailableExternallyLinkage()) { G.setLinkage(GlobalValue::LinkOnceODRLinkage); }
  for (auto &F : *M) if (keeper(F)) visit(&F);
  for (auto &G : M->globals()) if (keeper(G)) visit(&G);
  reach();
  for (auto &F : *M) if (!F.isDeclaration() && !seen.count(&F)) { F.deleteBody(); F.setComdat(nullptr); }
  for (auto &G : M->globals()) if (G.hasInitializer() && !seen.count(&G)) { G.setInitializer(nullptr); G.setLinkage(GlobalValue::ExternalLinkage); G.setComdat(nullptr); }
  tick("reach");
  internalizeModule(*M, keeper);
  {
    PipelineTuningOptions PTO; PTO.LoopVectorization = PTO.SLPVectorization = PTO.LoopUnrolling = PTO.LoopInterleaving = false;
    PTO.InlinerThreshold = 60;
    PassBuilder PB(nullptr, PTO);
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (passes.empty()) passes = "globaldce,always-inline,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>),cgscc(inline<only-mandatory>),cgscc(inline,function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,adce)),globaldce,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,adce)";
    if (!noopt) {
      if (auto e = PB.parsePassPipeline(MPM, passes)) { errs() << toString(std::move(e)) << "\n"; return 3; }
    } else MPM.addPass(GlobalDCEPass());
    MPM.run(*M, MAM);
  }
  tick("opt");
  if (verifyModule(*M, &errs())) { errs() << "verify failed\n"; return 3; }
  if (!saveBC.empty()) { std::error_code ec; raw_fd_ostream os(saveBC, ec); M->print(os, nullptr); }
  std::error_code ec; raw_fd_ostream os(out, ec);
  os << "{\"ctors\":[";
  { bool f = true; for (auto &c : ctors) { if (!M->getFunction(c)) continue; if (!f) os << ","; f = false; os << q(c); } }
  os << "],\"opaque_hit\":[";
  { bool f = true; for (auto &c : opaqueHit) { if (!f) os << ","; f = false; os << q(c); } }
  os << "],\n\"globals\":{";
  bool first = true;
  for (auto &g : M->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    if (!first) os << ",\n"; first = false;
    uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 0;
    os << q(g.getName()) << ":{\"size\":" << sz << ",\"const\":" << (g.isConstant() ? "true" : "false") << ",\"ext\":" << (g.isDeclaration() ? "true" : "false") << ",\"tls\":" << (g.isThreadLocal() ? "true" : "false") << ",\"init\":[";
    if (g.hasInitializer()) { std::vector<std::string> cells; flat(g.getInitializer(), 0, cells); for (size_t i = 0; i < cells.size(); i++) { if (i) os << ","; os << cells[i]; } }
    os << "]}";
  }
  os << "},\n\"functions\":{";
  first = true;
  for (auto &F : *M) {
    if (F.getName().starts_with("llvm.dbg") || F.getName().starts_with("llvm.lifetime")) continue;
    if (!first) os << ",\n"; first = false;
    std::string nm = F.getName().str();
    std::string d = dem.count(nm) ? dem[nm] : demangle(nm);
    os << q(nm) << ":{\"d\":" << q(d) << ",\"ret\":" << ty(F.getReturnType()) << ",\"va\":" << (F.isVarArg() ? "true" : "false");
    os << ",\"attrs\":[" << (F.doesNotReturn() ? "\"noreturn\"" : "") << "]";
    if (F.arg_size() && F.getArg(0)->hasStructRetAttr()) { Type *st = F.getArg(0)->getParamStructRetType(); os << ",\"sret\":" << q(st->isStructTy() && cast<StructType>(st)->hasName() ? st->getStructName().str() : "?") << ",\"sretsize\":" << (uint64_t)DL->getTypeAllocSize(st); }
    ids.clear(); int id = 0;
    os << ",\"args\":[";
    bool fa = true;
    for (auto &a : F.args()) { ids[&a] = id++; if (!fa) os << ","; fa = false; os << "[" << ids[&a] << "," << ty(a.getType());
      if (a.hasByValAttr()) os << "," << (uint64_t)DL->getTypeAllocSize(a.getParamByValType()); os << "]"; }
    os << "]";
    if (F.isDeclaration()) { os << "}"; continue; }
    std::map<const BasicBlock *, int> bid; int b = 0;
    for (auto &BB : F) { bid[&BB] = b++; for (auto &I : BB) if (!I.getType()->isVoidTy()) ids[&I] = id++; }
    os << ",\"nv\":" << id << ",\"blocks\":[";
    bool fb = true;
    for (auto &BB : F) {
      if (!fb) os << ","; fb = false;
      os << "\n [";
      bool fi = true;
      for (auto &I : BB) {
        if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
          auto iid = II->getIntrinsicID();
          if (iid == Intrinsic::dbg_value || iid == Intrinsic::dbg_declare || iid == Intrinsic::dbg_label || iid == Intrinsic::lifetime_start || iid == Intrinsic::lifetime_end || iid == Intrinsic::experimental_noalias_scope_decl || iid == Intrinsic::assume || iid == Intrinsic::donothing) continue;
        }
        if (!fi) os << ",\n  "; fi = false;
        int rid = I.getType()->isVoidTy() ? -1 : ids[&I];
        int line = 0; if (auto dl = I.getDebugLoc()) line = dl.getLine();
        os << "{\"o\":" << q(I.getOpcodeName()) << ",\"r\":" << rid << ",\"t\":" << ty(I.getType());
        if (line) os << ",\"l\":" << line;
        if (auto *a = dyn_cast<AllocaInst>(&I)) {
          os << ",\"size\":" << (uint64_t)DL->getTypeAllocSize(a->getAllocatedType()) << ",\"a\":[" << operand(a->getArraySize()) << "]";
        } else if (auto *ge = dyn_cast<GetElementPtrInst>(&I)) {
          int64_t base = 0; std::string var; Type *vecTy = nullptr; (void)vecTy;
          for (gep_type_iterator it = gep_type_begin(ge), e = gep_type_end(ge); it != e; ++it) {
            Value *ix = it.getOperand();
            if (StructType *st = it.getStructTypeOrNull()) base += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
            else {
              int64_t sz = DL->getTypeAllocSize(it.getIndexedType());
              if (auto *ci = dyn_cast<ConstantInt>(ix)) base += sz * ci->getSExtValue();
              else { if (!var.empty()) var += ","; var += "[" + operand(ix) + "," + ty(ix->getType()) + "," + std::to_string(sz) + "]"; }
            }
          }
          os << ",\"a\":[" << operand(ge->getPointerOperand()) << "],\"base\":" << base << ",\"var\":[" << var << "]";
        } else if (auto *ph = dyn_cast<PHINode>(&I)) {
          os << ",\"a\":[";
          for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { if (i) os << ","; os << "[" << bid[ph->getIncomingBlock(i)] << "," << operand(ph->getIncomingValue(i)) << "]"; }
          os << "]";
        } else if (auto *br = dyn_cast<BranchInst>(&I)) {
          os << ",\"a\":[";
          if (br->isConditional()) os << operand(br->getCondition()) << "],\"s\":[" << bid[br->getSuccessor(0)] << "," << bid[br->getSuccessor(1)] << "]";
          else os << "],\"s\":[" << bid[br->getSuccessor(0)] << "]";
        } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
          os << ",\"a\":[" << operand(sw->getCondition()) << "],\"ct\":" << ty(sw->getCondition()->getType()) << ",\"def\":" << bid[sw->getDefaultDest()] << ",\"cases\":[";
          bool f = true; for (auto &c : sw->cases()) { if (!f) os << ","; f = false; SmallString<40> s; c.getCaseValue()->getValue().toString(s, 10, false); os << "[" << q(s) << "," << bid[c.getCaseSuccessor()] << "]"; }
          os << "]";
        } else if (auto *cb = dyn_cast<CallBase>(&I)) {
          os << ",\"f\":" << operand(cb->getCalledOperand()) << ",\"a\":[";
          for (unsigned i = 0; i < cb->arg_size(); i++) { if (i) os << ","; os << operand(cb->getArgOperand(i)); }
          os << "],\"at\":[";
          for (unsigned i = 0; i < cb->arg_size(); i++) { if (i) os << ","; os << ty(cb->getArgOperand(i)->getType()); }
          os << "]";
          bool bv = false; for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->isByValArgument(i)) bv = true;
          if (bv) { os << ",\"bv\":["; for (unsigned i = 0; i < cb->arg_size(); i++) { if (i) os << ","; os << (cb->isByValArgument(i) ? (uint64_t)DL->getTypeAllocSize(cb->getParamByValType(i)) : 0); } os << "]"; }
          if (auto *iv = dyn_cast<InvokeInst>(&I)) os << ",\"s\":[" << bid[iv->getNormalDest()] << "," << bid[iv->getUnwindDest()] << "]";
        } else if (auto *cm = dyn_cast<CmpInst>(&I)) {
          os << ",\"p\":" << q(CmpInst::getPredicateName(cm->getPredicate())) << ",\"ot\":" << ty(cm->getOperand(0)->getType()) << ",\"a\":[" << operand(cm->getOperand(0)) << "," << operand(cm->getOperand(1)) << "]";
        } else if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
          os << ",\"cleanup\":" << (lp->isCleanup() ? "true" : "false") << ",\"clauses\":[";
          for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (i) os << ","; os << "[" << (lp->isCatch(i) ? "\"c\"" : "\"f\"") << "," << constant(lp->getClause(i)) << "]"; }
          os << "]";
        } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
          os << ",\"a\":[" << operand(ev->getAggregateOperand()) << "],\"ix\":["; bool f = true; for (unsigned x : ev->indices()) { if (!f) os << ","; f = false; os << x; } os << "]";
        } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
          os << ",\"a\":[" << operand(iv->getAggregateOperand()) << "," << operand(iv->getInsertedValueOperand()) << "],\"ix\":["; bool f = true; for (unsigned x : iv->indices()) { if (!f) os << ","; f = false; os << x; } os << "]";
        } else if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) {
          os << ",\"a\":[" << operand(sv->getOperand(0)) << "," << operand(sv->getOperand(1)) << "],\"mask\":["; bool f = true; for (int x : sv->getShuffleMask()) { if (!f) os << ","; f = false; os << x; } os << "]";
        } else {
          os << ",\"a\":[";
          for (unsigned i = 0; i < I.getNumOperands(); i++) { if (i) os << ","; os << operand(I.getOperand(i)); }
          os << "],\"ot\":" << (I.getNumOperands() ? ty(I.getOperand(0)->getType()) : "\"void\"");
          if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) os << ",\"rmw\":" << q(AtomicRMWInst::getOperationName(rm->getOperation())) << ",\"vt\":" << ty(rm->getValOperand()->getType());
          if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) os << ",\"vt\":" << ty(cx->getNewValOperand()->getType());
        }
        os << "}";
      }
      os << "]";
    }
    os << "]}";
  }
  os << "}}\n";
  os.flush(); tick("dump"); return 0;
}
