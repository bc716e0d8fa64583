// irtool: link bitcode, normalise it, dump it as JSON for the analyses in ../abi_sa.
//   irtool [options] in.bc... -o out.json
//   --roots=REGEX    functions (demangled) whose bodies are dumped (after inlining); default: all defined
//   --inline=REGEX   functions (demangled) to inline into callers
//   --sig=TEXT       functions to inline when their full demangled signature contains the text
//   --keep=REGEX     functions (demangled) never inlined although --inline matches
//   --raw            no inlining, only SSA construction
//   --globals        dump globals with their initialisers
//   --types          dump debug-info record/enum types
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <map>
#include <set>
#include <regex>
#include <functional>
using namespace llvm;

static std::string demangled(StringRef n) { return demangle(n.str()); }
static std::string stripTemplates(const std::string& s) {
   std::string r; int d = 0;
   for (size_t i = 0; i < s.size(); ++i) {
      char c = s[i];
      if (c == '<' && !(r.size() >= 8 && r.compare(r.size() - 8, 8, "operator") == 0) && !(r.size() >= 9 && r.compare(r.size() - 9, 9, "operator<") == 0)) { ++d; continue; }
      if (c == '>' && d > 0 && !(i && s[i - 1] == '-')) { --d; continue; }
      if (!d) r += c;
   }
   return r;
}
// qualified name without parameters, return type and template arguments
static std::string qname(StringRef n) {
   ItaniumPartialDemangler D;
   std::string m = n.str();
   if (D.partialDemangle(m.c_str()) || !D.isFunction()) return stripTemplates(demangled(n));
   auto get = [&](char* (ItaniumPartialDemangler::*f)(char*, size_t*) const) { char* b = (D.*f)(nullptr, nullptr); std::string r = b ? b : ""; std::free(b); return r; };
   std::string ctx = get(&ItaniumPartialDemangler::getFunctionDeclContextName), base = get(&ItaniumPartialDemangler::getFunctionBaseName);
   if (D.isCtorOrDtor()) { // base name of a destructor already carries ~
      std::string full = demangled(n); if (full.find("::~") != std::string::npos && base[0] != '~') base = "~" + base;
   }
   std::string r = ctx.empty() ? base : ctx + "::" + base;
   return stripTemplates(r);
}

struct Dumper {
   Module&           M;
   const DataLayout& DL;
   json::OStream&    J;
   std::map<const Value*, int> ids;
   std::map<const BasicBlock*, int> bbs;
   Dumper(Module& M, json::OStream& J) : M(M), DL(M.getDataLayout()), J(J) {}

   std::string tyname(Type* t) {
      std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str();
   }
   void constantInit(const Constant* c, int depth = 0) {
      if (auto* ci = dyn_cast<ConstantInt>(c)) { intval(ci->getValue()); return; }
      if (auto* cs = dyn_cast<ConstantDataSequential>(c)) {
         if (cs->isString()) {
            J.object([&] { J.attributeArray("bytes", [&] { for (unsigned char ch : cs->getAsString()) J.value((int)ch); }); });
            return;
         }
         J.array([&] { for (unsigned i = 0; i < cs->getNumElements(); ++i) constantInit(cs->getElementAsConstant(i), depth + 1); });
         return;
      }
      if (isa<ConstantAggregate>(c)) {
         J.array([&] { for (unsigned i = 0; i < c->getNumOperands(); ++i) constantInit(cast<Constant>(c->getOperand(i)), depth + 1); });
         return;
      }
      if (isa<ConstantAggregateZero>(c)) { J.object([&] { J.attribute("zero", tyname(c->getType())); J.attribute("size", (int64_t)DL.getTypeAllocSize(c->getType())); }); return; }
      operand(c);
   }
   // flat byte image of an initialiser plus the pointers in it
   void flatten(const Constant* c, uint64_t off, std::vector<uint8_t>& img, std::vector<std::pair<uint64_t, const Constant*>>& ptrs) {
      uint64_t sz = DL.getTypeAllocSize(c->getType());
      if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
      if (auto* ci = dyn_cast<ConstantInt>(c)) { APInt v = ci->getValue(); for (uint64_t i = 0; i < (v.getBitWidth() + 7) / 8 && off + i < img.size(); ++i) img[off + i] = (uint8_t)v.extractBitsAsZExtValue(std::min<unsigned>(8, v.getBitWidth() - i * 8), i * 8); return; }
      if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt v = cf->getValueAPF().bitcastToAPInt(); for (uint64_t i = 0; i < v.getBitWidth() / 8 && off + i < img.size(); ++i) img[off + i] = (uint8_t)v.extractBitsAsZExtValue(8, i * 8); return; }
      if (auto* cs = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = DL.getTypeAllocSize(cs->getElementType()); for (unsigned i = 0; i < cs->getNumElements(); ++i) flatten(cs->getElementAsConstant(i), off + i * es, img, ptrs); return; }
      if (auto* st = dyn_cast<ConstantStruct>(c)) { auto* sl = DL.getStructLayout(st->getType()); for (unsigned i = 0; i < st->getNumOperands(); ++i) flatten(st->getOperand(i), off + sl->getElementOffset(i), img, ptrs); return; }
      if (auto* ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL.getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); ++i) flatten(ca->getOperand(i), off + i * es, img, ptrs); return; }
      (void)sz;
      ptrs.push_back({off, c});
   }
   void intval(const APInt& v) {
      // signed decimal; integers wider than 64 bits as strings
      if (v.getSignificantBits() <= 64) J.value(v.getSExtValue());
      else { SmallString<64> s; v.toString(s, 10, true); J.object([&] { J.attribute("big", StringRef(s)); }); }
   }
   void gepParts(const GEPOperator* g) {
      unsigned bits = DL.getIndexTypeSizeInBits(g->getType());
      MapVector<Value*, APInt> vars;
      APInt off(bits, 0);
      if (g->collectOffset(DL, bits, vars, off)) {
         J.attribute("off", off.getSExtValue());
         J.attributeArray("vars", [&] {
            for (auto& kv : vars) J.array([&] { operand(kv.first); J.value(kv.second.getSExtValue()); });
         });
      } else J.attribute("off", "unknown");
   }
   void operand(const Value* v) {
      if (auto it = ids.find(v); it != ids.end() && !isa<Constant>(v)) { J.array([&] { J.value("v"); J.value(it->second); }); return; }
      if (auto* ci = dyn_cast<ConstantInt>(v)) { J.array([&] { J.value("c"); intval(ci->getValue()); J.value((int)ci->getBitWidth()); }); return; }
      if (auto* cf = dyn_cast<ConstantFP>(v)) { SmallString<32> s; cf->getValueAPF().toString(s); J.array([&] { J.value("f"); J.value(StringRef(s)); }); return; }
      if (isa<ConstantPointerNull>(v)) { J.array([&] { J.value("null"); }); return; }
      if (isa<UndefValue>(v)) { J.array([&] { J.value("undef"); }); return; }
      if (auto* g = dyn_cast<GlobalValue>(v)) { J.array([&] { J.value("g"); J.value(g->getName()); }); return; }
      if (auto* ce = dyn_cast<ConstantExpr>(v)) {
         if (auto* g = dyn_cast<GEPOperator>(ce)) {
            J.array([&] { J.value("cgep"); operand(g->getPointerOperand()); J.object([&] { gepParts(g); }); });
            return;
         }
         J.array([&] { J.value("ce"); J.value(ce->getOpcodeName()); for (auto& o : ce->operands()) operand(o); });
         return;
      }
      if (auto* bb = dyn_cast<BasicBlock>(v)) { J.array([&] { J.value("bb"); J.value(bbs.count(bb) ? bbs[bb] : -1); }); return; }
      if (auto* c = dyn_cast<Constant>(v)) { J.array([&] { J.value("k"); constantInit(c); }); return; }
      J.array([&] { J.value("?"); });
   }
   void loc(const DebugLoc& d) {
      if (!d) return;
      J.attributeArray("loc", [&] {
         const DILocation* l = d.get();
         int n = 0;
         while (l && n++ < 12) {
            J.array([&] {
               J.value(l->getFilename()); J.value((int)l->getLine());
               auto* sp = l->getScope()->getSubprogram();
               J.value(sp ? sp->getName() : "");
            });
            l = l->getInlinedAt();
         }
      });
   }
   void tbaa(const Instruction& I) {
      MDNode* t = I.getMetadata(LLVMContext::MD_tbaa);
      if (!t || t->getNumOperands() < 3) return;
      auto* base = dyn_cast<MDNode>(t->getOperand(0));
      auto* acc  = dyn_cast<MDNode>(t->getOperand(1));
      auto nm = [](MDNode* n) { return n && n->getNumOperands() && isa<MDString>(n->getOperand(0)) ? cast<MDString>(n->getOperand(0))->getString() : StringRef(""); };
      auto* off = mdconst::dyn_extract<ConstantInt>(t->getOperand(2));
      J.attributeArray("tbaa", [&] { J.value(nm(base)); J.value(nm(acc)); J.value(off ? (int64_t)off->getZExtValue() : -1); });
   }
   void inst(const Instruction& I) {
      J.object([&] {
         J.attribute("id", ids[&I]);
         J.attribute("op", I.getOpcodeName());
         if (!I.getType()->isVoidTy()) {
            J.attribute("ty", tyname(I.getType()));
         }
         J.attributeArray("ops", [&] {
            if (auto* cb = dyn_cast<CallBase>(&I)) { for (auto& a : cb->args()) operand(a.get()); }
            else if (auto* p = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) operand(p->getIncomingValue(i)); }
            else for (auto& o : I.operands()) operand(o.get());
         });
         if (auto* p = dyn_cast<PHINode>(&I)) J.attributeArray("in", [&] { for (auto* b : p->blocks()) J.value(bbs[b]); });
         if (auto* c = dyn_cast<CmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(c->getPredicate()));
         if (auto* g = dyn_cast<GetElementPtrInst>(&I)) { gepParts(cast<GEPOperator>(g)); J.attribute("inb", g->isInBounds()); }
         if (auto* o = dyn_cast<OverflowingBinaryOperator>(&I)) { if (o->hasNoSignedWrap()) J.attribute("nsw", true); if (o->hasNoUnsignedWrap()) J.attribute("nuw", true); }
         if (auto* b = dyn_cast<CastInst>(&I)) J.attribute("sty", tyname(b->getSrcTy()));
         if (auto* a = dyn_cast<AllocaInst>(&I)) { J.attribute("aty", tyname(a->getAllocatedType())); J.attribute("align", (int64_t)a->getAlign().value()); {
            std::vector<std::pair<uint64_t, uint64_t>> arrs;
            Type* at = a->getAllocatedType();
            if (at->isArrayTy() && at->isSized()) arrs.push_back({0, DL.getTypeAllocSize(at).getFixedValue()});
            if (auto* st = dyn_cast<StructType>(at); st && st->isSized()) for (unsigned k = 0; k < st->getNumElements(); ++k)
               if (st->getElementType(k)->isArrayTy()) arrs.push_back({DL.getStructLayout(st)->getElementOffset(k).getFixedValue(), DL.getTypeAllocSize(st->getElementType(k)).getFixedValue()});
            if (!arrs.empty()) J.attributeArray("arr", [&] { for (auto& [o, n] : arrs) J.array([&] { J.value((int64_t)o); J.value((int64_t)n); }); });
         } if (auto s = a->getAllocationSize(DL)) J.attribute("size", (int64_t)s->getFixedValue()); }
         if (auto* s = dyn_cast<StoreInst>(&I)) { J.attribute("size", (int64_t)DL.getTypeStoreSize(s->getValueOperand()->getType())); if (s->isVolatile()) J.attribute("vol", true); if (s->isAtomic()) J.attribute("atomic", true); tbaa(I); }
         if (auto* l = dyn_cast<LoadInst>(&I)) { J.attribute("size", (int64_t)DL.getTypeStoreSize(l->getType())); if (l->isAtomic()) J.attribute("atomic", true); tbaa(I); }
         if (auto* e = dyn_cast<ExtractValueInst>(&I)) J.attributeArray("idx", [&] { for (auto i : e->indices()) J.value((int)i); });
         if (auto* e = dyn_cast<InsertValueInst>(&I)) J.attributeArray("idx", [&] { for (auto i : e->indices()) J.value((int)i); });
         if (auto* br = dyn_cast<BranchInst>(&I)) J.attributeArray("succ", [&] { for (unsigned k = 0; k < br->getNumSuccessors(); ++k) J.value(bbs[br->getSuccessor(k)]); });
         if (auto* sw = dyn_cast<SwitchInst>(&I)) {
            J.attribute("default", bbs[sw->getDefaultDest()]);
            J.attributeArray("cases", [&] { for (auto& c : sw->cases()) J.array([&] { intval(c.getCaseValue()->getValue()); J.value(bbs[c.getCaseSuccessor()]); }); });
         }
         if (auto* cb = dyn_cast<CallBase>(&I)) {
            if (auto* f = cb->getCalledFunction()) J.attribute("callee", f->getName());
            else { J.attributeArray("fptr", [&] { operand(cb->getCalledOperand()); }); }
            if (cb->doesNotThrow()) J.attribute("nounwind", true);
            if (cb->doesNotReturn()) J.attribute("noreturn", true);
            J.attributeArray("bvl", [&] { for (unsigned i = 0; i < cb->arg_size(); ++i) { if (cb->isByValArgument(i)) J.value((int)i); } });
            if (cb->hasStructRetAttr()) J.attribute("sret", true);
            if (auto* iv = dyn_cast<InvokeInst>(&I)) { J.attribute("normal", bbs[iv->getNormalDest()]); J.attribute("unwind", bbs[iv->getUnwindDest()]); }
            tbaa(I);
         }
         if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
            J.attribute("cleanup", lp->isCleanup());
            J.attributeArray("clauses", [&] { for (unsigned i = 0; i < lp->getNumClauses(); ++i) J.array([&] { J.value(lp->isCatch(i) ? "catch" : "filter"); operand(lp->getClause(i)); }); });
         }
         loc(I.getDebugLoc());
      });
   }
   void function(Function& F, ScalarEvolution* SE, LoopInfo* LI) {
      ids.clear(); bbs.clear();
      int n = 0, b = 0;
      for (auto& a : F.args()) ids[&a] = n++;
      for (auto& B : F) { bbs[&B] = b++; for (auto& I : B) ids[&I] = n++; }
      J.object([&] {
         J.attribute("name", F.getName());
         J.attribute("dem", demangled(F.getName()));
         J.attribute("q", qname(F.getName()));
         if (auto* sp = F.getSubprogram()) { J.attribute("file", sp->getFilename()); J.attribute("line", (int)sp->getLine()); }
         J.attribute("ret", tyname(F.getReturnType()));
         J.attribute("nounwind", F.doesNotThrow());
         J.attribute("personality", F.hasPersonalityFn());
         J.attributeArray("args", [&] { for (auto& a : F.args()) J.object([&] { J.attribute("name", a.getName()); J.attribute("ty", tyname(a.getType())); if (a.hasStructRetAttr()) J.attribute("sret", true); if (a.hasByValAttr()) J.attribute("byval", true);
             if (a.hasAttribute(Attribute::Dereferenceable)) J.attribute("deref", (int64_t)a.getDereferenceableBytes()); }); });
         J.attributeArray("blocks", [&] {
            for (auto& B : F) J.object([&] {
               J.attribute("id", bbs[&B]);
               J.attributeArray("insts", [&] { for (auto& I : B) { if (isa<DbgInfoIntrinsic>(I) || I.isLifetimeStartOrEnd() || isa<AssumeInst>(I)) continue; inst(I); } });
            });
         });
         if (LI) J.attributeArray("loops", [&] {
            for (auto* L : LI->getLoopsInPreorder()) J.object([&] {
               J.attribute("header", bbs[L->getHeader()]);
               J.attributeArray("blocks", [&] { for (auto* B : L->blocks()) J.value(bbs[B]); });
               J.attributeArray("latches", [&] { SmallVector<BasicBlock*, 4> ls; L->getLoopLatches(ls); for (auto* B : ls) J.value(bbs[B]); });
               if (SE) {
                  std::string s; raw_string_ostream o(s);
                  // name values by id for the printed SCEV
                  const SCEV* c = SE->getBackedgeTakenCount(L);
                  J.attributeBegin("btc"); scev(c); J.attributeEnd();
                  J.attributeArray("exits", [&] {
                     SmallVector<BasicBlock*, 8> ex; L->getExitingBlocks(ex);
                     for (auto* e : ex) J.array([&] { J.value(bbs[e]); scev(SE->getExitCount(L, e)); });
                  });
               }
            });
         });
      });
   }
   void scev(const SCEV* s) {
      if (isa<SCEVCouldNotCompute>(s)) { J.value(nullptr); return; }
      J.array([&] {
         switch (s->getSCEVType()) {
            case scConstant: J.value("const"); intval(cast<SCEVConstant>(s)->getAPInt()); break;
            case scUnknown: J.value("val"); operand(cast<SCEVUnknown>(s)->getValue()); break;
            case scTruncate: case scZeroExtend: case scSignExtend: case scPtrToInt: {
               auto* c = cast<SCEVCastExpr>(s);
               J.value(s->getSCEVType() == scTruncate ? "trunc" : s->getSCEVType() == scZeroExtend ? "zext" : s->getSCEVType() == scSignExtend ? "sext" : "ptrtoint");
               scev(c->getOperand()); J.value(tyname(c->getType())); break; }
            case scUDivExpr: { auto* u = cast<SCEVUDivExpr>(s); J.value("udiv"); scev(u->getLHS()); scev(u->getRHS()); break; }
            case scAddRecExpr: { auto* a = cast<SCEVAddRecExpr>(s); J.value("addrec"); J.value(bbs[a->getLoop()->getHeader()]); for (auto* o : a->operands()) scev(o); break; }
            default: {
               const char* n = "?";
               switch (s->getSCEVType()) { case scAddExpr: n = "add"; break; case scMulExpr: n = "mul"; break; case scUMaxExpr: n = "umax"; break; case scSMaxExpr: n = "smax"; break; case scUMinExpr: n = "umin"; break; case scSMinExpr: n = "smin"; break; default: break; }
               J.value(n);
               if (auto* nary = dyn_cast<SCEVNAryExpr>(s)) for (auto* o : nary->operands()) scev(o);
            }
         }
      });
   }
};

static std::string scopeName(const DIScope* s) {
   std::string r;
   while (s) {
      if (isa<DIFile>(s) || isa<DICompileUnit>(s)) break;
      std::string n;
      if (auto* ns = dyn_cast<DINamespace>(s)) { n = ns->getName().empty() ? "(anonymous namespace)" : ns->getName().str(); if (ns->getExportSymbols()) { s = s->getScope(); continue; } }
      else n = s->getName().str();
      r = r.empty() ? n : n + "::" + r;
      s = s->getScope();
   }
   return r;
}
static bool diConst(const DIType* t) {
   for (int n = 0; t && n < 20; ++n) {
      if (t->getTag() == dwarf::DW_TAG_const_type) return true;
      if (t->getTag() == dwarf::DW_TAG_typedef || t->getTag() == dwarf::DW_TAG_volatile_type) t = cast<DIDerivedType>(t)->getBaseType();
      else if (t->getTag() == dwarf::DW_TAG_array_type) t = cast<DICompositeType>(t)->getBaseType();
      else return false;
   }
   return false;
}
static std::string typeName(const DIType* t, int d = 0) {
   if (!t) return "void";
   if (d > 8) return "...";
   if (auto* dt = dyn_cast<DIDerivedType>(t)) {
      auto b = typeName(dt->getBaseType(), d + 1);
      switch (dt->getTag()) {
         case dwarf::DW_TAG_pointer_type: return b + "*";
         case dwarf::DW_TAG_reference_type: return b + "&";
         case dwarf::DW_TAG_rvalue_reference_type: return b + "&&";
         case dwarf::DW_TAG_const_type: return b;
         case dwarf::DW_TAG_volatile_type: return b;
         case dwarf::DW_TAG_typedef: return b;
         case dwarf::DW_TAG_template_alias: return b;
         default: return b;
      }
   }
   if (auto* ct = dyn_cast<DICompositeType>(t)) {
      if (ct->getTag() == dwarf::DW_TAG_array_type) {
         std::string s = typeName(ct->getBaseType(), d + 1);
         for (auto* e : ct->getElements()) if (auto* sr = dyn_cast<DISubrange>(e)) if (auto* c = dyn_cast_if_present<ConstantInt*>(sr->getCount())) s += "[" + std::to_string(c->getSExtValue()) + "]";
         return s;
      }
      return scopeName(ct);
   }
   return t->getName().str();
}

static uint64_t DLsize(Module& M, Type* t) { return t->isSized() ? M.getDataLayout().getTypeAllocSize(t).getFixedValue() : 0; }
int main(int argc, char** argv) {
   std::vector<std::string> ins;
   std::string out, roots, inl, sig, keep, dumponly, pipeopt;
   bool closure = false;
   bool raw = false, globals = false, types = false;
   for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto val = [&](const char* p) { return a.substr(strlen(p)); };
      if (a == "-o") out = argv[++i];
      else if (a.rfind("--roots=", 0) == 0) roots = val("--roots=");
      else if (a.rfind("--inline=", 0) == 0) inl = val("--inline=");
      else if (a.rfind("--sig=", 0) == 0) sig = val("--sig=");
      else if (a.rfind("--keep=", 0) == 0) keep = val("--keep=");
      else if (a == "--raw") raw = true;
      else if (a.rfind("--passes=", 0) == 0) pipeopt = val("--passes=");
      else if (a == "--closure") closure = true;
      else if (a == "--globals") globals = true;
      else if (a == "--types") types = true;
      else ins.push_back(a);
   }
   LLVMContext C;
   C.setDiscardValueNames(false);
   std::unique_ptr<Module> M;
   for (auto& f : ins) {
      SMDiagnostic err;
      auto m = parseIRFile(f, err, C);
      if (!m) { err.print("irtool", errs()); return 2; }
      if (!M) M = std::move(m);
      else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed\n"; return 2; }
   }
   std::regex rroots(roots.empty() ? std::string(".*") : roots, std::regex::optimize), rinl(inl.empty() ? std::string("$^") : inl, std::regex::optimize), rkeep(keep.empty() ? std::string("$^") : keep, std::regex::optimize);
   std::map<std::string, bool> isRoot;
   // functions in a call-graph cycle cannot be inlined
   std::set<Function*> rec;
   {
      CallGraph CG(*M);
      for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) {
         if (it.hasCycle()) for (auto* n : *it) if (n->getFunction()) rec.insert(n->getFunction());
      }
   }
   for (auto& F : *M) {
      F.removeFnAttr(Attribute::OptimizeNone);
      F.removeFnAttr(Attribute::MinSize);
      if (F.isDeclaration()) continue;
      std::string d = qname(F.getName());
      bool r = std::regex_search(d, rroots);
      isRoot[F.getName().str()] = r;
      F.removeFnAttr(Attribute::AlwaysInline);
      F.removeFnAttr(Attribute::NoInline);
      F.removeFnAttr(Attribute::InlineHint);
      if (!raw && (std::regex_search(d, rinl) || (!sig.empty() && demangled(F.getName()).find(sig) != std::string::npos)) && !std::regex_search(d, rkeep) && !rec.count(&F)) F.addFnAttr(Attribute::AlwaysInline);
      else F.addFnAttr(Attribute::NoInline);
   }
   // what the roots cannot reach through inlined functions is never looked at: only its declaration is kept
   std::map<std::string, std::pair<std::string, int>> place;
   std::set<std::string> defined;
   for (auto& F : *M) {
      if (!F.isDeclaration()) defined.insert(F.getName().str());
      if (auto* sp = F.getSubprogram()) place[F.getName().str()] = {sp->getFilename().str(), (int)sp->getLine()};
   }
   // with closure: everything reachable from a root, by calls or by address
   auto reach = [&](std::function<bool(Function*)> through) {
      std::vector<Function*> work; std::set<Function*> seen; std::set<const Constant*> cseen;
      for (auto& F : *M) if (!F.isDeclaration() && isRoot[F.getName().str()]) { work.push_back(&F); seen.insert(&F); }
      std::function<void(const Value*)> visit = [&](const Value* v) {
         auto* c = dyn_cast<Constant>(v);
         if (!c || isa<ConstantData>(c) || !cseen.insert(c).second) return;
         if (auto* f = dyn_cast<Function>(c)) { auto* ff = const_cast<Function*>(f); if (!ff->isDeclaration() && through(ff) && seen.insert(ff).second) work.push_back(ff); return; }
         if (auto* g = dyn_cast<GlobalVariable>(c)) { if (g->hasInitializer()) visit(g->getInitializer()); return; }
         for (auto& o : c->operands()) visit(o.get());
      };
      while (!work.empty()) {
         Function* F = work.back(); work.pop_back();
         for (auto& I : instructions(*F)) for (auto& o : I.operands()) visit(o.get());
      }
      return seen;
   };
   if (!raw) {
      // functions that would be inlined but for recursion are dumped with the roots
      auto cyclic = [&](Function* g) { std::string d; return rec.count(g) && (d = qname(g->getName()), std::regex_search(d, rinl) && !std::regex_search(d, rkeep)); };
      auto seen = reach([&](Function* g) { return closure || g->hasFnAttribute(Attribute::AlwaysInline) || cyclic(g); });
      if (!closure) for (auto* g : seen) if (cyclic(g)) isRoot[g->getName().str()] = true;
      for (auto& F : *M) if (!F.isDeclaration() && !seen.count(&F)) F.deleteBody();
   }
   for (auto& F : *M) for (auto& I : instructions(F)) if (auto* cb = dyn_cast<CallBase>(&I)) { cb->removeFnAttr(Attribute::NoInline); cb->removeFnAttr(Attribute::AlwaysInline); }
   LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
   PassBuilder PB;
   PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
   PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
   ModulePassManager MPM;
   const char* pipe = raw
       ? "function(mem2reg,simplifycfg)"
       : "function(sroa,early-cse,simplifycfg),always-inline,function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,sroa,"
         "early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,adce)";
   std::string pipes = pipe;
   if (!raw && !pipeopt.empty()) pipes += ",function(" + pipeopt + ")";
   if (auto e = PB.parsePassPipeline(MPM, pipes)) { errs() << toString(std::move(e)) << "\n"; return 2; }
   // keep functions alive through always-inline by external linkage
   for (auto& F : *M) if (!F.isDeclaration()) { F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); F.setVisibility(GlobalValue::DefaultVisibility); }
   MPM.run(*M, MAM);
   if (closure) {
      // dump everything the roots can reach through direct calls and address-taken functions
      for (auto* F : reach([](Function*) { return true; })) isRoot[F->getName().str()] = true;
   }
   std::error_code ec;
   raw_fd_ostream os(out, ec);
   if (ec) { errs() << "cannot write " << out << "\n"; return 2; }
   json::OStream J(os);
   J.object([&] {
      J.attributeArray("functions", [&] {
         Dumper D(*M, J);
         for (auto& F : *M) {
            if (F.isDeclaration() || !isRoot[F.getName().str()]) continue;
            auto& LI = FAM.getResult<LoopAnalysis>(F);
            auto& SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
            D.function(F, raw ? nullptr : &SE, &LI);
         }
      });
      J.attributeObject("decls", [&] {
         for (auto& F : *M) J.attributeObject(F.getName(), [&] { J.attribute("dem", demangled(F.getName())); J.attribute("q", qname(F.getName())); J.attribute("def", defined.count(F.getName().str()) > 0); J.attribute("nounwind", F.doesNotThrow()); J.attribute("noreturn", F.doesNotReturn());
            if (auto it = place.find(F.getName().str()); it != place.end()) { J.attribute("file", it->second.first); J.attribute("line", it->second.second); } });
      });
      if (globals) J.attributeObject("globals", [&] {
         Dumper D(*M, J);
         for (auto& G : M->globals()) J.attributeObject(G.getName(), [&] {
            J.attribute("dem", demangled(G.getName()));
            J.attribute("const", G.isConstant()); J.attribute("tls", G.isThreadLocal()); J.attribute("decl", G.isDeclaration());
            J.attribute("ty", D.tyname(G.getValueType()));
            SmallVector<DIGlobalVariableExpression*, 1> gv; G.getDebugInfo(gv);
            if (!gv.empty()) { J.attribute("file", gv[0]->getVariable()->getFilename()); J.attribute("line", (int)gv[0]->getVariable()->getLine()); J.attribute("dity", typeName(gv[0]->getVariable()->getType())); J.attribute("diconst", diConst(gv[0]->getVariable()->getType())); }
            J.attribute("size", (int64_t)DLsize(*M, G.getValueType()));
            if (G.hasInitializer()) {
               uint64_t sz = M->getDataLayout().getTypeAllocSize(G.getValueType());
               if (sz <= (1u << 20)) {
                  std::vector<uint8_t> img(sz, 0); std::vector<std::pair<uint64_t, const Constant*>> ptrs;
                  D.flatten(G.getInitializer(), 0, img, ptrs);
                  std::string hex; static const char* hd = "0123456789abcdef"; for (auto b : img) { hex += hd[b >> 4]; hex += hd[b & 15]; }
                  J.attribute("hex", hex);
                  J.attributeArray("ptrs", [&] { for (auto& p : ptrs) J.array([&] { J.value((int64_t)p.first); D.operand(p.second); }); });
               }
            }
         });
      });
      if (types) {
         DebugInfoFinder DF; DF.processModule(*M);
         J.attributeArray("types", [&] {
            for (auto* t : DF.types()) {
               auto* ct = dyn_cast<DICompositeType>(t);
               if (!ct || ct->isForwardDecl()) continue;
               auto tag = ct->getTag();
               if (tag != dwarf::DW_TAG_structure_type && tag != dwarf::DW_TAG_class_type && tag != dwarf::DW_TAG_enumeration_type && tag != dwarf::DW_TAG_union_type) continue;
               J.object([&] {
                  J.attribute("name", scopeName(ct)); J.attribute("id", ct->getIdentifier());
                  J.attribute("kind", dwarf::TagString(tag)); J.attribute("size", (int64_t)ct->getSizeInBits());
                  J.attribute("file", ct->getFilename()); J.attribute("line", (int)ct->getLine());
                  if (tag == dwarf::DW_TAG_enumeration_type) {
                     J.attribute("base", typeName(ct->getBaseType()));
                     J.attributeArray("enum", [&] { for (auto* e : ct->getElements()) if (auto* en = dyn_cast<DIEnumerator>(e)) J.array([&] { J.value(en->getName()); J.value(en->getValue().getSExtValue()); }); });
                  } else {
                     J.attributeArray("members", [&] {
                        for (auto* e : ct->getElements()) {
                           auto* dt = dyn_cast<DIDerivedType>(e);
                           if (!dt) continue;
                           if (dt->getTag() == dwarf::DW_TAG_member && !dt->isStaticMember())
                              J.object([&] { J.attribute("n", dt->getName()); J.attribute("off", (int64_t)dt->getOffsetInBits() / 8); J.attribute("ty", typeName(dt->getBaseType())); J.attribute("size", (int64_t)dt->getSizeInBits()); J.attribute("line", (int)dt->getLine()); });
                           else if (dt->getTag() == dwarf::DW_TAG_inheritance)
                              J.object([&] { J.attribute("base", typeName(dt->getBaseType())); J.attribute("off", (int64_t)dt->getOffsetInBits() / 8); });
                        }
                     });
                  }
               });
            }
         });
      }
   });
   os << "\n";
   return 0;
}
