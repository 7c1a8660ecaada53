// irdump: normalises one bitcode module and dumps its project functions as
// JSON facts.  It never runs or interprets the program.
//
//   irdump --in X.bc --out X.json --root /repo/src [--known FILE]
//          [--keep-eh] [--extra-inline REGEX] [--link OTHER.bc]...
//
// Normalisation: virtual calls are resolved to Class::method through the
// type-test metadata and debug info; invokes become calls (unless --keep-eh);
// small std accessors and every project function that is not in the table of
// known functions (i.e. freshly extracted helpers) are inlined; then SROA, CSE,
// CFG simplification and jump threading canonicalise the result.
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/JumpThreading.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/UnifyFunctionExitNodes.h"

#include <map>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static std::string Root = "/repo/src";
static std::set<std::string> Known;
static bool HaveKnown = false;
static bool KeepEH = false;
static bool SplitSelects = false;

static std::string qualName(StringRef mangled)
{
  ItaniumPartialDemangler D;
  std::string m = mangled.str();
  if (D.partialDemangle(m.c_str()))
    return m;
  char* buf = D.getFunctionName(nullptr, nullptr);
  if (!buf)
    return m;
  std::string r(buf);
  free(buf);
  return r;
}

static bool projectFile(StringRef f) { return f.starts_with(Root); }

static std::string diFile(const DIFile* F)
{
  if (!F)
    return "";
  std::string fn = F->getFilename().str();
  if (!fn.empty() && fn[0] == '/')
    return fn;
  return (F->getDirectory() + "/" + fn).str();
}

static bool isProject(const Function& F)
{
  if (auto* SP = F.getSubprogram())
    return projectFile(diFile(SP->getFile()));
  return false;
}

// ---------------------------------------------------------------- DI types
static std::string scopedName(const DIScope* S)
{
  if (!S)
    return "";
  std::string n;
  if (auto* T = dyn_cast<DIType>(S))
    n = T->getName().str();
  else if (auto* N = dyn_cast<DINamespace>(S))
  {
    if (N->getExportSymbols()) // inline namespace
      return scopedName(N->getScope());
    n = N->getName().str();
    if (n.empty())
      n = "(anonymous namespace)";
  }
  else if (isa<DISubprogram>(S))
    return "";
  else
    return "";
  std::string p = scopedName(S->getScope());
  return p.empty() ? n : p + "::" + n;
}

static std::map<std::string, const DICompositeType*> Records; // by scoped name

static const DIType* strip(const DIType* T)
{
  while (auto* D = dyn_cast_or_null<DIDerivedType>(T))
  {
    switch (D->getTag())
    {
    case dwarf::DW_TAG_typedef:
    case dwarf::DW_TAG_const_type:
    case dwarf::DW_TAG_volatile_type:
    case dwarf::DW_TAG_restrict_type:
    case dwarf::DW_TAG_atomic_type:
    case dwarf::DW_TAG_template_alias:
      T = D->getBaseType();
      continue;
    default:
      return T;
    }
  }
  return T;
}

static std::string typeName(const DIType* T)
{
  if (!T)
    return "void";
  if (auto* D = dyn_cast<DIDerivedType>(T))
  {
    switch (D->getTag())
    {
    case dwarf::DW_TAG_pointer_type:
      return typeName(D->getBaseType()) + "*";
    case dwarf::DW_TAG_reference_type:
    case dwarf::DW_TAG_rvalue_reference_type:
      return typeName(D->getBaseType()) + "&";
    case dwarf::DW_TAG_const_type:
      return "const " + typeName(D->getBaseType());
    case dwarf::DW_TAG_volatile_type:
    case dwarf::DW_TAG_restrict_type:
      return typeName(D->getBaseType());
    case dwarf::DW_TAG_typedef:
      return scopedName(D);
    default:
      return D->getName().str();
    }
  }
  if (auto* C = dyn_cast<DICompositeType>(T))
  {
    if (C->getTag() == dwarf::DW_TAG_array_type)
    {
      std::string r = typeName(C->getBaseType());
      for (auto* E : C->getElements())
        if (auto* SR = dyn_cast<DISubrange>(E))
        {
          if (auto* CI = dyn_cast_if_present<ConstantInt*>(SR->getCount()))
            r += "[" + std::to_string(CI->getSExtValue()) + "]";
          else
            r += "[]";
        }
      return r;
    }
    std::string n = scopedName(C);
    return n;
  }
  if (isa<DISubroutineType>(T))
    return "fn";
  return T->getName().str();
}

static std::string llvmStructKey(StructType* ST)
{
  if (!ST->hasName())
    return "";
  StringRef n = ST->getName();
  for (StringRef p : {"class.", "struct.", "union."})
    if (n.consume_front(p))
      break;
  // strip ".base" and ".NNN" suffixes
  while (true)
  {
    size_t d = n.rfind('.');
    if (d == StringRef::npos)
      break;
    StringRef suf = n.substr(d + 1);
    if (suf == "base" || (!suf.empty() && all_of(suf, isDigit)))
      n = n.substr(0, d);
    else
      break;
  }
  return n.str();
}

// Finds the member of C (bases included) covering byte offset Off.
static bool findMember(const DICompositeType* C, uint64_t Off,
                       std::vector<std::string>& path, const DIType*& ty,
                       uint64_t& rest, StructType* inner)
{
  const DIDerivedType* best = nullptr;
  for (auto* E : C->getElements())
  {
    auto* D = dyn_cast<DIDerivedType>(E);
    if (!D || D->isStaticMember())
      continue;
    if (D->getTag() != dwarf::DW_TAG_member &&
        D->getTag() != dwarf::DW_TAG_inheritance)
      continue;
    uint64_t o = D->getOffsetInBits() / 8;
    const DIType* bt = strip(D->getBaseType());
    uint64_t sz = (bt ? bt->getSizeInBits() : D->getSizeInBits()) / 8;
    if (Off >= o && (Off < o + sz || (Off == o && sz == 0)))
    {
      if (D->getTag() == dwarf::DW_TAG_inheritance && sz <= 1)
        continue;
      if (D->getName().starts_with("_vptr"))
      {
        if (!best)
          best = D;
        continue;
      }
      best = D;
      break;
    }
  }
  if (!best)
    return false;
  uint64_t o = best->getOffsetInBits() / 8;
  ty = best->getBaseType();
  rest = Off - o;
  if (best->getTag() == dwarf::DW_TAG_inheritance)
  {
    auto* BC = dyn_cast_or_null<DICompositeType>(strip(ty));
    if (!BC)
      return false;
    if (inner && rest == 0 && llvmStructKey(inner) == scopedName(BC))
    {
      path.push_back("<" + scopedName(BC) + ">");
      return true;
    }
    return findMember(BC, rest, path, ty, rest, inner);
  }
  path.push_back(best->getName().empty() ? "<anon>" : best->getName().str());
  return true;
}

// ------------------------------------------------------------------ dumping
struct FnDumper
{
  const DataLayout& DL;
  DenseMap<const Value*, int> ids;
  FnDumper(const DataLayout& DL) : DL(DL) {}

  static std::string tyStr(Type* T)
  {
    std::string s;
    raw_string_ostream os(s);
    if (auto* ST = dyn_cast<StructType>(T))
    {
      if (ST->hasName())
        return "%" + llvmStructKey(ST);
    }
    T->print(os);
    return s;
  }

  json::Value constant(const Constant* C, int depth = 0)
  {
    if (auto* CI = dyn_cast<ConstantInt>(C))
    {
      if (CI->getBitWidth() <= 64)
        return json::Array{"c", CI->getSExtValue(), (int64_t)CI->getBitWidth()};
      SmallString<40> s;
      CI->getValue().toStringSigned(s);
      return json::Array{"big", s.str().str()};
    }
    if (auto* CF = dyn_cast<ConstantFP>(C))
    {
      SmallString<40> s;
      CF->getValueAPF().toString(s);
      return json::Array{"f", s.str().str(), tyStr(CF->getType())};
    }
    if (isa<ConstantPointerNull>(C))
      return json::Array{"null"};
    if (isa<PoisonValue>(C) || isa<UndefValue>(C))
      return json::Array{"undef"};
    if (auto* GV = dyn_cast<GlobalVariable>(C))
    {
      if (GV->hasInitializer() && GV->isConstant())
        if (auto* CDA = dyn_cast<ConstantDataArray>(GV->getInitializer()))
          if (CDA->isString())
          {
            StringRef s = CDA->getAsString();
            if (!s.empty() && s.back() == 0)
              s = s.drop_back();
            return json::Array{"s", json::fixUTF8(s)};
          }
      if (GV->hasInitializer() && GV->isConstant() &&
          isa<ConstantAggregateZero>(GV->getInitializer()) &&
          GV->getName().starts_with(".str"))
        return json::Array{"s", ""};
      return json::Array{"g", GV->getName().str()};
    }
    if (auto* F = dyn_cast<Function>(C))
      return json::Array{"fn", F->getName().str()};
    if (auto* GA = dyn_cast<GlobalAlias>(C))
      return constant(cast<Constant>(GA->getAliasee()), depth);
    if (depth > 6)
      return json::Array{"deep"};
    if (auto* CE = dyn_cast<ConstantExpr>(C))
    {
      if (CE->getOpcode() == Instruction::GetElementPtr)
      {
        APInt off(64, 0);
        auto* G = cast<GEPOperator>(CE);
        if (G->accumulateConstantOffset(DL, off))
          return json::Array{"cgep",
                             constant(cast<Constant>(G->getPointerOperand()),
                                      depth + 1),
                             (int64_t)off.getSExtValue()};
      }
      json::Array a{"ce", CE->getOpcodeName()};
      for (auto& o : CE->operands())
        a.push_back(constant(cast<Constant>(&o), depth + 1));
      return a;
    }
    if (isa<ConstantAggregateZero>(C))
      return json::Array{"zero"};
    if (auto* CDS = dyn_cast<ConstantDataSequential>(C))
    {
      if (CDS->isString())
      {
        StringRef s = CDS->getAsString();
        if (!s.empty() && s.back() == 0)
          s = s.drop_back();
        return json::Array{"s", json::fixUTF8(s)};
      }
      json::Array a{"arr"};
      for (unsigned i = 0; i < CDS->getNumElements(); i++)
        a.push_back(constant(CDS->getElementAsConstant(i), depth + 1));
      return a;
    }
    if (isa<ConstantAggregate>(C))
    {
      json::Array a{"arr"};
      for (auto& o : C->operands())
        a.push_back(constant(cast<Constant>(&o), depth + 1));
      return a;
    }
    return json::Array{"k"};
  }

  // the scalars of a constant: [byte offset, size, value]; zeroes are left out
  void flat(const Constant* C, uint64_t off, json::Array& out)
  {
    if (out.size() > 4096 || isa<ConstantAggregateZero>(C) || isa<UndefValue>(C))
      return;
    Type* T = C->getType();
    if (auto* ST = dyn_cast<StructType>(T))
    {
      auto* L = DL.getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); i++)
        if (auto* E = C->getAggregateElement(i))
          flat(E, off + L->getElementOffset(i).getFixedValue(), out);
      return;
    }
    if (auto* AT = dyn_cast<ArrayType>(T))
    {
      uint64_t w = DL.getTypeAllocSize(AT->getElementType()).getFixedValue();
      for (uint64_t i = 0; i < AT->getNumElements() && out.size() <= 4096; i++)
        if (auto* E = C->getAggregateElement(i))
          flat(E, off + i * w, out);
      return;
    }
    if (T->isVectorTy())
      return;
    out.push_back(json::Array{(int64_t)off,
                              (int64_t)DL.getTypeStoreSize(T).getFixedValue(),
                              constant(C)});
  }

  json::Value op(const Value* V)
  {
    if (auto* A = dyn_cast<Argument>(V))
      return json::Array{"a", (int64_t)A->getArgNo()};
    if (auto* C = dyn_cast<Constant>(V))
      return constant(C);
    if (auto* BB = dyn_cast<BasicBlock>(V))
      return json::Array{"b", (int64_t)ids.lookup(BB)};
    auto it = ids.find(V);
    if (it != ids.end())
      return json::Array{"v", (int64_t)it->second};
    if (isa<MetadataAsValue>(V))
      return json::Array{"md"};
    if (isa<InlineAsm>(V))
      return json::Array{"asm"};
    return json::Array{"?"};
  }

  json::Array gepPath(const GEPOperator* G)
  {
    json::Array path;
    Type* cur = G->getSourceElementType();
    const DIType* dty = nullptr;
    bool diValid = false;
    unsigned n = 0;
    for (auto it = G->idx_begin(); it != G->idx_end(); ++it, ++n)
    {
      const Value* idx = *it;
      if (n == 0)
      {
        auto* CI = dyn_cast<ConstantInt>(idx);
        if (!(CI && CI->isZero()))
          path.push_back(json::Array{"p", op(idx),
                                     (int64_t)DL.getTypeAllocSize(cur).getFixedValue()});
        if (auto* ST = dyn_cast<StructType>(cur))
        {
          auto k = Records.find(llvmStructKey(ST));
          if (k != Records.end())
          {
            dty = k->second;
            diValid = true;
          }
        }
        continue;
      }
      if (auto* ST = dyn_cast<StructType>(cur))
      {
        unsigned i = cast<ConstantInt>(idx)->getZExtValue();
        uint64_t off = DL.getStructLayout(ST)->getElementOffset(i);
        Type* nt = ST->getElementType(i);
        bool done = false;
        if (!diValid)
        {
          auto k = Records.find(llvmStructKey(ST));
          if (k != Records.end())
          {
            dty = k->second;
            diValid = true;
          }
        }
        if (diValid)
          if (auto* DC = dyn_cast_or_null<DICompositeType>(strip(dty)))
          {
            std::vector<std::string> p;
            const DIType* t = nullptr;
            uint64_t rest = 0;
            if (findMember(DC, off, p, t, rest, dyn_cast<StructType>(nt)))
            {
              for (auto& s : p)
                path.push_back(json::Array{"f", s, scopedName(DC)});
              dty = t;
              done = true;
            }
          }
        if (!done)
        {
          path.push_back(json::Array{"f", "#" + std::to_string(i),
                                     llvmStructKey(ST)});
          diValid = false;
        }
        cur = nt;
      }
      else if (auto* AT = dyn_cast<ArrayType>(cur))
      {
        path.push_back(json::Array{
          "i", op(idx),
          (int64_t)DL.getTypeAllocSize(AT->getElementType()).getFixedValue()});
        cur = AT->getElementType();
        if (diValid)
        {
          auto* DC = dyn_cast_or_null<DICompositeType>(strip(dty));
          if (DC && DC->getTag() == dwarf::DW_TAG_array_type)
            dty = DC->getBaseType();
          else
            diValid = false;
        }
      }
      else
      {
        path.push_back(json::Array{"?"});
      }
    }
    return path;
  }

  static void loc(const Instruction& I, json::Object& o, StringRef fnFile)
  {
    if (DILocation* L = I.getDebugLoc())
    {
      // innermost location inside the project
      DILocation* P = L;
      while (P->getInlinedAt() && !projectFile(diFile(P->getFile())))
        P = P->getInlinedAt();
      o["l"] = (int64_t)P->getLine();
      std::string f = diFile(P->getFile());
      if (f != fnFile)
        o["lf"] = f;
    }
  }

  json::Object dump(const Function& F)
  {
    json::Object o;
    auto* SP = F.getSubprogram();
    std::string file = diFile(SP->getFile());
    o["name"] = F.getName().str();
    o["qual"] = qualName(F.getName());
    o["dem"] = demangle(F.getName().str());
    o["file"] = file;
    o["line"] = (int64_t)SP->getLine();
    o["internal"] = F.hasLocalLinkage();
    o["cls"] = SP->getScope() && isa<DIType>(SP->getScope())
                 ? scopedName(SP->getScope())
                 : "";
    o["ret"] = tyStr(F.getReturnType());
    // parameters
    json::Array ps;
    std::map<unsigned, const DILocalVariable*> dv;
    for (auto* N : SP->getRetainedNodes())
      if (auto* V = dyn_cast<DILocalVariable>(N))
        if (V->getArg())
          dv[V->getArg()] = V;
    // arg metadata: use the retained dbg records too
    for (auto& BB : F)
      for (auto& I : BB)
        for (DbgVariableRecord& R : filterDbgVars(I.getDbgRecordRange()))
          if (R.getVariable()->getArg() && R.getVariable()->getScope() == SP)
            dv.emplace(R.getVariable()->getArg(), R.getVariable());
    unsigned srcShift = F.hasStructRetAttr() ? 1 : 0;
    for (auto& A : F.args())
    {
      json::Object p;
      p["n"] = A.getName().str();
      p["t"] = tyStr(A.getType());
      unsigned no = A.getArgNo() + 1;
      if (A.hasStructRetAttr())
        p["sret"] = true;
      else
      {
        auto it = dv.find(no - srcShift);
        if (it != dv.end())
        {
          p["dn"] = it->second->getName().str();
          p["dt"] = typeName(it->second->getType());
        }
      }
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    if (auto* ST = SP->getType())
    {
      json::Array ta;
      for (auto* T : ST->getTypeArray())
        ta.push_back(typeName(T));
      o["sig"] = std::move(ta);
    }
    int n = 0, b = 0;
    for (auto& BB : F)
    {
      ids[&BB] = b++;
      for (auto& I : BB)
        ids[&I] = n++;
    }
    json::Array blocks;
    for (auto& BB : F)
    {
      json::Array insts;
      for (auto& I : BB)
      {
        json::Object e;
        e["i"] = ids[&I];
        e["o"] = I.getOpcodeName();
        if (!I.getType()->isVoidTy())
          e["t"] = tyStr(I.getType());
        loc(I, e, file);
        if (I.hasName())
          e["n"] = I.getName().str();
        if (auto* CB = dyn_cast<CallBase>(&I))
        {
          json::Array a;
          for (auto& x : CB->args())
            a.push_back(op(x));
          e["a"] = std::move(a);
          e["o"] = isa<InvokeInst>(I) ? "invoke" : "call";
          if (CB->hasFnAttr("vcall"))
            e["vc"] = CB->getFnAttr("vcall").getValueAsString().str();
          const Value* cv = CB->getCalledOperand()->stripPointerCasts();
          if (auto* GA = dyn_cast<GlobalAlias>(cv))
            cv = GA->getAliasee();
          if (auto* cf = dyn_cast<Function>(cv))
            e["c"] = cf->getName().str();
          else
            e["cv"] = op(cv);
          for (unsigned k = 0; k < CB->arg_size(); k++)
            if (CB->paramHasAttr(k, Attribute::StructRet))
              e["sret"] = (int64_t)k;
          {
            json::Array bv;
            for (unsigned k = 0; k < CB->arg_size(); k++)
              if (CB->paramHasAttr(k, Attribute::ByVal))
                bv.push_back((int64_t)k);
            if (!bv.empty())
              e["bv"] = std::move(bv);
          }
          if (CB->doesNotReturn())
            e["nr"] = true;
          if (auto* IV = dyn_cast<InvokeInst>(&I))
            e["s"] = json::Array{ids[IV->getNormalDest()],
                                 ids[IV->getUnwindDest()]};
        }
        else if (auto* G = dyn_cast<GetElementPtrInst>(&I))
        {
          e["o"] = "gep";
          e["a"] = json::Array{op(G->getPointerOperand())};
          e["p"] = gepPath(cast<GEPOperator>(G));
          {
            SmallMapVector<Value*, APInt, 4> vo;
            APInt co(64, 0);
            if (cast<GEPOperator>(G)->collectOffset(DL, 64, vo, co))
            {
              e["ko"] = co.getSExtValue();
              json::Array va;
              for (auto& v : vo)
                va.push_back(json::Array{op(v.first), v.second.getSExtValue()});
              e["vo"] = std::move(va);
            }
          }
          e["st"] = tyStr(G->getSourceElementType());
        }
        else if (auto* P = dyn_cast<PHINode>(&I))
        {
          json::Array a;
          for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
            a.push_back(json::Array{op(P->getIncomingValue(i)),
                                    ids[P->getIncomingBlock(i)]});
          e["a"] = std::move(a);
        }
        else if (auto* Br = dyn_cast<BranchInst>(&I))
        {
          json::Array a, s;
          if (Br->isConditional())
            a.push_back(op(Br->getCondition()));
          for (auto* S : successors(&BB))
            s.push_back(ids[S]);
          e["a"] = std::move(a);
          e["s"] = std::move(s);
        }
        else if (auto* Sw = dyn_cast<SwitchInst>(&I))
        {
          json::Array s, cs;
          e["a"] = json::Array{op(Sw->getCondition())};
          for (auto c : Sw->cases())
            cs.push_back(json::Array{c.getCaseValue()->getSExtValue(),
                                     ids[c.getCaseSuccessor()]});
          e["cases"] = std::move(cs);
          e["default"] = ids[Sw->getDefaultDest()];
          std::set<int> seen;
          for (auto* S : successors(&BB))
            if (seen.insert(ids[S]).second)
              s.push_back(ids[S]);
          e["s"] = std::move(s);
        }
        else
        {
          json::Array a;
          for (auto& x : I.operands())
            a.push_back(op(x));
          e["a"] = std::move(a);
          if (auto* C = dyn_cast<CmpInst>(&I))
            e["p"] = CmpInst::getPredicateName(C->getPredicate()).str();
          if (auto* AI = dyn_cast<AllocaInst>(&I))
          {
            e["at"] = tyStr(AI->getAllocatedType());
            for (DbgVariableRecord* R : findDVRDeclares(const_cast<AllocaInst*>(AI)))
            {
              e["dn"] = R->getVariable()->getName().str();
              e["dt"] = typeName(R->getVariable()->getType());
            }
          }
          if (auto* SI = dyn_cast<StoreInst>(&I))
            e["vt"] = tyStr(SI->getValueOperand()->getType());
          if (auto* EV = dyn_cast<ExtractValueInst>(&I))
          {
            json::Array x;
            for (auto i : EV->indices())
              x.push_back((int64_t)i);
            e["x"] = std::move(x);
          }
          if (auto* IV = dyn_cast<InsertValueInst>(&I))
          {
            json::Array x;
            for (auto i : IV->indices())
              x.push_back((int64_t)i);
            e["x"] = std::move(x);
          }
          if (auto* SV = dyn_cast<ShuffleVectorInst>(&I))
          {
            json::Array x;
            for (auto i : SV->getShuffleMask())
              x.push_back((int64_t)i);
            e["x"] = std::move(x);
          }
          if (I.isAtomic())
            e["atomic"] = true;
        }
        insts.push_back(std::move(e));
      }
      blocks.push_back(std::move(insts));
    }
    o["blocks"] = std::move(blocks);
    return o;
  }
};

// ------------------------------------------------------------ preprocessing
static std::map<std::string, std::map<unsigned, std::string>> VSlots;

static void collectSlots(const DICompositeType* C,
                         std::map<unsigned, std::string>& out, int depth = 0)
{
  if (depth > 8)
    return;
  for (auto* E : C->getElements())
  {
    if (auto* D = dyn_cast<DIDerivedType>(E))
      if (D->getTag() == dwarf::DW_TAG_inheritance)
        if (auto* B = dyn_cast_or_null<DICompositeType>(strip(D->getBaseType())))
          collectSlots(B, out, depth + 1);
  }
  for (auto* E : C->getElements())
    if (auto* S = dyn_cast<DISubprogram>(E))
      if (S->getVirtuality())
      {
        if (S->getName().starts_with("~"))
        {
          out[S->getVirtualIndex()] = S->getName().str();
          out[S->getVirtualIndex() + 1] = S->getName().str();
        }
        else
          out[S->getVirtualIndex()] = S->getName().str();
      }
}

static void resolveVirtual(Module& M)
{
  for (auto& F : M)
  {
    std::vector<CallInst*> tests;
    for (auto& I : instructions(F))
      if (auto* C = dyn_cast<CallInst>(&I))
        if (auto* cf = C->getCalledFunction())
          if (cf->getName() == "llvm.public.type.test" ||
              cf->getName() == "llvm.type.test")
            tests.push_back(C);
    for (auto* T : tests)
    {
      std::string id;
      if (auto* MV = dyn_cast<MetadataAsValue>(T->getArgOperand(1)))
        if (auto* S = dyn_cast<MDString>(MV->getMetadata()))
          id = S->getString().str();
      Value* vt = T->getArgOperand(0);
      std::string cls;
      if (StringRef(id).starts_with("_ZTS"))
      {
        std::string dn = demangle("_ZTI" + id.substr(4));
        StringRef r(dn);
        r.consume_front("typeinfo for ");
        cls = r.str();
      }
      // vtable load may itself be stored; at -O0 form its users are direct
      for (auto* U : vt->users())
      {
        unsigned idx = 0;
        Value* slot = nullptr;
        if (auto* G = dyn_cast<GetElementPtrInst>(U))
        {
          if (G->getNumIndices() == 1)
            if (auto* CI = dyn_cast<ConstantInt>(G->getOperand(1)))
            {
              idx = CI->getZExtValue();
              slot = G;
            }
        }
        else if (isa<LoadInst>(U))
        {
          slot = nullptr;
          for (auto* UU : U->users())
            if (auto* CB = dyn_cast<CallBase>(UU))
              if (CB->getCalledOperand() == U)
                CB->addFnAttr(Attribute::get(M.getContext(), "vcall", cls + "#0"));
        }
        if (slot)
          for (auto* UL : slot->users())
            if (auto* L = dyn_cast<LoadInst>(UL))
              for (auto* UC : L->users())
                if (auto* CB = dyn_cast<CallBase>(UC))
                  if (CB->getCalledOperand() == L)
                    CB->addFnAttr(Attribute::get(M.getContext(), "vcall",
                                                 cls + "#" + std::to_string(idx)));
      }
      std::vector<Instruction*> dead;
      for (auto* U : T->users())
        if (auto* A = dyn_cast<CallInst>(U))
          dead.push_back(A);
      for (auto* A : dead)
        A->eraseFromParent();
      if (T->use_empty())
        T->eraseFromParent();
    }
    // translate slots into method names
    for (auto& I : instructions(F))
      if (auto* CB = dyn_cast<CallBase>(&I))
        if (CB->hasFnAttr("vcall"))
        {
          std::string v = CB->getFnAttr("vcall").getValueAsString().str();
          size_t h = v.rfind('#');
          if (h == std::string::npos)
            continue;
          std::string cls = v.substr(0, h);
          unsigned idx = std::stoul(v.substr(h + 1));
          auto r = Records.find(cls);
          if (r == Records.end())
            continue;
          auto& sl = VSlots[cls];
          if (sl.empty())
            collectSlots(r->second, sl);
          auto s = sl.find(idx);
          if (s != sl.end())
            CB->addFnAttr(
              Attribute::get(M.getContext(), "vcall", cls + "::" + s->second));
        }
  }
}

static void dropEH(Function& F)
{
  std::vector<InvokeInst*> inv;
  for (auto& BB : F)
    if (auto* I = dyn_cast<InvokeInst>(BB.getTerminator()))
      inv.push_back(I);
  for (auto* I : inv)
    changeToCall(I);
  removeUnreachableBlocks(F);
}

static unsigned letterSize(char c)
{
  switch (c)
  {
  case 'c': case 'h': case 'a': case 'b': return 1;
  case 's': case 't': return 2;
  case 'i': case 'j': case 'f': return 4;
  case 'l': case 'm': case 'x': case 'y': case 'd': return 8;
  }
  return 0;
}

// std::copy, copy_n, fill and fill_n on plain scalars are block moves
static void lowerAlgorithms(Function& F)
{
  static Regex copy("^_ZSt4copyI(P([a-z])S0_|PK([a-z])P([a-z]))E");
  static Regex copyN("^_ZSt6copy_nI(P([a-z])([ijlm])S0_|PK([a-z])([ijlm])P([a-z]))E");
  static Regex fill("^_ZSt4fillIP([hac])([a-z])E");
  static Regex fillN("^_ZSt6fill_nIP([hac])([ijlm])([a-z])E");
  std::vector<CallInst*> calls;
  for (auto& I : instructions(F))
    if (auto* C = dyn_cast<CallInst>(&I))
      if (C->getCalledFunction() && C->getCalledFunction()->getName().starts_with("_ZSt"))
        calls.push_back(C);
  for (auto* C : calls)
  {
    StringRef n = C->getCalledFunction()->getName();
    SmallVector<StringRef> m;
    IRBuilder<> B(C);
    auto* I64 = B.getInt64Ty();
    auto bytes = [&](Value* from, Value* to) {
      return B.CreateSub(B.CreatePtrToInt(to, I64), B.CreatePtrToInt(from, I64));
    };
    auto count = [&](Value* v, char t) {
      return t == 'i' || t == 'l' ? B.CreateSExt(v, I64) : B.CreateZExt(v, I64);
    };
    auto byte = [&](Value* ref, char t) -> Value* {
      unsigned sz = letterSize(t);
      if (!sz || t == 'f' || t == 'd')
        return nullptr;
      return B.CreateTrunc(B.CreateLoad(B.getIntNTy(sz * 8), ref), B.getInt8Ty());
    };
    Value *end = nullptr;
    if (copy.match(n, &m))
    {
      char a = (m[2] + m[3]).str()[0], b = m[4].empty() ? a : m[4][0];
      if (a != b || !letterSize(a))
        continue;
      Value* len = bytes(C->getArgOperand(0), C->getArgOperand(1));
      B.CreateMemMove(C->getArgOperand(2), MaybeAlign(1), C->getArgOperand(0), MaybeAlign(1), len);
      end = B.CreateGEP(B.getInt8Ty(), C->getArgOperand(2), len);
    }
    else if (copyN.match(n, &m))
    {
      char a = (m[2] + m[4]).str()[0], b = m[6].empty() ? a : m[6][0], t = (m[3] + m[5]).str()[0];
      if (a != b || !letterSize(a))
        continue;
      Value* len = B.CreateMul(count(C->getArgOperand(1), t), B.getInt64(letterSize(a)));
      B.CreateMemMove(C->getArgOperand(2), MaybeAlign(1), C->getArgOperand(0), MaybeAlign(1), len);
      end = B.CreateGEP(B.getInt8Ty(), C->getArgOperand(2), len);
    }
    else if (fill.match(n, &m))
    {
      Value* v = byte(C->getArgOperand(2), m[2][0]);
      if (!v)
        continue;
      B.CreateMemSet(C->getArgOperand(0), v, bytes(C->getArgOperand(0), C->getArgOperand(1)), MaybeAlign(1));
    }
    else if (fillN.match(n, &m))
    {
      Value* v = byte(C->getArgOperand(2), m[3][0]);
      if (!v)
        continue;
      Value* len = count(C->getArgOperand(1), m[2][0]);
      B.CreateMemSet(C->getArgOperand(0), v, len, MaybeAlign(1));
      end = B.CreateGEP(B.getInt8Ty(), C->getArgOperand(0), len);
    }
    else
      continue;
    if (!C->use_empty())
    {
      if (!end)
        continue;
      C->replaceAllUsesWith(end);
    }
    C->eraseFromParent();
  }
}

static bool stdInlinable(const std::string& q, unsigned size)
{
  // q: demangled qualified function name without parameters
  static Regex iters(
    "(_List_(const_)?iterator|reverse_iterator|__normal_iterator|_Rb_tree_(const_)?iterator|"
    "_Node_(const_)?iterator|_Node_iterator_base)<.*>::[^:]*$");
  static Regex gnuop("(^| )__gnu_cxx::operator(==|!=|-)<");
  static Regex vec("^std::vector<.*>::(begin|end|rbegin|rend|crbegin|crend|cbegin|cend|operator\\[\\]|size|"
                   "front|back|data|empty)$");
  static Regex lst(
    "^std::(__cxx11::)?(list|_List_base)<.*>::(begin|end|rbegin|rend|crbegin|crend|cbegin|cend|empty)$");
  static Regex misc("^std::(move|forward|__addressof|addressof|get|as_const|"
                    "make_pair|pair<.*>::pair|array<.*>::(operator\\[\\]|data|size|begin|end|front|back|empty)|"
                    "__array_traits<.*>::[^:]*|initializer_list<.*>::(begin|end|size|initializer_list))(<.*>)?$");
  static Regex step("(^| )std::(begin|end|cbegin|cend|data|size|prev|next|advance|__advance|__iterator_category)<");
  static Regex minmax("^[a-z ]*(const& |const |& )?std::(min|max)<");
  static Regex dbit("^std::__detail::|^std::_List_node|^__gnu_cxx::__aligned_(membuf|buffer)|"
                    "^std::__(ptr_traits|pointer_traits)|std::pointer_traits<|^std::_Destroy_noop|^std::_Rb_tree_node|"
                    "^std::unique_ptr<.*>::(get|operator->|operator\\*)$|^std::__uniq_ptr");
  if (size > 60)
    return false;
  static Regex plainop("^std::operator(==|!=)$");
  if (plainop.match(q) || gnuop.match(q))
    return size <= 40;
  if (vec.match(q) || lst.match(q) || misc.match(q) || minmax.match(q) ||
      iters.match(q) || dbit.match(q) || step.match(q))
    return true;
  if (q.find("__normal_iterator") != std::string::npos ||
      q.find("_List_iterator") != std::string::npos ||
      q.find("_List_const_iterator") != std::string::npos ||
      q.find("_Rb_tree_iterator") != std::string::npos ||
      q.find("_Rb_tree_const_iterator") != std::string::npos)
    return size <= 40 && q.find("operator") != std::string::npos;
  return false;
}

static cl::opt<int> dummy("irdump-dummy", cl::Hidden);

int main(int argc, char** argv)
{
  std::string in, out;
  std::vector<std::string> link;
  std::string extraInline, noInline;
  std::string emitLL;
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    auto nxt = [&]() { return std::string(argv[++i]); };
    if (a == "--in")
      in = nxt();
    else if (a == "--out")
      out = nxt();
    else if (a == "--root")
      Root = nxt();
    else if (a == "--keep-eh")
      KeepEH = true;
    else if (a == "--split-selects")
      SplitSelects = true;
    else if (a == "--extra-inline")
      extraInline = nxt();
    else if (a == "--emit-ll")
      emitLL = nxt();
    else if (a == "--link")
      link.push_back(nxt());
    else if (a == "--known")
    {
      HaveKnown = true;
      auto buf = MemoryBuffer::getFile(nxt());
      if (!buf)
        return 3;
      SmallVector<StringRef> lines;
      (*buf)->getBuffer().split(lines, '\n');
      for (auto l : lines)
        if (!l.trim().empty())
          Known.insert(l.trim().str());
    }
  }
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(in, Err, Ctx);
  if (!M)
  {
    Err.print("irdump", errs());
    return 3;
  }
  for (auto& l : link)
  {
    auto L = parseIRFile(l, Err, Ctx);
    if (!L)
      return 3;
    if (Linker::linkModules(*M, std::move(L), Linker::Flags::LinkOnlyNeeded))
      return 3;
  }

  DebugInfoFinder DIF;
  DIF.processModule(*M);
  for (auto* T : DIF.types())
    if (auto* C = dyn_cast<DICompositeType>(T))
      if (!C->isForwardDecl() && (C->getTag() == dwarf::DW_TAG_class_type ||
                                  C->getTag() == dwarf::DW_TAG_structure_type ||
                                  C->getTag() == dwarf::DW_TAG_union_type))
      {
        std::string n = scopedName(C);
        if (!n.empty())
          Records.emplace(n, C);
      }
  // typedef'ed anonymous structs: struct.foo named via typedef
  for (auto* T : DIF.types())
    if (auto* D = dyn_cast<DIDerivedType>(T))
      if (D->getTag() == dwarf::DW_TAG_typedef)
        if (auto* C = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
          if (C->getName().empty())
            Records.emplace(scopedName(D), C);

  resolveVirtual(*M);

  Regex extra(extraInline.empty() ? "^$" : extraInline);
  json::Array newFns;
  for (auto& F : *M)
  {
    if (F.isDeclaration())
      continue;
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::AlwaysInline);
    if (!KeepEH)
      dropEH(F);
    lowerAlgorithms(F);
    {
      // lifetime markers carry no behaviour
      std::vector<Instruction*> lt;
      for (auto& I : instructions(F))
        if (auto* II = dyn_cast<IntrinsicInst>(&I))
          if (II->isLifetimeStartOrEnd() ||
              II->getIntrinsicID() == Intrinsic::assume)
            lt.push_back(II);
      for (auto* I : lt)
        I->eraseFromParent();
    }
    std::string q = qualName(F.getName());
    bool proj = isProject(F);
    bool inl = false;
    if (proj)
    {
      if (HaveKnown && !Known.count(q) && F.getName() != "main" &&
          !StringRef(F.getName()).starts_with("_GLOBAL__") &&
          !StringRef(F.getName()).starts_with("__cxx_global"))
      {
        newFns.push_back(q);
        inl = true;
      }
      if (extra.match(q))
        inl = true;
    }
    else
    {
      unsigned size = 0;
      for (auto& I : instructions(F))
        (void)I, size++;
      inl = stdInlinable(q, size);
    }
    if (inl)
    {
      F.removeFnAttr(Attribute::NoInline);
      F.addFnAttr(Attribute::AlwaysInline);
      // keep the body: its address may have been taken
      if (proj && F.hasLocalLinkage())
        F.setLinkage(GlobalValue::ExternalLinkage);
    }
    else
      F.addFnAttr(Attribute::NoInline);
  }

  {
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    MPM.addPass(AlwaysInlinerPass(false));
    MPM.run(*M, MAM);

    SimplifyCFGOptions SO;
    SO.BonusInstThreshold = 0;
    SO.speculateBlocks(false);
    SO.hoistCommonInsts(false).sinkCommonInsts(false);
    SO.convertSwitchRangeToICmp(false).convertSwitchToLookupTable(false);
    SO.needCanonicalLoops(true);
    FunctionPassManager FPM;
    FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
    FPM.addPass(EarlyCSEPass(true));
    FPM.addPass(SimplifyCFGPass(SO));
    FPM.addPass(InstSimplifyPass());
    FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
    FPM.addPass(JumpThreadingPass());
    FPM.addPass(EarlyCSEPass(true));
    FPM.addPass(SimplifyCFGPass(SO));
    FPM.addPass(InstSimplifyPass());
    FPM.addPass(ADCEPass());
    FPM.addPass(SimplifyCFGPass(SO));
    for (auto& F : *M)
    {
      if (F.isDeclaration() || !isProject(F))
      {
        // global initialisers without a subprogram are kept as they are
        if (F.isDeclaration() ||
            !(StringRef(F.getName()).starts_with("_GLOBAL__") ||
              StringRef(F.getName()).starts_with("__cxx_global_var_init")))
          continue;
      }
      FPM.run(F, FAM);
    }
  }
  // a choice between two values becomes a choice between two paths
  // (an object or no object always does)
  auto orNone = [](SelectInst* S) {
    return S->getType()->isPointerTy() &&
           (isa<ConstantPointerNull>(S->getTrueValue()) ||
            isa<ConstantPointerNull>(S->getFalseValue()));
  };
    for (auto& F : *M)
    {
      if (F.isDeclaration() || !isProject(F))
        continue;
      std::vector<SelectInst*> all;
      for (auto& B : F)
        for (auto& I : B)
          if (auto* S = dyn_cast<SelectInst>(&I))
            if (S->getCondition()->getType()->isIntegerTy(1) &&
                (SplitSelects || orNone(S)))
              all.push_back(S);
      for (auto* S : all)
      {
        Instruction *T = nullptr, *E = nullptr;
        SplitBlockAndInsertIfThenElse(S->getCondition(), S, &T, &E);
        auto* N = PHINode::Create(S->getType(), 2, S->getName(), S);
        N->setDebugLoc(S->getDebugLoc());
        T->setDebugLoc(S->getDebugLoc());
        E->setDebugLoc(S->getDebugLoc());
        N->addIncoming(S->getTrueValue(), T->getParent());
        N->addIncoming(S->getFalseValue(), E->getParent());
        S->replaceAllUsesWith(N);
        S->eraseFromParent();
      }
    }
  if (!emitLL.empty())
  {
    std::error_code ec;
    raw_fd_ostream o(emitLL, ec);
    M->print(o, nullptr);
  }

  json::Object top;
  json::Array fns;
  for (auto& F : *M)
  {
    if (F.isDeclaration() || !isProject(F) || F.hasAvailableExternallyLinkage())
      continue;
    FnDumper D(M->getDataLayout());
    auto o = D.dump(F);
    if (F.hasFnAttribute(Attribute::AlwaysInline))
      o["inlined"] = true;
    fns.push_back(std::move(o));
  }
  top["functions"] = std::move(fns);
  json::Object gl;
  for (auto& G : M->globals())
  {
    if (!G.hasInitializer())
      continue;
    bool proj = false;
    json::Object g;
    SmallVector<DIGlobalVariableExpression*, 2> E;
    G.getDebugInfo(E);
    for (auto* e : E)
    {
      proj |= projectFile(diFile(e->getVariable()->getFile()));
      g["dn"] = e->getVariable()->getName().str();
      g["dt"] = typeName(e->getVariable()->getType());
    }
    if (G.getName().starts_with("_ZTV") || G.getName().starts_with("__const.") ||
        G.getName().starts_with("switch.table"))
      proj = true;
    if (!proj)
      continue;
    FnDumper D(M->getDataLayout());
    g["init"] = D.constant(G.getInitializer());
    g["const"] = G.isConstant();
    if (G.isConstant() && !G.getName().starts_with("_ZTV"))
    {
      json::Array parts;
      D.flat(G.getInitializer(), 0, parts);
      g["bytes"] = (int64_t)M->getDataLayout()
                       .getTypeAllocSize(G.getValueType())
                       .getFixedValue();
      if (parts.size() <= 4096)
        g["flat"] = std::move(parts);
    }
    g["t"] = FnDumper::tyStr(G.getValueType());
    gl[G.getName()] = std::move(g);
  }
  top["globals"] = std::move(gl);
  json::Object recs;
  for (auto& r : Records)
  {
    bool isP = projectFile(diFile(r.second->getFile())) ||
               StringRef(r.first).starts_with("_cl_") ||
               StringRef(r.first).starts_with("cl_");
    if (!isP)
      continue;
    json::Array fs;
    for (auto* E : r.second->getElements())
      if (auto* D = dyn_cast<DIDerivedType>(E))
      {
        if (D->isStaticMember())
          continue;
        fs.push_back(json::Object{
          {"n", D->getName().str()},
          {"t", typeName(D->getBaseType())},
          {"o", (int64_t)(D->getOffsetInBits() / 8)},
          {"s", (int64_t)((strip(D->getBaseType())
                             ? strip(D->getBaseType())->getSizeInBits()
                             : 0) / 8)},
          {"base", D->getTag() == dwarf::DW_TAG_inheritance}});
      }
    json::Array ms;
    for (auto* E : r.second->getElements())
      if (auto* S = dyn_cast<DISubprogram>(E))
        ms.push_back(json::Object{{"n", S->getName().str()},
                                  {"link", S->getLinkageName().str()},
                                  {"virt", (int64_t)S->getVirtuality()}});
    recs[r.first] = json::Object{{"fields", std::move(fs)},
                                 {"methods", std::move(ms)},
                                 {"size", (int64_t)(r.second->getSizeInBits() / 8)}};
  }
  top["records"] = std::move(recs);
  json::Object ens;
  for (auto* T : DIF.types())
    if (auto* C = dyn_cast<DICompositeType>(T))
      if (C->getTag() == dwarf::DW_TAG_enumeration_type &&
          projectFile(diFile(C->getFile())))
      {
        json::Object vals;
        for (auto* E : C->getElements())
          if (auto* En = dyn_cast<DIEnumerator>(E))
            vals[En->getName()] = En->getValue().getSExtValue();
        ens[scopedName(C).empty() ? "anon" : scopedName(C)] = std::move(vals);
      }
  top["enums"] = std::move(ens);
  top["new"] = std::move(newFns);
  std::error_code ec;
  raw_fd_ostream os(out, ec);
  if (ec)
    return 3;
  os << json::Value(std::move(top));
  return 0;
}
