// Loading of bitcode, symbol resolution, constants, decoding of functions into the engine's instruction form.
#include "engine.hpp"
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/Analysis/PostDominators.h>
#include <dlfcn.h>
#include <functional>
#include <cmath>

using namespace llvm;

static const u64 CODE_BASE = 0x500000000000ull;

void Engine::load(const std::vector<std::string> & files)
{
  for (auto & f : files)
  {
    auto buf = MemoryBuffer::getFile(f);
    if (!buf) { fprintf(stderr, "symx: cannot read %s\n", f.c_str()); exit(2); }
    auto m = getOwningLazyBitcodeModule(std::move(*buf), ctx);
    if (!m)
    {
      fprintf(stderr, "symx: cannot parse %s: %s\n", f.c_str(), toString(m.takeError()).c_str());
      exit(2);
    }
    mods.push_back(std::move(*m));
  }
  auto rank = [](GlobalValue * g)
  {
    if (g->isWeakForLinker()) return 1;
    return 2;
  };
  auto add = [&](GlobalValue & g)
  {
    if (g.hasLocalLinkage() || g.isDeclaration() || g.hasAvailableExternallyLinkage() || g.hasAppendingLinkage()) return;
    auto & d = defs[g.getName().str()];
    if (!d || rank(&g) > rank(d)) d = &g;
  };
  for (auto & m : mods)
  {
    for (auto & f : *m) add(f);
    for (auto & g : m->globals()) add(g);
    for (auto & a : m->aliases()) add(a);
  }
}

GlobalValue * Engine::resolve(GlobalValue * g)
{
  for (;;)
  {
    if (!g->hasLocalLinkage() && g->hasName())
    {
      auto it = defs.find(g->getName().str());
      if (it != defs.end()) g = it->second;
    }
    if (auto a = dyn_cast<GlobalAlias>(g))
    {
      auto t = dyn_cast<GlobalValue>(a->getAliasee()->stripPointerCasts());
      if (!t) return g;
      if (t == g) return g;
      g = t;
      continue;
    }
    return g;
  }
}

FnInfo * Engine::fnFor(Function * F)
{
  auto & r = fninfo[F];
  if (!r)
  {
    r = new FnInfo;
    r->F = F;
    r->name = F->getName().str();
    r->id = fns.size();
    fns.push_back(r);
    if (r->id >= sizeof(sh->entered)) { fprintf(stderr, "too many functions\n"); exit(2); }
  }
  return r;
}

FnInfo * fnAt(u64 addr)
{
  if (addr < CODE_BASE || addr >= CODE_BASE + 16ull * E->fns.size()) return nullptr;
  if ((addr - CODE_BASE) % 16) return nullptr;
  return E->fns[(addr - CODE_BASE) / 16];
}
u64 codeAddr(FnInfo * f) { return CODE_BASE + 16ull * f->id; }

static bool isDef(GlobalValue * g) { return !g->isDeclaration() && !g->hasAvailableExternallyLinkage(); }

u64 Engine::addrOf(GlobalValue * g0)
{
  auto it0 = gaddr.find(g0);
  if (it0 != gaddr.end()) return it0->second;
  GlobalValue * g = resolve(g0);
  auto it = gaddr.find(g);
  if (it != gaddr.end()) { gaddr[g0] = it->second; return it->second; }
  u64 r = 0;
  if (auto F = dyn_cast<Function>(g))
  {
    if (isDef(F)) r = codeAddr(fnFor(F));
    else
    {
      r = (u64)dlsym(RTLD_DEFAULT, F->getName().str().c_str());
      if (!r && !F->hasExternalWeakLinkage()) r = codeAddr(fnFor(F)); // call will be reported
    }
  }
  else if (auto G = dyn_cast<GlobalVariable>(g))
  {
    if (isDef(G))
    {
      auto & dl = G->getParent()->getDataLayout();
      u64 n = dl.getTypeAllocSize(G->getValueType());
      u64 al = std::max<u64>(16, G->getAlign().valueOrOne().value());
      r = heapAlloc(n ? n : 1, al);
      gaddr[g] = r;
      gaddr[g0] = r;
      if (G->hasInitializer()) initGlobal(r, G->getInitializer(), dl);
      return r;
    }
    r = (u64)dlsym(RTLD_DEFAULT, G->getName().str().c_str());
    if (!r && !G->hasExternalWeakLinkage())
    {
      // unresolved data symbol: usable only if never touched
      r = 0x10;
    }
  }
  gaddr[g] = r;
  gaddr[g0] = r;
  return r;
}

void Engine::initGlobal(u64 addr, const Constant * c, const DataLayout & dl)
{
  Type * t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c))
  {
    memset((void *)addr, 0, dl.getTypeAllocSize(t));
    return;
  }
  if (auto s = dyn_cast<ConstantDataSequential>(c))
  {
    StringRef raw = s->getRawDataValues();
    memcpy((void *)addr, raw.data(), raw.size());
    return;
  }
  if (auto a = dyn_cast<ConstantArray>(c))
  {
    u64 es = dl.getTypeAllocSize(a->getType()->getElementType());
    for (unsigned i = 0; i < a->getNumOperands(); i++) initGlobal(addr + i * es, a->getOperand(i), dl);
    return;
  }
  if (auto s = dyn_cast<ConstantStruct>(c))
  {
    auto sl = dl.getStructLayout(s->getType());
    for (unsigned i = 0; i < s->getNumOperands(); i++)
      initGlobal(addr + sl->getElementOffset(i), s->getOperand(i), dl);
    return;
  }
  if (auto v = dyn_cast<ConstantVector>(c))
  {
    u64 es = dl.getTypeAllocSize(v->getType()->getElementType());
    for (unsigned i = 0; i < v->getNumOperands(); i++) initGlobal(addr + i * es, v->getOperand(i), dl);
    return;
  }
  if (auto ci = dyn_cast<ConstantInt>(c))
  {
    if (ci->getBitWidth() > 64)
    {
      auto & v = ci->getValue();
      for (unsigned i = 0; i < v.getNumWords(); i++) ((u64 *)addr)[i] = v.getRawData()[i];
      return;
    }
    u64 v = ci->getZExtValue();
    memcpy((void *)addr, &v, (ci->getBitWidth() + 7) / 8);
    return;
  }
  if (t->isX86_FP80Ty()) { memset((void *)addr, 0, 16); return; }
  std::vector<Val> o;
  evalConst(c, o);
  u64 n = dl.getTypeStoreSize(t);
  memcpy((void *)addr, &o[0].c, n > 8 ? 8 : n);
}

static void leafTypes(Type * t, std::vector<Type *> & out)
{
  if (auto s = dyn_cast<StructType>(t))
  {
    for (auto e : s->elements()) leafTypes(e, out);
  }
  else if (auto a = dyn_cast<ArrayType>(t))
  {
    for (u64 i = 0; i < a->getNumElements(); i++) leafTypes(a->getElementType(), out);
  }
  else if (auto v = dyn_cast<FixedVectorType>(t))
  {
    for (u64 i = 0; i < v->getNumElements(); i++) leafTypes(v->getElementType(), out);
  }
  else if (t->isVoidTy()) {}
  else out.push_back(t);
}
static u32 nleaves(Type * t)
{
  if (t->isSingleValueType() && !t->isVectorTy()) return 1;
  std::vector<Type *> o;
  leafTypes(t, o);
  return o.size();
}
static void leafOffsets(Type * t, const DataLayout & dl, u64 off, std::vector<std::pair<Type *, u64>> & out)
{
  if (auto s = dyn_cast<StructType>(t))
  {
    auto sl = dl.getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++)
      leafOffsets(s->getElementType(i), dl, off + sl->getElementOffset(i), out);
  }
  else if (auto a = dyn_cast<ArrayType>(t))
  {
    u64 es = dl.getTypeAllocSize(a->getElementType());
    for (u64 i = 0; i < a->getNumElements(); i++) leafOffsets(a->getElementType(), dl, off + i * es, out);
  }
  else if (auto v = dyn_cast<FixedVectorType>(t))
  {
    u64 es = dl.getTypeStoreSize(v->getElementType());
    for (u64 i = 0; i < v->getNumElements(); i++) leafOffsets(v->getElementType(), dl, off + i * es, out);
  }
  else out.push_back({ t, off });
}
static unsigned widthOf(Type * t)
{
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  return 64;
}
static bool okType(Type * t)
{
  std::vector<Type *> l;
  leafTypes(t, l);
  for (auto x : l)
  {
    if (x->isIntegerTy()) { if (x->getIntegerBitWidth() > 128) return false; }
    else if (!(x->isPointerTy() || x->isFloatTy() || x->isDoubleTy())) return false;
  }
  return true;
}

void Engine::evalConst(const Constant * c, std::vector<Val> & out)
{
  if (auto ci = dyn_cast<ConstantInt>(c))
  {
    if (ci->getBitWidth() <= 64) out.push_back({ ci->getZExtValue(), nullptr });
    else
    {
      u128 v = ci->getValue().getRawData()[0];
      if (ci->getValue().getNumWords() > 1) v |= (u128)ci->getValue().getRawData()[1] << 64;
      out.push_back({ 0, mkC(v, std::min(128u, ci->getBitWidth())) });
    }
    return;
  }
  if (isa<ConstantPointerNull>(c)) { out.push_back({ 0, nullptr }); return; }
  if (auto f = dyn_cast<ConstantFP>(c))
  {
    if (c->getType()->isX86_FP80Ty()) { out.push_back({ 0, nullptr }); return; }
    out.push_back({ f->getValueAPF().bitcastToAPInt().getZExtValue(), nullptr });
    return;
  }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c))
  {
    std::vector<Type *> l;
    leafTypes(c->getType(), l);
    for (auto t : l)
      if (widthOf(t) > 64 && t->isIntegerTy()) out.push_back({ 0, mkC(0, widthOf(t)) });
      else out.push_back({ 0, nullptr });
    return;
  }
  if (auto g = dyn_cast<GlobalValue>(c)) { out.push_back({ addrOf(const_cast<GlobalValue *>(g)), nullptr }); return; }
  if (auto s = dyn_cast<ConstantDataSequential>(c))
  {
    for (unsigned i = 0; i < s->getNumElements(); i++) evalConst(s->getElementAsConstant(i), out);
    return;
  }
  if (isa<ConstantAggregate>(c))
  {
    for (auto & op : c->operands()) evalConst(cast<Constant>(op), out);
    return;
  }
  if (auto ce = dyn_cast<ConstantExpr>(c))
  {
    auto dlm = mods[0]->getDataLayout();
    if (ce->getType()->isVectorTy())
    {
      u32 n = nleaves(ce->getType());
      for (u32 i = 0; i < n; i++) out.push_back({ 0, nullptr });
      return;
    }
    switch (ce->getOpcode())
    {
    case Instruction::GetElementPtr:
    {
      auto g = cast<GEPOperator>(ce);
      u64 base = evalConst64(cast<Constant>(g->getPointerOperand()));
      APInt off(64, 0);
      if (!g->accumulateConstantOffset(dlm, off)) break;
      out.push_back({ base + off.getZExtValue(), nullptr });
      return;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
    case Instruction::Trunc:
    {
      u64 v = evalConst64(ce->getOperand(0));
      out.push_back({ v & mask64(widthOf(ce->getType())), nullptr });
      return;
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Mul: case Instruction::Shl: 
    {
      u64 a = evalConst64(ce->getOperand(0)), b = evalConst64(ce->getOperand(1));
      u64 r = 0;
      switch (ce->getOpcode())
      {
      case Instruction::Add: r = a + b; break;
      case Instruction::Sub: r = a - b; break;
      case Instruction::And: r = a & b; break;
      case Instruction::Or: r = a | b; break;
      case Instruction::Xor: r = a ^ b; break;
      case Instruction::Mul: r = a * b; break;
      default: r = a << b; break;
      }
      out.push_back({ r & mask64(widthOf(ce->getType())), nullptr });
      return;
    }
    case Instruction::ICmp:
    {
      u64 a = evalConst64(ce->getOperand(0)), b = evalConst64(ce->getOperand(1));
      u64 r = 0;
      switch (ce->getPredicate())
      {
      case CmpInst::ICMP_EQ: r = a == b; break;
      case CmpInst::ICMP_NE: r = a != b; break;
      case CmpInst::ICMP_ULT: r = a < b; break;
      case CmpInst::ICMP_UGT: r = a > b; break;
      default: break;
      }
      out.push_back({ r, nullptr });
      return;
    }
    default: break;
    }
  }
  // anything else: 0 (never expected; flagged in debug)
  if (trace) fprintf(stderr, "symx: constant kind not handled\n");
  u32 n = nleaves(c->getType());
  for (u32 i = 0; i < n; i++) out.push_back({ 0, nullptr });
}

u64 Engine::evalConst64(const Constant * c)
{
  std::vector<Val> o;
  evalConst(c, o);
  return o.empty() ? 0 : (o[0].e ? (u64)o[0].e->val : o[0].c);
}

extern Builtin findBuiltin(const std::string & name);

struct Decoder
{
  Engine & en;
  FnInfo & fi;
  Function & F;
  const DataLayout & dl;
  DenseMap<const Value *, i32> slot;
  DenseMap<const Constant *, i32> cidx;
  DenseMap<const BasicBlock *, u32> bidx;
  std::vector<Inst> * code;

  Decoder(Engine & e, FnInfo & f) : en(e), fi(f), F(*f.F), dl(F.getParent()->getDataLayout()) {}

  i32 constRef(Val v)
  {
    fi.consts.push_back(v);
    return ~(i32)(fi.consts.size() - 1);
  }
  // first ref of value; leaf i is at ref + i (slots) or ref - i (consts)
  i32 ref(const Value * v, u32 leaf = 0)
  {
    if (auto c = dyn_cast<Constant>(v))
    {
      auto it = cidx.find(c);
      i32 base;
      if (it == cidx.end())
      {
        std::vector<Val> o;
        en.evalConst(c, o);
        base = (i32)fi.consts.size();
        for (auto x : o) fi.consts.push_back(x);
        cidx[c] = base;
      }
      else base = it->second;
      return ~(base + (i32)leaf);
    }
    auto it = slot.find(v);
    if (it == slot.end())
    {
      if (isa<MetadataAsValue>(v)) return constRef({ 0, nullptr });
      fprintf(stderr, "symx: no slot in %s\n", fi.name.c_str());
      abort();
    }
    return it->second + (i32)leaf;
  }
  i32 newSlots(u32 n)
  {
    i32 r = fi.nslots;
    fi.nslots += n;
    return r;
  }
  Inst & emit(u16 op, unsigned w, i32 d, i32 a = 0, i32 b = 0, i32 c = 0, u32 x = 0, u64 imm = 0, unsigned w2 = 0)
  {
    fi.code.push_back(Inst{ op, (u8)w, (u8)w2, d, a, b, c, x, imm });
    return fi.code.back();
  }
  void unsup(const std::string & s)
  {
    fi.strs.push_back(s);
    emit(O_UNSUPPORTED, 0, 0, 0, 0, 0, fi.strs.size() - 1);
  }
  u32 edge(const BasicBlock * from, const BasicBlock * to)
  {
    Edge e;
    e.fromBlock = bidx[from];
    e.toBlock = bidx[to];
    e.mv = fi.moves.size();
    e.nmv = 0;
    for (auto & phi : to->phis())
    {
      auto v = phi.getIncomingValueForBlock(from);
      std::vector<Type *> l;
      leafTypes(phi.getType(), l);
      for (u32 i = 0; i < l.size(); i++)
      {
        fi.moves.push_back(Move{ ref(&phi, i), ref(v, i), widthOf(l[i]) });
        e.nmv++;
      }
    }
    fi.edges.push_back(e);
    return fi.edges.size() - 1;
  }
  void run();
  void inst(Instruction & I);
  void call(CallBase & I);
  bool intrinsic(CallBase & I, Function * callee, i32 d);
  void gep(GetElementPtrInst & G, i32 d);
};

static u64 aggIndex(Type * t, ArrayRef<unsigned> idx)
{
  u64 off = 0;
  for (unsigned i : idx)
  {
    if (auto s = dyn_cast<StructType>(t))
    {
      for (unsigned k = 0; k < i; k++) off += nleaves(s->getElementType(k));
      t = s->getElementType(i);
    }
    else
    {
      auto a = cast<ArrayType>(t);
      off += (u64)i * nleaves(a->getElementType());
      t = a->getElementType();
    }
  }
  return off;
}

void Decoder::run()
{
  for (auto & a : F.args())
  {
    slot[&a] = newSlots(nleaves(a.getType()));
    fi.nargs += nleaves(a.getType());
  }
  u32 n = 0;
  for (auto & bb : F)
  {
    bidx[&bb] = n++;
    fi.bbs.push_back(&bb);
    for (auto & I : bb)
      if (!I.getType()->isVoidTy())
      {
        // scalar loads etc. get their slots
        slot[&I] = newSlots(nleaves(I.getType()));
      }
  }
  fi.blocks.resize(n);
  for (auto & bb : F)
  {
    u32 b = bidx[&bb];
    fi.blocks[b].start = fi.code.size();
    for (auto & I : bb)
    {
      if (isa<PHINode>(I)) continue;
      inst(I);
    }
    fi.blocks[b].end = fi.code.size();
    while (fi.pcBlock.size() < fi.code.size()) fi.pcBlock.push_back(b);
  }
}

void Decoder::gep(GetElementPtrInst & G, i32 d)
{
  u64 off = 0;
  std::vector<GepIdx> idx;
  for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti)
  {
    Value * op = gti.getOperand();
    if (auto st = gti.getStructTypeOrNull())
    {
      off += dl.getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue());
      continue;
    }
    u64 sz = dl.getTypeAllocSize(gti.getIndexedType());
    if (auto ci = dyn_cast<ConstantInt>(op))
    {
      off += (u64)ci->getSExtValue() * sz;
      continue;
    }
    idx.push_back(GepIdx{ ref(op), (u8)widthOf(op->getType()), sz });
  }
  i32 base = ref(G.getPointerOperand());
  fi.geps.push_back(idx);
  emit(O_GEP, 64, d, base, (i32)idx.size(), 0, fi.geps.size() - 1, off);
}

static K binK(unsigned opc)
{
  switch (opc)
  {
  case Instruction::Add: return K::Add;
  case Instruction::Sub: return K::Sub;
  case Instruction::Mul: return K::Mul;
  case Instruction::UDiv: return K::UDiv;
  case Instruction::SDiv: return K::SDiv;
  case Instruction::URem: return K::URem;
  case Instruction::SRem: return K::SRem;
  case Instruction::Shl: return K::Shl;
  case Instruction::LShr: return K::LShr;
  case Instruction::AShr: return K::AShr;
  case Instruction::And: return K::And;
  case Instruction::Or: return K::Or;
  case Instruction::Xor: return K::Xor;
  default: abort();
  }
}

static bool isFP(Type * t) { return t->isFloatTy() || t->isDoubleTy(); }

void Decoder::inst(Instruction & I)
{
  i32 d = I.getType()->isVoidTy() ? -1 : ref(&I);
  if (!okType(I.getType()) && !I.getType()->isTokenTy()) { unsup("type in " + fi.name); return; }
  for (auto & op : I.operands())
    if (!isa<BasicBlock>(op) && !isa<MetadataAsValue>(op) && !isa<Function>(op) && !isa<InlineAsm>(op)
        && !op->getType()->isLabelTy() && !okType(op->getType()))
    {
      unsup("operand type in " + fi.name);
      return;
    }
  switch (I.getOpcode())
  {
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
  case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
  case Instruction::And: case Instruction::Or: case Instruction::Xor:
  {
    u32 n = nleaves(I.getType());
    unsigned w = widthOf(I.getType()->getScalarType());
    for (u32 i = 0; i < n; i++)
    {
      K k = binK(I.getOpcode());
      u16 op = O_BIN;
      if (w <= 64)
      {
        if (k == K::Add) op = O_ADD;
        else if (k == K::Sub) op = O_SUB;
        else if (k == K::And) op = O_AND;
        else if (k == K::Or) op = O_OR;
        else if (k == K::Xor) op = O_XOR;
      }
      emit(op, w, d + i, ref(I.getOperand(0), i), ref(I.getOperand(1), i), (i32)k, 0, mask64(w));
    }
    return;
  }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
  {
    u32 n = nleaves(I.getType());
    unsigned w = widthOf(I.getType()->getScalarType());
    for (u32 i = 0; i < n; i++)
      emit(O_FBIN, w, d + i, ref(I.getOperand(0), i), ref(I.getOperand(1), i), I.getOpcode());
    return;
  }
  case Instruction::FNeg:
    for (u32 i = 0, n = nleaves(I.getType()); i < n; i++)
      emit(O_FNEG, widthOf(I.getType()->getScalarType()), d + i, ref(I.getOperand(0), i));
    return;
  case Instruction::ICmp:
  {
    auto & C = cast<ICmpInst>(I);
    u32 n = nleaves(I.getType());
    unsigned w = widthOf(C.getOperand(0)->getType()->getScalarType());
    for (u32 i = 0; i < n; i++)
    {
      u16 op = O_ICMP;
      if (w <= 64)
      {
        if (C.getPredicate() == CmpInst::ICMP_EQ) op = O_EQ;
        else if (C.getPredicate() == CmpInst::ICMP_NE) op = O_NE;
        else if (C.getPredicate() == CmpInst::ICMP_ULT) op = O_ULT;
        else if (C.getPredicate() == CmpInst::ICMP_SLT) op = O_SLT;
      }
      emit(op, w, d + i, ref(C.getOperand(0), i), ref(C.getOperand(1), i), C.getPredicate());
    }
    return;
  }
  case Instruction::FCmp:
  {
    auto & C = cast<FCmpInst>(I);
    for (u32 i = 0, n = nleaves(I.getType()); i < n; i++)
      emit(O_FCMP, widthOf(C.getOperand(0)->getType()->getScalarType()), d + i, ref(C.getOperand(0), i), ref(C.getOperand(1), i), C.getPredicate());
    return;
  }
  case Instruction::Select:
  {
    std::vector<Type *> l;
    leafTypes(I.getType(), l);
    bool vc = I.getOperand(0)->getType()->isVectorTy();
    for (u32 i = 0; i < l.size(); i++)
      emit(O_SELECT, widthOf(l[i]), d + i, ref(I.getOperand(0), vc ? i : 0), ref(I.getOperand(1), i), ref(I.getOperand(2), i));
    return;
  }
  case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt:
  case Instruction::IntToPtr:
  {
    unsigned ws = widthOf(I.getOperand(0)->getType()->getScalarType()), wd = widthOf(I.getType()->getScalarType());
    u16 op;
    if (wd == ws) op = O_MOV;
    else if (wd < ws) op = O_TRUNCATE;
    else op = I.getOpcode() == Instruction::SExt ? O_SEXT : O_ZEXT;
    for (u32 i = 0, n = nleaves(I.getType()); i < n; i++) emit(op, wd, d + i, ref(I.getOperand(0), i), 0, 0, 0, 0, ws);
    return;
  }
  case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze:
  {
    std::vector<Type *> a, b;
    leafTypes(I.getOperand(0)->getType(), a);
    leafTypes(I.getType(), b);
    if (a.size() != b.size()) { unsup("vector bitcast in " + fi.name); return; }
    for (u32 i = 0; i < b.size(); i++) emit(O_MOV, widthOf(b[i]), d + i, ref(I.getOperand(0), i));
    return;
  }
  case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP:
  case Instruction::FPExt: case Instruction::FPTrunc:
  {
    u16 op = I.getOpcode() == Instruction::FPToUI ? O_FPTOUI
           : I.getOpcode() == Instruction::FPToSI ? O_FPTOSI
           : I.getOpcode() == Instruction::UIToFP ? O_UITOFP
           : I.getOpcode() == Instruction::SIToFP ? O_SITOFP
           : I.getOpcode() == Instruction::FPExt  ? O_FPEXT
                                                  : O_FPTRUNC;
    unsigned ws = widthOf(I.getOperand(0)->getType()->getScalarType()), wd = widthOf(I.getType()->getScalarType());
    for (u32 i = 0, n = nleaves(I.getType()); i < n; i++) emit(op, wd, d + i, ref(I.getOperand(0), i), 0, 0, 0, 0, ws);
    return;
  }
  case Instruction::Load:
  {
    auto & L = cast<LoadInst>(I);
    std::vector<std::pair<Type *, u64>> l;
    leafOffsets(I.getType(), dl, 0, l);
    i32 p = ref(L.getPointerOperand());
    for (u32 i = 0; i < l.size(); i++) emit(O_LOAD, widthOf(l[i].first), d + i, p, 0, 0, 0, l[i].second);
    return;
  }
  case Instruction::Store:
  {
    auto & S = cast<StoreInst>(I);
    std::vector<std::pair<Type *, u64>> l;
    leafOffsets(S.getValueOperand()->getType(), dl, 0, l);
    i32 p = ref(S.getPointerOperand());
    for (u32 i = 0; i < l.size(); i++)
      emit(O_STORE, widthOf(l[i].first), -1, p, ref(S.getValueOperand(), i), 0, 0, l[i].second);
    return;
  }
  case Instruction::GetElementPtr:
    if (I.getType()->isVectorTy()) { unsup("vector gep"); return; }
    gep(cast<GetElementPtrInst>(I), d);
    return;
  case Instruction::Alloca:
  {
    auto & A = cast<AllocaInst>(I);
    u64 sz = dl.getTypeAllocSize(A.getAllocatedType());
    emit(O_ALLOCA, 64, d, ref(A.getArraySize()), 0, 0, (u32)std::max<u64>(16, A.getAlign().value()), sz);
    return;
  }
  case Instruction::Br:
  {
    auto & B = cast<BranchInst>(I);
    if (B.isUnconditional())
    {
      u32 e = edge(I.getParent(), B.getSuccessor(0));
      emit(O_BR, 0, -1, 0, 0, 0, 0, e);
    }
    else
    {
      u32 e1 = edge(I.getParent(), B.getSuccessor(0)), e2 = edge(I.getParent(), B.getSuccessor(1));
      emit(O_CBR, 1, -1, ref(B.getCondition()), 0, 0, e1, e2);
    }
    return;
  }
  case Instruction::Switch:
  {
    auto & S = cast<SwitchInst>(I);
    SwitchInfo si;
    si.defEdge = edge(I.getParent(), S.getDefaultDest());
    DenseMap<BasicBlock *, u32> em;
    for (auto c : S.cases())
    {
      auto t = c.getCaseSuccessor();
      u32 e;
      auto it = em.find(t);
      if (it == em.end()) { e = edge(I.getParent(), t); em[t] = e; }
      else e = it->second;
      si.cases.push_back({ c.getCaseValue()->getZExtValue(), e });
    }
    fi.switches.push_back(si);
    emit(O_SWITCH, widthOf(S.getCondition()->getType()), -1, ref(S.getCondition()), 0, 0, fi.switches.size() - 1);
    return;
  }
  case Instruction::Ret:
  {
    auto & R = cast<ReturnInst>(I);
    std::vector<i32> l;
    if (R.getReturnValue())
      for (u32 i = 0, n = nleaves(R.getReturnValue()->getType()); i < n; i++) l.push_back(ref(R.getReturnValue(), i));
    fi.rets.push_back(l);
    emit(O_RET, 0, -1, 0, 0, 0, fi.rets.size() - 1);
    return;
  }
  case Instruction::Unreachable: emit(O_UNREACHABLE, 0, -1); return;
  case Instruction::ExtractValue:
  {
    auto & X = cast<ExtractValueInst>(I);
    u64 o = aggIndex(X.getAggregateOperand()->getType(), X.getIndices());
    std::vector<Type *> l;
    leafTypes(I.getType(), l);
    for (u32 i = 0; i < l.size(); i++) emit(O_MOV, widthOf(l[i]), d + i, ref(X.getAggregateOperand(), o + i));
    return;
  }
  case Instruction::InsertValue:
  {
    auto & X = cast<InsertValueInst>(I);
    u64 o = aggIndex(X.getAggregateOperand()->getType(), X.getIndices());
    u32 m = nleaves(X.getInsertedValueOperand()->getType());
    std::vector<Type *> l;
    leafTypes(I.getType(), l);
    for (u32 i = 0; i < l.size(); i++)
      emit(O_MOV, widthOf(l[i]), d + i, i >= o && i < o + m ? ref(X.getInsertedValueOperand(), i - o) : ref(X.getAggregateOperand(), i));
    return;
  }
  case Instruction::ExtractElement:
    if (auto ci = dyn_cast<ConstantInt>(I.getOperand(1)))
    {
      emit(O_MOV, widthOf(I.getType()), d, ref(I.getOperand(0), ci->getZExtValue()));
      return;
    }
    unsup("dynamic extractelement");
    return;
  case Instruction::InsertElement:
    if (auto ci = dyn_cast<ConstantInt>(I.getOperand(2)))
    {
      u32 n = nleaves(I.getType());
      unsigned w = widthOf(I.getType()->getScalarType());
      for (u32 i = 0; i < n; i++)
        emit(O_MOV, w, d + i, i == ci->getZExtValue() ? ref(I.getOperand(1)) : ref(I.getOperand(0), i));
      return;
    }
    unsup("dynamic insertelement");
    return;
  case Instruction::ShuffleVector:
  {
    auto & S = cast<ShuffleVectorInst>(I);
    u32 n1 = nleaves(I.getOperand(0)->getType());
    unsigned w = widthOf(I.getType()->getScalarType());
    auto mask = S.getShuffleMask();
    for (u32 i = 0; i < mask.size(); i++)
    {
      int m = mask[i];
      if (m < 0) emit(O_MOV, w, d + i, constRef({ 0, nullptr }));
      else emit(O_MOV, w, d + i, (u32)m < n1 ? ref(I.getOperand(0), m) : ref(I.getOperand(1), m - n1));
    }
    return;
  }
  case Instruction::LandingPad:
  {
    auto & L = cast<LandingPadInst>(I);
    LpadInfo lp;
    lp.cleanup = L.isCleanup();
    for (unsigned i = 0; i < L.getNumClauses(); i++)
    {
      if (L.isCatch(i)) lp.clauses.push_back({ 0, en.evalConst64(L.getClause(i)) });
      else lp.clauses.push_back({ 1, 0 });
    }
    fi.lpads.push_back(lp);
    emit(O_LPAD, 0, d, 0, 0, 0, fi.lpads.size() - 1);
    return;
  }
  case Instruction::Resume: emit(O_RESUME, 0, -1, ref(I.getOperand(0), 0)); return;
  case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I)); return;
  case Instruction::Fence: return;
  case Instruction::AtomicRMW:
  {
    auto & A = cast<AtomicRMWInst>(I);
    emit(O_RMW, widthOf(I.getType()), d, ref(A.getPointerOperand()), ref(A.getValOperand()), A.getOperation());
    return;
  }
  case Instruction::AtomicCmpXchg:
  {
    auto & A = cast<AtomicCmpXchgInst>(I);
    emit(O_CMPXCHG, widthOf(A.getCompareOperand()->getType()), d, ref(A.getPointerOperand()), ref(A.getCompareOperand()), ref(A.getNewValOperand()));
    return;
  }
  default: unsup(std::string("opcode ") + I.getOpcodeName() + " in " + fi.name); return;
  }
}

static double d_floor(double x) { return floor(x); }

bool Decoder::intrinsic(CallBase & I, Function * callee, i32 d)
{
  auto id = callee->getIntrinsicID();
  auto ty = I.getType();
  u32 n = ty->isVoidTy() ? 0 : nleaves(ty);
  unsigned w = n ? widthOf(ty->getScalarType()) : 0;
  auto map2 = [&](u16 op)
  {
    for (u32 i = 0; i < n; i++) emit(op, w, d + i, ref(I.getArgOperand(0), i), ref(I.getArgOperand(1), i));
    return true;
  };
  switch (id)
  {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
  case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing:
  case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::var_annotation:
  case Intrinsic::sideeffect: case Intrinsic::pseudoprobe:
    return true;
  case Intrinsic::invariant_start: case Intrinsic::stacksave:
    emit(O_MOV, 64, d, constRef({ 0, nullptr }));
    return true;
  case Intrinsic::umin: return map2(O_UMIN);
  case Intrinsic::umax: return map2(O_UMAX);
  case Intrinsic::smin: return map2(O_SMIN);
  case Intrinsic::smax: return map2(O_SMAX);
  case Intrinsic::abs: for (u32 i = 0; i < n; i++) emit(O_ABS, w, d + i, ref(I.getArgOperand(0), i)); return true;
  case Intrinsic::ctpop: for (u32 i = 0; i < n; i++) emit(O_CTPOP, w, d + i, ref(I.getArgOperand(0), i)); return true;
  case Intrinsic::ctlz: for (u32 i = 0; i < n; i++) emit(O_CTLZ, w, d + i, ref(I.getArgOperand(0), i)); return true;
  case Intrinsic::cttz: for (u32 i = 0; i < n; i++) emit(O_CTTZ, w, d + i, ref(I.getArgOperand(0), i)); return true;
  case Intrinsic::bswap: for (u32 i = 0; i < n; i++) emit(O_BSWAP, w, d + i, ref(I.getArgOperand(0), i)); return true;
  case Intrinsic::bitreverse: for (u32 i = 0; i < n; i++) emit(O_BITREV, w, d + i, ref(I.getArgOperand(0), i)); return true;
  case Intrinsic::fshl: case Intrinsic::fshr:
    for (u32 i = 0; i < n; i++)
      emit(id == Intrinsic::fshl ? O_FSHL : O_FSHR, w, d + i, ref(I.getArgOperand(0), i), ref(I.getArgOperand(1), i), ref(I.getArgOperand(2), i));
    return true;
  case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow:
  case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow:
  {
    int k = id == Intrinsic::uadd_with_overflow ? 0 : id == Intrinsic::sadd_with_overflow ? 1 : id == Intrinsic::usub_with_overflow ? 2
          : id == Intrinsic::ssub_with_overflow ? 3 : id == Intrinsic::umul_with_overflow ? 4 : 5;
    if (I.getArgOperand(0)->getType()->isVectorTy()) return false;
    emit(O_OVF, widthOf(I.getArgOperand(0)->getType()), d, ref(I.getArgOperand(0)), ref(I.getArgOperand(1)), k);
    return true;
  }
  case Intrinsic::uadd_sat: case Intrinsic::sadd_sat: case Intrinsic::usub_sat: case Intrinsic::ssub_sat:
  {
    int k = id == Intrinsic::uadd_sat ? 0 : id == Intrinsic::sadd_sat ? 1 : id == Intrinsic::usub_sat ? 2 : 3;
    for (u32 i = 0; i < n; i++) emit(O_SAT, w, d + i, ref(I.getArgOperand(0), i), ref(I.getArgOperand(1), i), k);
    return true;
  }
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group:
  case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::annotation:
  case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy:
    for (u32 i = 0; i < n; i++) emit(O_MOV, w, d + i, ref(I.getArgOperand(0), i));
    return true;
  case Intrinsic::is_constant: emit(O_MOV, 1, d, constRef({ 0, nullptr })); return true;
  case Intrinsic::objectsize: emit(O_MOV, w, d, constRef({ mask64(w), nullptr })); return true;
  case Intrinsic::ptrmask: emit(O_AND, 64, d, ref(I.getArgOperand(0)), ref(I.getArgOperand(1)), (i32)K::And, 0, ~0ull); return true;
  case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::sqrt: case Intrinsic::trunc:
  case Intrinsic::rint: case Intrinsic::round: case Intrinsic::log2: case Intrinsic::log: case Intrinsic::exp: case Intrinsic::log10:
  {
    int k = id == Intrinsic::fabs ? 0 : id == Intrinsic::floor ? 1 : id == Intrinsic::ceil ? 2 : id == Intrinsic::sqrt ? 3
          : id == Intrinsic::trunc ? 4 : id == Intrinsic::rint ? 5 : id == Intrinsic::round ? 6 : id == Intrinsic::log2 ? 7
          : id == Intrinsic::log ? 8 : id == Intrinsic::exp ? 9 : 10;
    for (u32 i = 0; i < n; i++) emit(O_FUN1, w, d + i, ref(I.getArgOperand(0), i), 0, k);
    return true;
  }
  case Intrinsic::fmuladd: case Intrinsic::fma:
  {
    for (u32 i = 0; i < n; i++)
    {
      i32 t = newSlots(1);
      emit(O_FBIN, w, t, ref(I.getArgOperand(0), i), ref(I.getArgOperand(1), i), Instruction::FMul);
      emit(O_FBIN, w, d + i, t, ref(I.getArgOperand(2), i), Instruction::FAdd);
    }
    return true;
  }
  case Intrinsic::pow: case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::copysign:
  {
    int k = id == Intrinsic::pow ? 0 : id == Intrinsic::minnum ? 1 : id == Intrinsic::maxnum ? 2 : 3;
    for (u32 i = 0; i < n; i++) emit(O_FUN2, w, d + i, ref(I.getArgOperand(0), i), ref(I.getArgOperand(1), i), k);
    return true;
  }
  case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor:
  case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin:
  case Intrinsic::vector_reduce_mul:
  {
    u32 m = nleaves(I.getArgOperand(0)->getType());
    emit(O_MOV, w, d, ref(I.getArgOperand(0), 0));
    for (u32 i = 1; i < m; i++)
    {
      i32 v = ref(I.getArgOperand(0), i);
      switch (id)
      {
      case Intrinsic::vector_reduce_add: emit(O_BIN, w, d, d, v, (i32)K::Add, 0, mask64(w)); break;
      case Intrinsic::vector_reduce_mul: emit(O_BIN, w, d, d, v, (i32)K::Mul, 0, mask64(w)); break;
      case Intrinsic::vector_reduce_or: emit(O_BIN, w, d, d, v, (i32)K::Or, 0, mask64(w)); break;
      case Intrinsic::vector_reduce_and: emit(O_BIN, w, d, d, v, (i32)K::And, 0, mask64(w)); break;
      case Intrinsic::vector_reduce_xor: emit(O_BIN, w, d, d, v, (i32)K::Xor, 0, mask64(w)); break;
      case Intrinsic::vector_reduce_umax: emit(O_UMAX, w, d, d, v); break;
      case Intrinsic::vector_reduce_umin: emit(O_UMIN, w, d, d, v); break;
      case Intrinsic::vector_reduce_smax: emit(O_SMAX, w, d, d, v); break;
      default: emit(O_SMIN, w, d, d, v); break;
      }
    }
    return true;
  }
  default: return false;
  }
  (void)d_floor;
}

void Decoder::call(CallBase & I)
{
  i32 d = I.getType()->isVoidTy() ? -1 : ref(&I);
  Function * callee = dyn_cast<Function>(I.getCalledOperand()->stripPointerCasts());
  auto inv = dyn_cast<InvokeInst>(&I);
  if (!callee)
  {
    if (auto al = dyn_cast<GlobalAlias>(I.getCalledOperand()->stripPointerCasts()))
      callee = dyn_cast<Function>(en.resolve(al));
  }
  if (callee && callee->isIntrinsic())
  {
    if (intrinsic(I, callee, d))
    {
      if (inv) emit(O_BR, 0, -1, 0, 0, 0, 0, edge(I.getParent(), inv->getNormalDest()));
      return;
    }
  }
  if (I.isInlineAsm())
  {
    auto ia = cast<InlineAsm>(I.getCalledOperand());
    if (ia->getAsmString().empty())
    {
      // compiler barrier / value laundering
      if (d >= 0 && I.arg_size() >= 1) emit(O_MOV, widthOf(I.getType()), d, ref(I.getArgOperand(0)));
      return;
    }
    unsup("inline asm in " + fi.name);
    return;
  }
  auto ci = new CallInfo;
  for (unsigned i = 0; i < I.arg_size(); i++)
  {
    auto a = I.getArgOperand(i);
    std::vector<Type *> l;
    leafTypes(a->getType(), l);
    if (I.isByValArgument(i))
      ci->byval.push_back({ (u32)ci->args.size(), dl.getTypeAllocSize(I.getParamByValType(i)).getFixedValue() });
    for (u32 k = 0; k < l.size(); k++)
    {
      ci->args.push_back(ref(a, k));
      ci->argw.push_back((u8)(widthOf(l[k]) | (isFP(l[k]) ? 0x80 : 0)));
    }
  }
  ci->dst = d;
  if (d >= 0)
  {
    std::vector<Type *> l;
    leafTypes(I.getType(), l);
    ci->nret = l.size();
    for (auto t : l) ci->retw.push_back((u8)(widthOf(t) | (isFP(t) ? 0x80 : 0)));
  }
  if (callee)
  {
    ci->name = callee->getName().str();
    ci->builtin = findBuiltin(ci->name);
    if (!ci->builtin)
    {
      auto g = en.resolve(callee);
      auto F2 = dyn_cast<Function>(g);
      if (F2 && isDef(F2)) ci->target = en.fnFor(F2);
      else
      {
        ci->native = dlsym(RTLD_DEFAULT, ci->name.c_str());
        if (!ci->native) ci->noresolve = true;
      }
    }
  }
  else
  {
    ci->indirect = true;
    ci->callee = ref(I.getCalledOperand());
  }
  if (inv)
  {
    ci->invoke = true;
    ci->normalEdge = edge(I.getParent(), inv->getNormalDest());
    ci->unwindEdge = edge(I.getParent(), inv->getUnwindDest());
  }
  fi.calls.push_back(ci);
  emit(O_CALL, 0, d, 0, 0, 0, fi.calls.size() - 1);
}

void Engine::decode(FnInfo * f)
{
  if (f->decoded) return;
  if (f->F->isMaterializable())
    if (auto err = f->F->getParent()->materialize(f->F))
    {
      fprintf(stderr, "symx: materialize failed: %s\n", toString(std::move(err)).c_str());
      exit(2);
    }
  Decoder D(*this, *f);
  D.run();
  f->decoded = true;
}

void Engine::computePdom(FnInfo * f)
{
  if (f->pdomDone) return;
  f->pdomDone = true;
  PostDominatorTree pdt(*f->F);
  DenseMap<BasicBlock *, u32> bi;
  for (u32 i = 0; i < f->bbs.size(); i++) bi[f->bbs[i]] = i;
  for (u32 i = 0; i < f->bbs.size(); i++)
  {
    auto n = pdt.getNode(f->bbs[i]);
    i32 r = -1;
    if (n && n->getIDom() && n->getIDom()->getBlock()) r = bi[n->getIDom()->getBlock()];
    f->blocks[i].ipdom = r;
  }
}
