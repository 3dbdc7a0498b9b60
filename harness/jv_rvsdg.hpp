// Meaning of RVSDG programs (evaluator), structural well-formedness, and the translation-validation driver.
// The evaluator reads the graph only through jlm's public accessors; the semantics of every operation is written here.
#pragma once
#include "jv_core.hpp"
#include <jlm/llvm/ir/operators/AggregateOperations.hpp>
#include <jlm/llvm/ir/operators/alloca.hpp>
#include <jlm/llvm/ir/operators/call.hpp>
#include <jlm/llvm/ir/operators/ConversionOperations.hpp>
#include <jlm/llvm/ir/operators/delta.hpp>
#include <jlm/llvm/ir/operators/GetElementPtr.hpp>
#include <jlm/llvm/ir/operators/IntegerOperations.hpp>
#include <jlm/llvm/ir/operators/IOBarrier.hpp>
#include <jlm/llvm/ir/operators/lambda.hpp>
#include <jlm/llvm/ir/operators/Load.hpp>
#include <jlm/llvm/ir/operators/MemoryStateOperations.hpp>
#include <jlm/llvm/ir/operators/operators.hpp>
#include <jlm/llvm/ir/operators/StdLibIntrinsicOperations.hpp>
#include <jlm/llvm/ir/operators/Store.hpp>
#include <jlm/llvm/ir/RvsdgModule.hpp>
#include <jlm/rvsdg/bitstring.hpp>
#include <jlm/rvsdg/control.hpp>
#include <jlm/rvsdg/delta.hpp>
#include <jlm/rvsdg/gamma.hpp>
#include <jlm/rvsdg/lambda.hpp>
#include <jlm/rvsdg/Phi.hpp>
#include <jlm/rvsdg/theta.hpp>
#include <jlm/rvsdg/Transformation.hpp>
#include <jlm/util/Statistics.hpp>
#include <set>
#include <unordered_set>

namespace jv
{
namespace rv = jlm::rvsdg;
namespace jl = jlm::llvm;

// --- layout (x86-64, written independently of jlm) -----------------------------------------------------------------------
inline u64 alignOf(const rv::Type & t);
inline u64 sizeOf(const rv::Type & t)
{
  if (auto b = dynamic_cast<const rv::BitType *>(&t))
  {
    u64 n = (b->nbits() + 7) / 8, p = 1;
    if (n > 8) return (n + 15) / 16 * 16;
    while (p < n) p *= 2;
    return p;
  }
  if (dynamic_cast<const jl::PointerType *>(&t)) return 8;
  if (auto f = dynamic_cast<const jl::FloatingPointType *>(&t))
    switch (f->size())
    {
    case jl::fpsize::half: return 2;
    case jl::fpsize::flt: return 4;
    case jl::fpsize::dbl: return 8;
    default: return 16;
    }
  if (auto a = dynamic_cast<const jl::ArrayType *>(&t)) return a->nelements() * sizeOf(a->element_type());
  if (auto v = dynamic_cast<const jl::FixedVectorType *>(&t)) return v->size() * sizeOf(v->type());
  if (auto s = dynamic_cast<const jl::StructType *>(&t))
  {
    u64 o = 0, al = 1;
    for (size_t i = 0; i < s->numElements(); i++)
    {
      auto e = s->getElementType(i);
      u64 a = s->IsPacked() ? 1 : alignOf(*e);
      al = std::max(al, a);
      o = (o + a - 1) / a * a + sizeOf(*e);
    }
    return (o + al - 1) / al * al;
  }
  symx_error(("size of type " + t.debug_string()).c_str());
  return 0;
}
inline u64 alignOf(const rv::Type & t)
{
  if (auto a = dynamic_cast<const jl::ArrayType *>(&t)) return alignOf(a->element_type());
  if (auto s = dynamic_cast<const jl::StructType *>(&t))
  {
    u64 al = 1;
    if (!s->IsPacked())
      for (size_t i = 0; i < s->numElements(); i++) al = std::max(al, alignOf(*s->getElementType(i)));
    return al;
  }
  return std::max<u64>(1, std::min<u64>(16, sizeOf(t)));
}
inline u64 fieldOffset(const jl::StructType & s, size_t idx)
{
  u64 o = 0;
  for (size_t i = 0; i < s.numElements(); i++)
  {
    auto e = s.getElementType(i);
    u64 a = s.IsPacked() ? 1 : alignOf(*e);
    o = (o + a - 1) / a * a;
    if (i == idx) return o;
    o += sizeOf(*e);
  }
  return o;
}
inline unsigned bitsOf(const rv::Type & t)
{
  if (auto b = dynamic_cast<const rv::BitType *>(&t)) return b->nbits();
  if (dynamic_cast<const jl::PointerType *>(&t)) return 64;
  if (auto f = dynamic_cast<const jl::FloatingPointType *>(&t))
    switch (f->size())
    {
    case jl::fpsize::half: return 16;
    case jl::fpsize::flt: return 32;
    default: return 64;
    }
  return 64;
}
inline bool isState(const rv::Type & t) { return t.Kind() == rv::TypeKind::State; }
inline bool isFpLike(const rv::Type & t) { return dynamic_cast<const jl::FloatingPointType *>(&t) != nullptr; }

// BitValueRepresentation -> value
inline Val bitValue(const rv::BitValueRepresentation & r)
{
  u64 v = 0;
  u8 p = 0;
  for (size_t i = 0; i < r.nbits() && i < 64; i++)
  {
    char c = r[i];
    v |= (u64)(c == '1') << i;
    p |= (c != '1') & (c != '0');
  }
  return Val(v, p);
}

enum class Op
{
  Unknown, IntConst, BitConst, IntBin, CtlConst, Match, Select, Load, LoadV, Store, StoreV, Alloca, Malloc, Free, Gep, MemCpy, MemCpyV,
  MemSet, MemMove, Call, StateOp, IoBarrier, SExt, ZExt, Trunc, BitCast, PtrToInt, IntToPtr, CtlToInt, Undef, Poison, Freeze, NullPtr,
  FnToPtr, PtrToFn, PtrCmp, ConstFP, Struct, Array, AggZero, ExtractValue, InsertValue, VarArgs, UMin, UMax, SMin, SMax, Abs, Nop
};

struct NodeInfo
{
  Op op = Op::Unknown;
  IOp iop = IOp::Add;
  unsigned w = 0;
  u64 uf = 0;
  bool late = false;
};

// observes an evaluation
struct Probe
{
  virtual ~Probe() = default;
  virtual void enter(const rv::Region &, const std::unordered_map<const rv::Output *, Val> &) {}
  virtual void leave(const rv::Region &, const std::unordered_map<const rv::Output *, Val> &) {}
  virtual void access(const rv::Output & /*address*/, unsigned /*object*/, u64 /*offset*/, u64 /*size*/, bool /*write*/) {}
};
class Eval : public Machine
{
public:
  Probe * probe = nullptr;
  using Env = std::unordered_map<const rv::Output *, Val>;
  std::unordered_map<const rv::Node *, NodeInfo> infos;
  std::unordered_map<const rv::Region *, std::vector<const rv::Node *>> orders;
  std::unordered_set<const rv::Output *> live;
  std::unordered_set<const rv::Node *> liveNode;
  std::unordered_set<const rv::Region *> liveRegion;
  std::unordered_map<const rv::Output *, u64> statics;
  std::map<u64, const rv::LambdaNode *> lambdas;
  std::map<unsigned, const rv::DeltaNode *> pendingDeltas;
  std::vector<HB> evClosure;
  unsigned depth = 0;

  Eval(World & w, Mode m) : Machine(w, m) {}

  static std::string lambdaName(const rv::LambdaNode & l)
  {
    if (auto o = dynamic_cast<const jl::LlvmLambdaOperation *>(&l.GetOperation())) return o->name();
    return "lambda";
  }

  // --- liveness ---------------------------------------------------------------------------------------------------------
  void markLive(const rv::Output * o0)
  {
    std::vector<const rv::Output *> wl{ o0 };
    while (!wl.empty())
    {
      auto o = wl.back();
      wl.pop_back();
      if (!live.insert(o).second) continue;
      auto owner = o->GetOwner();
      if (auto np = std::get_if<rv::Node *>(&owner))
      {
        auto n = *np;
        bool first = liveNode.insert(n).second;
        if (auto g = dynamic_cast<const rv::GammaNode *>(n))
        {
          if (first) wl.push_back(g->predicate()->origin());
          for (auto & ev : g->GetExitVars())
            if (ev.output == o)
              for (auto r : ev.branchResult) wl.push_back(r->origin());
        }
        else if (auto t = dynamic_cast<const rv::ThetaNode *>(n))
        {
          if (first) wl.push_back(t->predicate()->origin());
          for (auto & lv : t->GetLoopVars())
            if (lv.output == o) wl.push_back(lv.pre), wl.push_back(lv.post->origin()), wl.push_back(lv.input->origin());
        }
        else if (dynamic_cast<const rv::LambdaNode *>(n) || dynamic_cast<const rv::DeltaNode *>(n) || dynamic_cast<const rv::PhiNode *>(n))
        {
        }
        else if (first)
          for (size_t i = 0; i < n->ninputs(); i++) wl.push_back(n->input(i)->origin());
      }
      else
      {
        auto r = std::get<rv::Region *>(owner);
        auto n = r->node();
        if (auto g = dynamic_cast<const rv::GammaNode *>(n))
        {
          for (auto & ev : g->GetEntryVars())
            for (auto a : ev.branchArgument)
              if (a == o) wl.push_back(ev.input->origin());
        }
        else if (auto t = dynamic_cast<const rv::ThetaNode *>(n))
        {
          for (auto & lv : t->GetLoopVars())
            if (lv.pre == o) wl.push_back(lv.post->origin()), wl.push_back(lv.input->origin());
        }
      }
    }
  }
  void markRegion(const rv::Region & r)
  {
    if (!liveRegion.insert(&r).second) return;
    for (size_t i = 0; i < r.nresults(); i++) markLive(r.result(i)->origin());
  }

  // --- classification -----------------------------------------------------------------------------------------------------
  bool hasWorldEffect(const rv::Node & n)
  {
    if (auto s = dynamic_cast<const rv::StructuralNode *>(&n))
    {
      for (size_t i = 0; i < s->nsubregions(); i++)
        for (auto & m : s->subregion(i)->Nodes())
          if (hasWorldEffect(m)) return true;
      return false;
    }
    auto & o = n.GetOperation();
    return dynamic_cast<const jl::CallOperation *>(&o) || dynamic_cast<const jl::LoadVolatileOperation *>(&o)
        || dynamic_cast<const jl::StoreVolatileOperation *>(&o);
  }
  const NodeInfo & info(const rv::Node & n)
  {
    auto it = infos.find(&n);
    if (it != infos.end()) return it->second;
    NodeInfo i;
    i.late = hasWorldEffect(n);
    if (!dynamic_cast<const rv::StructuralNode *>(&n)) classify(n, i);
    return infos[&n] = i;
  }
  void classify(const rv::Node & n, NodeInfo & i)
  {
    auto & o = n.GetOperation();
#define IS(T) dynamic_cast<const T *>(&o)
    if (IS(jl::IntegerConstantOperation)) { i.op = Op::IntConst; return; }
    if (auto b = IS(rv::BitConstantOperation)) { (void)b; i.op = Op::BitConst; return; }
    if (auto b = IS(jl::IntegerBinaryOperation))
    {
      i.op = Op::IntBin;
      i.w = bitsOf(*b->argument(0));
#define B(N) if (IS(jl::Integer##N##Operation)) { i.iop = IOp::N; return; }
      B(Add) B(Sub) B(Mul) B(SDiv) B(UDiv) B(SRem) B(URem) B(AShr) B(Shl) B(LShr) B(And) B(Or) B(Xor) B(Eq) B(Ne) B(Sge) B(Sgt) B(Sle)
      B(Slt) B(Uge) B(Ugt) B(Ule) B(Ult)
#undef B
      symx_error("unknown integer operation");
    }
    if ((IS(rv::BitBinaryOperation) || IS(rv::BitCompareOperation)) && o.debug_string().size())
    {
      i.op = Op::IntBin;
      i.w = bitsOf(*n.input(0)->Type());
#define B(T, N) if (IS(rv::bit##T##_op)) { i.iop = IOp::N; return; }
      B(add, Add) B(sub, Sub) B(mul, Mul) B(sdiv, SDiv) B(udiv, UDiv) B(smod, SRem) B(umod, URem) B(ashr, AShr) B(shl, Shl) B(shr, LShr)
      B(and, And) B(or, Or) B(xor, Xor) B(eq, Eq) B(ne, Ne) B(sge, Sge) B(sgt, Sgt) B(sle, Sle) B(slt, Slt) B(uge, Uge) B(ugt, Ugt)
      B(ule, Ule) B(ult, Ult)
#undef B
      i.op = Op::Unknown;
      i.uf = hashStr(o.debug_string());
      return;
    }
#define K(T, P) if (IS(T)) { i.op = Op::P; return; }
    K(rv::ControlConstantOperation, CtlConst)
    K(rv::MatchOperation, Match)
    K(jl::SelectOperation, Select)
    K(jl::LoadNonVolatileOperation, Load)
    K(jl::LoadVolatileOperation, LoadV)
    K(jl::StoreNonVolatileOperation, Store)
    K(jl::StoreVolatileOperation, StoreV)
    K(jl::AllocaOperation, Alloca)
    K(jl::MallocOperation, Malloc)
    K(jl::FreeOperation, Free)
    K(jl::GetElementPtrOperation, Gep)
    K(jl::MemCpyVolatileOperation, MemCpyV)
    K(jl::MemCpyOperation, MemCpy)
    K(jl::MemSetOperation, MemSet)
    K(jl::MemMoveOperation, MemMove)
    K(jl::CallOperation, Call)
    K(jl::MemoryStateOperation, StateOp)
    K(jl::IOBarrierOperation, IoBarrier)
    K(jl::SExtOperation, SExt)
    K(jl::ZExtOperation, ZExt)
    K(jl::TruncOperation, Trunc)
    K(jl::BitCastOperation, BitCast)
    K(jl::PtrToIntOperation, PtrToInt)
    K(jl::IntToPtrOperation, IntToPtr)
    K(jl::ControlToIntOperation, CtlToInt)
    K(jl::UndefValueOperation, Undef)
    K(jl::PoisonValueOperation, Poison)
    K(jl::FreezeOperation, Freeze)
    K(jl::ConstantPointerNullOperation, NullPtr)
    K(jl::FunctionToPointerOperation, FnToPtr)
    K(jl::PointerToFunctionOperation, PtrToFn)
    K(jl::PtrCmpOperation, PtrCmp)
    K(jl::ConstantFP, ConstFP)
    K(jl::ConstantStructOperation, Struct)
    K(jl::ConstantArrayOperation, Array)
    K(jl::ConstantDataArrayOperation, Array)
    K(jl::ConstantAggregateZeroOperation, AggZero)
    K(jl::ExtractValueOperation, ExtractValue)
    K(jl::InsertValueOperation, InsertValue)
    K(jl::VariadicArgumentListOperation, VarArgs)
    K(jl::UMinOperation, UMin)
    K(jl::UMaxOperation, UMax)
    K(jl::SMinOperation, SMin)
    K(jl::SMaxOperation, SMax)
#undef K
#undef IS
    i.op = Op::Unknown;
    i.uf = hashStr(o.debug_string());
  }

  // --- scheduling: any topological order is legal; world effects as late as possible -----------------------------------------
  const std::vector<const rv::Node *> & order(const rv::Region & r)
  {
    auto it = orders.find(&r);
    if (it != orders.end()) return it->second;
    std::vector<const rv::Node *> all, out;
    std::unordered_map<const rv::Node *, unsigned> deg;
    std::unordered_map<const rv::Node *, std::vector<const rv::Node *>> succ;
    for (auto & n : r.Nodes())
      if (liveNode.count(&n)) all.push_back(&n), deg[&n] = 0;
    for (auto n : all)
      for (size_t i = 0; i < n->ninputs(); i++)
      {
        auto ow = n->input(i)->origin()->GetOwner();
        if (auto p = std::get_if<rv::Node *>(&ow))
        {
          if (!deg.count(*p)) continue; // dead producer (feeds only dead parts of a structural node)
          succ[*p].push_back(n);
          deg[n]++;
        }
      }
    std::vector<const rv::Node *> ready, late;
    for (auto n : all)
      if (!deg[n]) (info(*n).late ? late : ready).push_back(n);
    while (!ready.empty() || !late.empty())
    {
      const rv::Node * n;
      if (!ready.empty()) n = ready.back(), ready.pop_back();
      else n = late.front(), late.erase(late.begin());
      out.push_back(n);
      for (auto s : succ[n])
        if (--deg[s] == 0) (info(*s).late ? late : ready).push_back(s);
    }
    if (out.size() != all.size()) { symx_fail("region contains a dependency cycle"); symx_end(); }
    return orders[&r] = out;
  }

  // --- statics: functions and globals -----------------------------------------------------------------------------------------
  u64 resolveStatic(const rv::Output * o)
  {
    auto it = statics.find(o);
    if (it != statics.end()) return it->second;
    u64 v = resolveStatic2(o);
    statics[o] = v;
    return v;
  }
  u64 resolveStatic2(const rv::Output * o)
  {
    auto owner = o->GetOwner();
    if (auto np = std::get_if<rv::Node *>(&owner))
    {
      if (auto l = dynamic_cast<const rv::LambdaNode *>(*np))
      {
        u64 id = W.fnId(lambdaName(*l));
        lambdas[id] = l;
        return id << 32;
      }
      if (auto d = dynamic_cast<const rv::DeltaNode *>(*np)) return ptr(deltaObj(*d));
      if (auto p = dynamic_cast<const rv::PhiNode *>(*np))
      {
        for (auto & f : p->GetFixVars())
          if (f.output == o) return resolveStatic(f.result->origin());
      }
      symx_error("static value of unexpected node");
    }
    auto r = std::get<rv::Region *>(owner);
    if (auto gi = dynamic_cast<const rv::GraphImport *>(o))
    {
      if (dynamic_cast<const rv::FunctionType *>(gi->Type().get())) return W.fnId(gi->Name()) << 32;
      if (!globals.count(gi->Name())) symx_error(("unknown global " + gi->Name()).c_str());
      return ptr(globals[gi->Name()]);
    }
    auto n = r->node();
    if (auto l = dynamic_cast<const rv::LambdaNode *>(n))
      for (auto & c : l->GetContextVars())
        if (c.inner == o) return resolveStatic(c.input->origin());
    if (auto d = dynamic_cast<const rv::DeltaNode *>(n))
      for (auto & c : d->GetContextVars())
        if (c.inner == o) return resolveStatic(c.input->origin());
    if (auto p = dynamic_cast<const rv::PhiNode *>(n))
    {
      for (auto & c : p->GetContextVars())
        if (c.inner == o) return resolveStatic(c.input->origin());
      for (auto & f : p->GetFixVars())
        if (f.recref == o) return resolveStatic(f.result->origin());
    }
    symx_error("static value of unexpected origin");
    return 0;
  }
  unsigned deltaObj(const rv::DeltaNode & d)
  {
    auto op = dynamic_cast<const jl::LlvmDeltaOperation *>(&d.GetOperation());
    std::string name = op ? op->name() : "delta";
    auto it = globals.find(name);
    if (it != globals.end()) return it->second;
    unsigned id = newObj(name, sizeOf(*d.Type()));
    globals[name] = id;
    objs[id].src = &d;
    bool internal = op && (op->linkage() == jl::Linkage::internalLinkage || op->linkage() == jl::Linkage::privateLinkage);
    // initial contents
    auto & r = *d.subregion();
    for (size_t i = 0; i < r.nresults(); i++) markLive(r.result(i)->origin());
    Env env;
    for (auto & c : d.GetContextVars()) env[c.inner] = Val(resolveStatic(c.input->origin()));
    runNodes(r, env);
    Val init = env.at(d.result().origin());
    storeTyped(id, 0, *d.Type(), init);
    objs[id].readonly = d.constant();
    // identified by its name in both evaluations
    objs[id].canon = 1000000 + (int)(W.fnId("global " + name) - FN_BASE);
    if (!internal) escape(id);
    return id;
  }

  // --- typed memory -------------------------------------------------------------------------------------------------------------
  Val loadTyped(unsigned id, u64 off, const rv::Type & t)
  {
    if (auto a = dynamic_cast<const jl::ArrayType *>(&t))
    {
      Val r;
      r.a = std::make_shared<std::vector<Val>>();
      for (size_t i = 0; i < a->nelements(); i++) r.a->push_back(loadTyped(id, off + i * sizeOf(a->element_type()), a->element_type()));
      return r;
    }
    if (auto a = dynamic_cast<const jl::FixedVectorType *>(&t))
    {
      Val r;
      r.a = std::make_shared<std::vector<Val>>();
      for (size_t i = 0; i < a->size(); i++) r.a->push_back(loadTyped(id, off + i * sizeOf(a->type()), a->type()));
      return r;
    }
    if (auto s = dynamic_cast<const jl::StructType *>(&t))
    {
      Val r;
      r.a = std::make_shared<std::vector<Val>>();
      for (size_t i = 0; i < s->numElements(); i++) r.a->push_back(loadTyped(id, off + fieldOffset(*s, i), *s->getElementType(i)));
      return r;
    }
    Val v = rawLoad(id, off, std::min<u64>(8, sizeOf(t)));
    v.v &= maskOf(bitsOf(t));
    return v;
  }
  void storeTyped(unsigned id, u64 off, const rv::Type & t, const Val & v)
  {
    if (auto a = dynamic_cast<const jl::ArrayType *>(&t))
    {
      for (size_t i = 0; i < a->nelements(); i++) storeTyped(id, off + i * sizeOf(a->element_type()), a->element_type(), elem(v, i));
      return;
    }
    if (auto a = dynamic_cast<const jl::FixedVectorType *>(&t))
    {
      for (size_t i = 0; i < a->size(); i++) storeTyped(id, off + i * sizeOf(a->type()), a->type(), elem(v, i));
      return;
    }
    if (auto s = dynamic_cast<const jl::StructType *>(&t))
    {
      for (size_t i = 0; i < s->numElements(); i++) storeTyped(id, off + fieldOffset(*s, i), *s->getElementType(i), elem(v, i));
      return;
    }
    u64 n = sizeOf(t);
    Val x = v;
    x.v &= maskOf(bitsOf(t));
    bool pointer = dynamic_cast<const jl::PointerType *>(&t);
    if (pointer && symx_is_symbolic(off)) off = symx_concretize(off);
    rawStore(id, off, std::min<u64>(8, n), x);
    if (pointer) noteStoredPointer(id, off);
  }
  Val elem(const Val & v, size_t i)
  {
    if (v.a)
    {
      if (i >= v.a->size()) symx_error("aggregate index");
      return (*v.a)[i];
    }
    return Val(v.v, v.p); // poison or zero aggregate
  }
  Val zeroOf(const rv::Type & t, u8 poison = 0)
  {
    Val r(0, poison);
    size_t n = 0;
    if (auto a = dynamic_cast<const jl::ArrayType *>(&t)) n = a->nelements();
    else if (auto s = dynamic_cast<const jl::StructType *>(&t)) n = s->numElements();
    else if (auto v = dynamic_cast<const jl::FixedVectorType *>(&t)) n = v->size();
    else return r;
    r.a = std::make_shared<std::vector<Val>>();
    for (size_t i = 0; i < n; i++)
    {
      if (auto a = dynamic_cast<const jl::ArrayType *>(&t)) r.a->push_back(zeroOf(a->element_type(), poison));
      else if (auto s = dynamic_cast<const jl::StructType *>(&t)) r.a->push_back(zeroOf(*s->getElementType(i), poison));
      else if (auto v = dynamic_cast<const jl::FixedVectorType *>(&t)) r.a->push_back(zeroOf(v->type(), poison));
    }
    return r;
  }

  // --- execution ------------------------------------------------------------------------------------------------------------------
  Val get(const Env & env, const rv::Output * o)
  {
    auto it = env.find(o);
    if (it == env.end())
    {
      symx_fail("uses a value that is not available in its region");
      symx_end();
    }
    return it->second;
  }

  void runNodes(const rv::Region & r, Env & env)
  {
    if (probe) probe->enter(r, env);
    for (auto n : order(r)) runNode(*n, env);
    if (probe) probe->leave(r, env);
  }

  HB inputsHB(const rv::Node & n, const Env & env)
  {
    HB h;
    for (size_t i = 0; i < n.ninputs(); i++)
    {
      auto it = env.find(n.input(i)->origin());
      if (it != env.end()) h |= it->second.hb;
    }
    return h;
  }

  void runNode(const rv::Node & n, Env & env)
  {
    if (auto g = dynamic_cast<const rv::GammaNode *>(&n)) return runGamma(*g, env);
    if (auto t = dynamic_cast<const rv::ThetaNode *>(&n)) return runTheta(*t, env);
    if (dynamic_cast<const rv::LambdaNode *>(&n) || dynamic_cast<const rv::DeltaNode *>(&n) || dynamic_cast<const rv::PhiNode *>(&n))
    {
      for (size_t i = 0; i < n.noutputs(); i++) env[n.output(i)] = Val(resolveStatic(n.output(i)));
      return;
    }
    if (dynamic_cast<const rv::StructuralNode *>(&n)) symx_error("unknown structural node");
    runSimple(n, env);
  }

  void runGamma(const rv::GammaNode & g, Env & env)
  {
    HB base = inputsHB(g, env);
    Val pv = get(env, g.predicate()->origin());
    ub(pv.p != 0, "branches on poison");
    unsigned ev0 = evs.size();
    u64 alt = symx_concretize(pv.v);
    if (alt >= g.nsubregions()) { symx_fail("selects an alternative that does not exist"); symx_end(); }
    auto & r = *g.subregion(alt);
    Env sub;
    for (auto & ev : g.GetEntryVars())
    {
      auto it = env.find(ev.input->origin());
      if (it == env.end()) continue; // dead
      Val v = it->second;
      v.hb |= base;
      sub[ev.branchArgument[alt]] = v;
    }
    {
      auto mv = g.GetMatchVar();
      if (alt < mv.matchContent.size()) { Val v; v.hb = base; sub[mv.matchContent[alt]] = v; }
    }
    runNodes(r, sub);
    HB out = base;
    for (unsigned i = ev0; i < evs.size(); i++) out.set(i);
    for (auto & xv : g.GetExitVars())
    {
      if (!live.count(xv.output)) continue;
      Val v = get(sub, xv.branchResult[alt]->origin());
      v.hb = out;
      env[xv.output] = v;
    }
  }

  void runTheta(const rv::ThetaNode & t, Env & env)
  {
    HB base = inputsHB(t, env);
    unsigned ev0 = evs.size();
    auto lvs = t.GetLoopVars();
    std::vector<Val> cur(lvs.size());
    std::vector<bool> has(lvs.size());
    for (size_t i = 0; i < lvs.size(); i++)
    {
      has[i] = live.count(lvs[i].pre) || live.count(lvs[i].output);
      if (has[i]) cur[i] = get(env, lvs[i].input->origin());
    }
    unsigned bound = mode == Orig ? W.maxLoop : W.maxLoopTrans;
    HB h = base;
    for (unsigned it = 1;; it++)
    {
      Env sub;
      for (size_t i = 0; i < lvs.size(); i++)
        if (has[i])
        {
          cur[i].hb = h;
          sub[lvs[i].pre] = cur[i];
        }
      // values that do not depend on a loop variable are ordered after the loop's inputs
      runNodes(*t.subregion(), sub);
      for (unsigned i = ev0; i < evs.size(); i++) h.set(i);
      Val p = get(sub, t.predicate()->origin());
      ub(p.p != 0, "branches on poison");
      for (size_t i = 0; i < lvs.size(); i++)
        if (has[i]) cur[i] = get(sub, lvs[i].post->origin());
      if (it >= bound)
      {
        if (mode == Orig) symx_assume(p.v == 0);
        else symx_assert(p.v == 0, "iterates although the original has terminated");
        break;
      }
      u64 c = symx_concretize(p.v);
      if (c == 0) break;
    }
    for (size_t i = 0; i < lvs.size(); i++)
      if (has[i])
      {
        cur[i].hb = h;
        env[lvs[i].output] = cur[i];
      }
  }

  std::vector<Val> runLambda(const rv::LambdaNode & l, const std::vector<Val> & args)
  {
    if (++depth > W.maxDepth)
    {
      if (mode == Orig) symx_reject();
      symx_fail("recurses deeper than the original");
      symx_end();
    }
    auto & r = *l.subregion();
    markRegion(r);
    Env env;
    auto fa = l.GetFunctionArguments();
    if (fa.size() != args.size()) { ub(true, "calls a function with the wrong number of arguments"); symx_end(); }
    for (size_t i = 0; i < fa.size(); i++) env[fa[i]] = args[i];
    for (auto & c : l.GetContextVars()) env[c.inner] = Val(resolveStatic(c.input->origin()));
    size_t o0 = objs.size();
    runNodes(r, env);
    std::vector<Val> res;
    for (auto x : l.GetFunctionResults()) res.push_back(get(env, x->origin()));
    for (size_t i = o0; i < objs.size(); i++)
      if (objs[i].stack && objs[i].alive) objs[i].alive = false;
    depth--;
    return res;
  }

  Val gepIndexed(const rv::Node & n, const Env & env, const jl::GetElementPtrOperation & gep)
  {
    Val base = get(env, n.input(0)->origin());
    u64 addr = base.v;
    u8 p = base.p;
    auto t = gep.getPointeeType();
    for (size_t k = 1; k < n.ninputs(); k++)
    {
      Val ix = get(env, n.input(k)->origin());
      p |= ix.p;
      u64 i = sx(ix.v, bitsOf(*n.input(k)->Type()));
      if (k == 1) { addr += i * sizeOf(*t); continue; }
      if (auto a = dynamic_cast<const jl::ArrayType *>(t.get()))
      {
        t = a->GetElementType();
        addr += i * sizeOf(*t);
      }
      else if (auto s = dynamic_cast<const jl::StructType *>(t.get()))
      {
        u64 f = symx_concretize(i);
        if (f >= s->numElements()) { symx_fail("addresses a field that does not exist"); symx_end(); }
        addr += fieldOffset(*s, f);
        t = s->getElementType(f);
      }
      else if (auto v = dynamic_cast<const jl::FixedVectorType *>(t.get()))
      {
        t = v->Type();
        addr += i * sizeOf(*t);
      }
      else symx_error("gep into a scalar");
    }
    return Val(addr, p);
  }

  void runSimple(const rv::Node & n, Env & env)
  {
    auto & I = info(n);
    auto & o = n.GetOperation();
    HB hb = inputsHB(n, env);
    auto in = [&](size_t i) { return get(env, n.input(i)->origin()); };
    auto ubf = [&](bool c, const char * m) { ub(c, m); };
    auto outv = [&](size_t i, Val v)
    {
      v.hb = hb;
      env[n.output(i)] = v;
    };
    auto states = [&](size_t from)
    {
      for (size_t i = from; i < n.noutputs(); i++)
        if (isState(*n.output(i)->Type())) outv(i, Val());
    };
    switch (I.op)
    {
    case Op::IntConst: outv(0, bitValue(static_cast<const jl::IntegerConstantOperation &>(o).Representation())); break;
    case Op::BitConst: outv(0, bitValue(static_cast<const rv::BitConstantOperation &>(o).value())); break;
    case Op::IntBin:
    {
      Val v = evalInt(I.iop, I.w, in(0), in(1), ubf);
      for (size_t i = 2; i < n.ninputs(); i++) v = evalInt(I.iop, I.w, v, in(i), ubf); // a flattened associative operation
      outv(0, v);
      break;
    }
    case Op::CtlConst: outv(0, Val(static_cast<const rv::ControlConstantOperation &>(o).value().alternative())); break;
    case Op::Match:
    {
      auto & m = static_cast<const rv::MatchOperation &>(o);
      Val x = in(0);
      u64 r = m.default_alternative();
      for (auto & kv : m) r = symx_ite(x.v == (kv.first & maskOf(bitsOf(*n.input(0)->Type()))), kv.second, r);
      outv(0, Val(r, x.p));
      break;
    }
    case Op::Select:
    {
      Val c = in(0), a = in(1), b = in(2);
      if (a.a || b.a)
      {
        ub(c.p != 0, "selects an aggregate on poison");
        outv(0, symx_concretize(c.v) ? a : b);
        break;
      }
      u64 s = c.v & 1;
      outv(0, Val(symx_ite(s, a.v, b.v), (u8)(c.p | symx_ite(s, a.p, b.p))));
      break;
    }
    case Op::Load:
    case Op::LoadV:
    {
      Val a = in(0);
      ub(a.p != 0, "loads through poison");
      auto & t = *n.output(0)->Type();
      u64 off;
      unsigned id = resolve(a.v, sizeOf(t), off);
      if (I.op == Op::LoadV)
      {
        auto r = world(K_VLOAD, { Val(ptr(id, off)), Val(sizeOf(t)) }, { bitsOf(t) }, hb, false);
        outv(0, r[0]);
        states(1);
        break;
      }
      unsigned e = access(id, off, sizeOf(t), false, hb);
      if (probe) probe->access(*n.input(0)->origin(), id, off, sizeOf(t), false);
      hb.set(e);
      outv(0, loadTyped(id, off, t));
      states(1);
      break;
    }
    case Op::Store:
    case Op::StoreV:
    {
      Val a = in(0), v = in(1);
      ub(a.p != 0, "stores through poison");
      auto & t = *n.input(1)->Type();
      u64 off;
      unsigned id = resolve(a.v, sizeOf(t), off);
      if (I.op == Op::StoreV)
      {
        world(K_VSTORE, { Val(ptr(id, off)), Val(sizeOf(t)), v }, {}, hb, false);
      }
      hb.set(access(id, off, sizeOf(t), true, hb));
      if (probe) probe->access(*n.input(0)->origin(), id, off, sizeOf(t), true);
      objs[id].written = true;
      storeTyped(id, off, t, v);
      states(0);
      break;
    }
    case Op::Alloca:
    {
      auto & al = static_cast<const jl::AllocaOperation &>(o);
      u64 c = symx_concretize(in(0).v);
      if (c > 64) { if (mode == Orig) symx_reject(); symx_error("large alloca"); }
      unsigned id = newObj("alloca", c * sizeOf(*al.allocatedType()));
      objs[id].stack = true;
      objs[id].src = &n;
      outv(0, Val(ptr(id)));
      states(1);
      break;
    }
    case Op::Malloc:
    {
      u64 c = symx_concretize(in(0).v);
      if (c > 64) { if (mode == Orig) symx_reject(); symx_error("large malloc"); }
      unsigned id = newObj("malloc", c);
      objs[id].src = &n;
      outv(0, Val(ptr(id)));
      states(1);
      break;
    }
    case Op::Free:
    {
      Val a = in(0);
      ub(a.p != 0, "frees poison");
      if (symx_concretize(a.v == 0)) { states(0); break; }
      u64 off;
      unsigned id = resolve(a.v, 0, off);
      ub(objs[id].stack || objs[id].ext || off != 0, "frees memory that was not allocated");
      hb.set(access(id, 0, objs[id].size, true, hb));
      objs[id].alive = false;
      states(0);
      break;
    }
    case Op::Gep: outv(0, gepIndexed(n, env, static_cast<const jl::GetElementPtrOperation &>(o))); break;
    case Op::MemCpy:
    case Op::MemMove:
    {
      Val d = in(0), s = in(1), l = in(2);
      ub((d.p | s.p | l.p) != 0, "copies through poison");
      u64 len = symx_concretize(l.v & maskOf(bitsOf(*n.input(2)->Type())));
      if (len)
      {
        if (len > 256) { ub(true, "copies outside any live object"); symx_end(); }
        u64 so, dOff;
        unsigned si = resolve(s.v, len, so), di = resolve(d.v, len, dOff);
        if (I.op == Op::MemCpy && si == di) ub(!((so + len <= dOff) | (dOff + len <= so) | (so == dOff)), "copies overlapping memory");
        unsigned e1 = access(si, so, len, false, hb);
        HB h2 = hb;
        h2.set(e1);
        unsigned e2 = access(di, dOff, len, true, h2);
        hb.set(e1);
        hb.set(e2);
        if (!objs[si].pt.empty()) so = symx_concretize(so), dOff = symx_concretize(dOff);
        auto pts = ptrsIn(si, so, len);
        std::vector<Val> tmp;
        for (u64 i = 0; i < len; i++) tmp.push_back(rawLoad(si, so + i, 1));
        for (u64 i = 0; i < len; i++) rawStore(di, dOff + i, 1, tmp[i]);
        for (u64 i = 0; i < len; i++) if (pts[i]) noteStoredPointer(di, dOff + i);
      }
      states(0);
      break;
    }
    case Op::MemSet:
    {
      Val d = in(0), v = in(1), l = in(2);
      ub((d.p | l.p) != 0, "sets memory through poison");
      u64 len = symx_concretize(l.v & maskOf(bitsOf(*n.input(2)->Type())));
      if (len)
      {
        if (len > 256) { ub(true, "sets memory outside any live object"); symx_end(); }
        u64 dOff;
        unsigned di = resolve(d.v, len, dOff);
        hb.set(access(di, dOff, len, true, hb));
        for (u64 i = 0; i < len; i++) rawStore(di, dOff + i, 1, v);
      }
      states(0);
      break;
    }
    case Op::MemCpyV: symx_error("volatile memcpy"); break;
    case Op::Call: runCall(n, env, hb); break;
    case Op::StateOp: states(0); break;
    case Op::IoBarrier:
    {
      Val v = in(0);
      outv(0, v);
      states(1);
      break;
    }
    case Op::SExt:
    {
      Val x = in(0);
      outv(0, Val(sx(x.v, bitsOf(*n.input(0)->Type())) & maskOf(bitsOf(*n.output(0)->Type())), x.p));
      break;
    }
    case Op::ZExt:
    {
      Val x = in(0);
      outv(0, Val(x.v & maskOf(bitsOf(*n.input(0)->Type())), x.p));
      break;
    }
    case Op::Trunc:
    {
      Val x = in(0);
      outv(0, Val(x.v & maskOf(bitsOf(*n.output(0)->Type())), x.p));
      break;
    }
    case Op::BitCast:
    case Op::PtrToInt:
    case Op::IntToPtr:
    case Op::FnToPtr:
    case Op::PtrToFn:
    {
      Val x = in(0);
      if (!x.a) x.v &= maskOf(bitsOf(*n.output(0)->Type()));
      outv(0, x);
      break;
    }
    case Op::CtlToInt: outv(0, in(0)); break;
    case Op::Undef:
      if (isState(*n.output(0)->Type())) outv(0, Val());
      else outv(0, zeroOf(*n.output(0)->Type(), 1));
      break;
    case Op::Poison: outv(0, zeroOf(*n.output(0)->Type(), 1)); break;
    case Op::Freeze:
    {
      Val x = in(0);
      if (x.a) symx_error("freeze of an aggregate");
      outv(0, Val(symx_ite(x.p != 0, 0, x.v), 0));
      break;
    }
    case Op::NullPtr: outv(0, Val(0)); break;
    case Op::PtrCmp:
    {
      IOp c = IOp::Eq;
      switch (static_cast<const jl::PtrCmpOperation &>(o).predicate())
      {
      case jl::ICmpPredicate::Eq: c = IOp::Eq; break;
      case jl::ICmpPredicate::Ne: c = IOp::Ne; break;
      case jl::ICmpPredicate::Ugt: c = IOp::Ugt; break;
      case jl::ICmpPredicate::Uge: c = IOp::Uge; break;
      case jl::ICmpPredicate::Ult: c = IOp::Ult; break;
      case jl::ICmpPredicate::Ule: c = IOp::Ule; break;
      case jl::ICmpPredicate::Sgt: c = IOp::Sgt; break;
      case jl::ICmpPredicate::Sge: c = IOp::Sge; break;
      case jl::ICmpPredicate::Slt: c = IOp::Slt; break;
      case jl::ICmpPredicate::Sle: c = IOp::Sle; break;
      }
      Val pa = in(0), pb = in(1);
      if (symx_is_symbolic(pa.v) || symx_is_symbolic(pb.v)) pa = canonVal(pa), pb = canonVal(pb);
      outv(0, evalInt(c, 64, pa, pb, ubf));
      break;
    }
    case Op::ConstFP:
    {
      auto ap = static_cast<const jl::ConstantFP &>(o).constant().bitcastToAPInt();
      outv(0, Val(ap.extractBitsAsZExtValue(std::min(64u, ap.getBitWidth()), 0)));
      break;
    }
    case Op::Struct:
    case Op::Array:
    {
      Val r;
      r.a = std::make_shared<std::vector<Val>>();
      for (size_t i = 0; i < n.ninputs(); i++) r.a->push_back(in(i));
      outv(0, r);
      break;
    }
    case Op::AggZero: outv(0, zeroOf(*n.output(0)->Type())); break;
    case Op::ExtractValue:
    {
      Val x = in(0);
      for (auto i : static_cast<const jl::ExtractValueOperation &>(o)) x = elem(x, i);
      outv(0, x);
      break;
    }
    case Op::InsertValue:
    {
      Val x = in(0);
      auto ixs = static_cast<const jl::InsertValueOperation &>(o).getIndices();
      outv(0, insertInto(x, ixs, 0, in(1)));
      break;
    }
    case Op::VarArgs:
    {
      Val r;
      r.a = std::make_shared<std::vector<Val>>();
      for (size_t i = 0; i < n.ninputs(); i++) r.a->push_back(in(i));
      outv(0, r);
      break;
    }
    case Op::UMin:
    case Op::UMax:
    case Op::SMin:
    case Op::SMax:
    {
      Val a = in(0), b = in(1);
      unsigned w = bitsOf(*n.output(0)->Type());
      bool lt = I.op == Op::UMin || I.op == Op::UMax ? a.v < b.v : (i64)sx(a.v, w) < (i64)sx(b.v, w);
      bool mn = I.op == Op::UMin || I.op == Op::SMin;
      outv(0, Val(symx_ite(lt == mn, a.v, b.v), a.p | b.p));
      break;
    }
    default:
    {
      // uninterpreted: a function of the operands
      u64 h = I.uf;
      u8 p = 0;
      for (size_t i = 0; i < n.ninputs(); i++)
      {
        if (isState(*n.input(i)->Type())) continue;
        Val x = in(i);
        if (x.a) symx_error(("operation " + o.debug_string()).c_str());
        h = mix(h, x.v);
        p |= x.p;
      }
      for (size_t i = 0; i < n.noutputs(); i++)
      {
        auto & t = *n.output(i)->Type();
        if (isState(t)) { outv(i, Val()); continue; }
        outv(i, Val(mix(h, i) & maskOf(bitsOf(t)), p));
      }
    }
    }
  }
  Val insertInto(const Val & agg, const std::vector<unsigned> & ix, size_t k, const Val & v)
  {
    if (k == ix.size()) return v;
    Val r;
    if (!agg.a) symx_error("insertvalue into a scalar");
    r.a = std::make_shared<std::vector<Val>>(*agg.a);
    if (ix[k] >= r.a->size()) symx_error("insertvalue index");
    (*r.a)[ix[k]] = insertInto((*agg.a)[ix[k]], ix, k + 1, v);
    return r;
  }

  virtual ~Eval() = default;
  virtual bool hasBody(u64 fid) { return lambdas.count(fid); }
  virtual std::vector<Val> runBody(u64 fid, const std::vector<Val> & args) { return runLambda(*lambdas.at(fid), args); }
  void runCall(const rv::Node & n, Env & env, HB hb)
  {
    Val f = get(env, n.input(0)->origin());
    ub(f.p != 0, "calls through poison");
    u64 fid = symx_concretize(f.v) >> 32;
    if (fid < FN_BASE || fid - FN_BASE >= W.fnNames.size()) { ub(true, "calls something that is not a function"); symx_end(); }
    unsigned ev0 = evs.size();
    if (hasBody(fid))
    {
      std::vector<Val> args;
      for (size_t i = 1; i < n.ninputs(); i++)
      {
        Val v = get(env, n.input(i)->origin());
        v.hb = hb;
        args.push_back(v);
      }
      auto res = runBody(fid, args);
      HB out = hb;
      for (unsigned i = ev0; i < evs.size(); i++) out.set(i);
      if (res.size() != n.noutputs()) { ub(true, "calls a function with the wrong number of results"); symx_end(); }
      for (size_t i = 0; i < res.size(); i++)
      {
        res[i].hb = out;
        env[n.output(i)] = res[i];
      }
      return;
    }
    std::vector<Val> args;
    for (size_t i = 1; i < n.ninputs(); i++)
      if (!isState(*n.input(i)->Type()))
      {
        Val v = get(env, n.input(i)->origin());
        if (v.a) for (auto & x : *v.a) args.push_back(x);
        else args.push_back(v);
      }
    std::vector<unsigned> rb;
    for (size_t i = 0; i < n.noutputs(); i++)
      if (!isState(*n.output(i)->Type())) rb.push_back(bitsOf(*n.output(i)->Type()));
    auto res = world(fid, args, rb, hb, true);
    size_t k = 0;
    for (size_t i = 0; i < n.noutputs(); i++)
    {
      Val v = isState(*n.output(i)->Type()) ? Val() : res[k++];
      v.hb = hb;
      env[n.output(i)] = v;
    }
  }

  // --- entry ------------------------------------------------------------------------------------------------------------------------
  // runs the function with the given value arguments (states are supplied)
  Outcome run(const rv::LambdaNode & l, const std::vector<Val> & vals)
  {
    std::vector<Val> args;
    size_t k = 0;
    for (auto a : l.GetFunctionArguments())
    {
      if (isState(*a->Type())) args.push_back(Val());
      else
      {
        if (k >= vals.size()) { symx_fail("function has more parameters than the original"); symx_end(); }
        args.push_back(vals[k++]);
      }
    }
    Outcome out;
    try
    {
      auto res = runLambda(l, args);
      for (auto & v : res) escapeVal(v);
      expose();
      auto rs = l.GetFunctionResults();
      for (size_t i = 0; i < res.size(); i++)
        if (!isState(*rs[i]->Type()))
        {
          escapeVal(res[i]);
          out.results.push_back(canonVal(res[i]));
        }
    }
    catch (Stop &)
    {
      out.exited = true;
    }
    out.mem = snapshot();
    out.ntrace = traceIdx;
    return out;
  }
};

// --- finding functions ---------------------------------------------------------------------------------------------------------
inline const rv::LambdaNode * findLambda(const rv::Region & r, const std::string & name)
{
  for (auto & n : r.Nodes())
  {
    if (auto l = dynamic_cast<const rv::LambdaNode *>(&n))
      if (Eval::lambdaName(*l) == name) return l;
    if (auto p = dynamic_cast<const rv::PhiNode *>(&n))
      if (auto l = findLambda(*p->subregion(), name)) return l;
  }
  return nullptr;
}
// makes every function of the module callable (function values are resolved lazily otherwise)
inline void registerAll(Eval & e, const rv::Region & r)
{
  for (auto & n : r.Nodes())
  {
    if (auto l = dynamic_cast<const rv::LambdaNode *>(&n)) e.resolveStatic(l->output());
    if (auto p = dynamic_cast<const rv::PhiNode *>(&n)) registerAll(e, *p->subregion());
    if (auto d = dynamic_cast<const rv::DeltaNode *>(&n)) e.resolveStatic(&d->output());
  }
}

// --- well-formedness ---------------------------------------------------------------------------------------------------------------
inline void checkRegion(const rv::Region & r);
inline void checkOutput(const rv::Output & o, const rv::Region & r)
{
  size_t k = 0;
  symx_assert(o.region() == &r, "an output belongs to another region");
  for (auto & u : o.Users())
  {
    k++;
    symx_assert(u.origin() == &o, "a user of a value does not have it as its origin");
    symx_assert(u.region() == &r, "a value is used in another region");
  }
  symx_assert(k == o.nusers(), "the number of users is wrong");
  symx_assert((k == 0) == o.IsDead(), "a value with users is dead, or one without is not");
}
inline void checkInput(const rv::Input & i, const rv::Region & r)
{
  auto o = i.origin();
  symx_assert(o && o->region() == &r, "an input's origin is in another region");
  bool f = false;
  for (auto & u : o->Users())
    if (&u == &i) f = true;
  symx_assert(f, "an input is not among the users of its origin");
  symx_assert(*i.Type() == *o->Type(), "an input and its origin have different types");
}
inline void checkNode(const rv::Node & n, const rv::Region & r)
{
  symx_assert(n.region() == &r, "a node belongs to another region");
  for (size_t i = 0; i < n.ninputs(); i++)
  {
    symx_assert(n.input(i)->index() == i, "an input has a wrong index");
    checkInput(*n.input(i), r);
  }
  bool dead = true;
  for (size_t i = 0; i < n.noutputs(); i++)
  {
    symx_assert(n.output(i)->index() == i, "an output has a wrong index");
    checkOutput(*n.output(i), r);
    dead = dead && n.output(i)->nusers() == 0;
  }
  symx_assert(n.IsDead() == dead, "a node with used outputs is dead, or one without is not");
  if (auto s = dynamic_cast<const rv::SimpleNode *>(&n))
  {
    auto & op = s->GetOperation();
    symx_assert(op.narguments() == n.ninputs() && op.nresults() == n.noutputs(), "a node does not match its operation");
    for (size_t i = 0; i < n.ninputs(); i++)
      symx_assert(*op.argument(i) == *n.input(i)->Type(), "an input does not have its operation's type");
    for (size_t i = 0; i < n.noutputs(); i++)
      symx_assert(*op.result(i) == *n.output(i)->Type(), "an output does not have its operation's type");
  }
  if (auto s = dynamic_cast<const rv::StructuralNode *>(&n))
  {
    for (size_t k = 0; k < s->nsubregions(); k++)
    {
      auto & sr = *s->subregion(k);
      symx_assert(sr.node() == s && sr.index() == k, "a subregion does not know its node");
      checkRegion(sr);
    }
    if (auto g = dynamic_cast<const rv::GammaNode *>(s))
    {
      auto ct = dynamic_cast<const rv::ControlType *>(g->predicate()->Type().get());
      symx_assert(ct && ct->nalternatives() == g->nsubregions(), "a conditional's predicate does not match its alternatives");
      for (size_t k = 0; k < g->nsubregions(); k++)
      {
        auto & sr = *g->subregion(k);
        symx_assert(sr.nresults() == g->noutputs(), "a conditional's alternatives have different results");
        for (size_t i = 0; i < sr.nresults(); i++)
          symx_assert(*sr.result(i)->Type() == *g->output(i)->Type(), "a conditional's result has a different type");
      }
      for (auto & ev : g->GetEntryVars())
      {
        symx_assert(ev.branchArgument.size() == g->nsubregions(), "an entry variable lacks an argument");
        for (auto a : ev.branchArgument) symx_assert(*a->Type() == *ev.input->Type(), "an entry variable has different types");
      }
    }
    if (auto t = dynamic_cast<const rv::ThetaNode *>(s))
    {
      auto ct = dynamic_cast<const rv::ControlType *>(t->predicate()->Type().get());
      symx_assert(ct && ct->nalternatives() == 2, "a loop's predicate does not have two alternatives");
      symx_assert(t->ninputs() == t->noutputs() && t->subregion()->narguments() == t->ninputs() && t->subregion()->nresults() == t->noutputs() + 1,
          "a loop's variables do not match");
      for (auto & lv : t->GetLoopVars())
        symx_assert(*lv.input->Type() == *lv.pre->Type() && *lv.pre->Type() == *lv.post->Type() && *lv.post->Type() == *lv.output->Type(),
            "a loop variable has different types");
    }
    if (auto l = dynamic_cast<const rv::LambdaNode *>(s))
    {
      auto & ft = l->GetOperation().type();
      auto fa = l->GetFunctionArguments();
      auto fr = l->GetFunctionResults();
      symx_assert(fa.size() == ft.NumArguments() && fr.size() == ft.NumResults(), "a function does not match its type");
      for (size_t i = 0; i < fa.size(); i++) symx_assert(*fa[i]->Type() == ft.ArgumentType(i), "a parameter has a wrong type");
      for (size_t i = 0; i < fr.size(); i++) symx_assert(*fr[i]->Type() == ft.ResultType(i), "a function result has a wrong type");
    }
  }
}
inline void checkRegion(const rv::Region & r)
{
  size_t n = 0, top = 0, bottom = 0;
  std::unordered_set<const rv::Node *> tops, bottoms, nodes;
  for (auto & x : r.TopNodes()) tops.insert(&x), top++;
  for (auto & x : r.BottomNodes()) bottoms.insert(&x), bottom++;
  for (size_t i = 0; i < r.narguments(); i++)
  {
    symx_assert(r.argument(i)->index() == i, "an argument has a wrong index");
    checkOutput(*r.argument(i), r);
  }
  for (auto & x : r.Nodes())
  {
    n++;
    nodes.insert(&x);
    checkNode(x, r);
    symx_assert((x.ninputs() == 0) == (tops.count(&x) != 0), "the region's top nodes are not its nodes without inputs");
    symx_assert(x.IsDead() == (bottoms.count(&x) != 0), "the region's bottom nodes are not its dead nodes");
  }
  symx_assert(nodes.size() == n, "a region lists a node twice");
  symx_assert(n == r.numNodes() && top == r.numTopNodes() && bottom == r.numBottomNodes(), "a region's node counts are wrong");
  symx_assert(top == tops.size() && bottom == bottoms.size(), "a region lists a top or bottom node twice");
  for (auto x : tops) symx_assert(nodes.count(x), "a top node is not a node of its region");
  for (auto x : bottoms) symx_assert(nodes.count(x), "a bottom node is not a node of its region");
  for (size_t i = 0; i < r.nresults(); i++)
  {
    symx_assert(r.result(i)->index() == i, "a result has a wrong index");
    checkInput(*r.result(i), r);
  }
  // acyclic
  std::unordered_map<const rv::Node *, unsigned> deg;
  std::vector<const rv::Node *> ready;
  for (auto x : nodes)
  {
    unsigned d = 0;
    for (size_t i = 0; i < x->ninputs(); i++)
    {
      auto ow = x->input(i)->origin()->GetOwner();
      if (std::get_if<rv::Node *>(&ow)) d++;
    }
    deg[x] = d;
    if (!d) ready.push_back(x);
  }
  size_t done = 0;
  while (!ready.empty())
  {
    auto x = ready.back();
    ready.pop_back();
    done++;
    for (size_t i = 0; i < x->noutputs(); i++)
      for (auto & u : x->output(i)->Users())
      {
        auto ow = u.GetOwner();
        if (auto p = std::get_if<rv::Node *>(&ow))
          if (--deg[*p] == 0) ready.push_back(*p);
      }
  }
  symx_assert(done == n, "a region contains a dependency cycle");
}
inline void checkGraph(const rv::Graph & g) { checkRegion(g.GetRootRegion()); }

// --- translation validation -----------------------------------------------------------------------------------------------------------
struct Prog
{
  std::unique_ptr<jl::LlvmRvsdgModule> m;
  std::string fn = "f";
};

inline void runPass(rv::Transformation & t, jl::LlvmRvsdgModule & m)
{
  jlm::util::StatisticsCollector sc;
  t.Run(m, sc);
}

// evaluates function fn of both modules on the same (symbolic) arguments and compares
inline void compareModules(World & w, const jl::LlvmRvsdgModule & a, const jl::LlvmRvsdgModule & b, const std::vector<Val> & args,
    const std::string & fn = "f")
{
  auto la = findLambda(a.Rvsdg().GetRootRegion(), fn);
  auto lb = findLambda(b.Rvsdg().GetRootRegion(), fn);
  if (!la) symx_error("no function");
  if (!lb) { symx_fail("the function is gone"); symx_end(); }
  Outcome oa, ob;
  {
    Eval e(w, Orig);
    registerAll(e, a.Rvsdg().GetRootRegion());
    e.environmentInit();
    oa = e.run(*la, args);
  }
  symx_reach("original evaluated");
  {
    Eval e(w, Trans);
    registerAll(e, b.Rvsdg().GetRootRegion());
    ob = e.run(*lb, args);
  }
  compareOutcomes(oa, ob);
  symx_reach("compared");
  for (auto & r : ob.results) symx_observe(r.a ? r.a->size() : r.v);
  for (auto & m : ob.mem)
    for (auto x : m.b) symx_observe(x);
  symx_observe(ob.ntrace);
}
}
