// Building RVSDG programs from choices (recorded by the first build, repeated by the second).
#pragma once
#include "jv_rvsdg.hpp"

namespace jv
{
using O = rv::Output;
using R = rv::Region;

inline O * cst(R & r, unsigned w, u64 v) { return jl::IntegerConstantOperation::Create(r, w, (int64_t)(w >= 64 ? v : v & maskOf(w))).output(0); }
inline O * ibin(IOp op, O & a, O & b)
{
  unsigned w = bitsOf(*a.Type());
  switch (op)
  {
#define C(N) case IOp::N: return jl::Integer##N##Operation::createNode(w, a, b).output(0);
    C(Add) C(Sub) C(Mul) C(SDiv) C(UDiv) C(SRem) C(URem) C(AShr) C(Shl) C(LShr) C(And) C(Or) C(Xor) C(Eq) C(Ne) C(Sge) C(Sgt) C(Sle)
    C(Slt) C(Uge) C(Ugt) C(Ule) C(Ult)
#undef C
  }
  return nullptr;
}
inline std::shared_ptr<const rv::BitType> bt(unsigned w) { return rv::BitType::Create(w); }
using Ty = std::shared_ptr<const rv::Type>;
using Tys = std::vector<Ty>;
inline Ty ptrT() { return jl::PointerType::Create(); }
inline Ty ioT() { return jl::IOStateType::Create(); }
inline Ty memT() { return jl::MemoryStateType::Create(); }

inline std::unique_ptr<jl::LlvmRvsdgModule> newModule()
{
  return std::make_unique<jl::LlvmRvsdgModule>(jlm::util::FilePath(""), "", "");
}

// a function under construction: value parameters, then io and memory state
struct Fn
{
  rv::LambdaNode * l;
  R * r;
  std::vector<O *> args; // value arguments
  O * io, * mem;
  std::shared_ptr<const rv::FunctionType> type;

  static std::shared_ptr<const rv::FunctionType> mkType(Tys a, Tys res)
  {
    a.push_back(ioT());
    a.push_back(memT());
    res.push_back(ioT());
    res.push_back(memT());
    return rv::FunctionType::Create(a, res);
  }
  Fn(R & parent, const std::string & name, const Tys & a, const Tys & res, const jl::Linkage & lk = jl::Linkage::externalLinkage)
  {
    type = mkType(a, res);
    l = rv::LambdaNode::Create(parent, jl::LlvmLambdaOperation::Create(type, name, lk));
    r = l->subregion();
    auto fa = l->GetFunctionArguments();
    for (size_t i = 0; i + 2 < fa.size(); i++) args.push_back(fa[i]);
    io = fa[fa.size() - 2];
    mem = fa[fa.size() - 1];
  }
  O * ctx(O & o) { return l->AddContextVar(o).inner; }
  O * finish(std::vector<O *> res)
  {
    res.push_back(io);
    res.push_back(mem);
    return l->finalize(res);
  }
};
inline void exportFn(jl::LlvmRvsdgModule & m, O & o, const std::string & name) { rv::GraphExport::Create(o, name); }
inline O * importFn(jl::LlvmRvsdgModule & m, const std::string & name, const Tys & a, const Tys & res)
{
  return &jl::LlvmGraphImport::createFunctionImport(m.Rvsdg(), Fn::mkType(a, res), name, jl::Linkage::externalLinkage, jl::CallingConvention::Default);
}
inline O * importGlobal(jl::LlvmRvsdgModule & m, const std::string & name, Ty t, jl::Linkage lk = jl::Linkage::externalLinkage, bool constant = false)
{
  return &jl::LlvmGraphImport::createGlobalImport(m.Rvsdg(), t, ptrT(), name, lk, constant, 1);
}
struct CallRes { std::vector<O *> vals; O * io, * mem; };
inline CallRes call(O & f, const std::vector<O *> & args, O & io, O & mem)
{
  auto ft = std::dynamic_pointer_cast<const rv::FunctionType>(f.Type());
  std::vector<O *> a(args);
  a.push_back(&io);
  a.push_back(&mem);
  auto & node = jl::CallOperation::CreateNode(&f, ft, a);
  CallRes r;
  for (size_t i = 0; i + 2 < node.noutputs(); i++) r.vals.push_back(node.output(i));
  r.io = node.output(node.noutputs() - 2);
  r.mem = node.output(node.noutputs() - 1);
  return r;
}
inline O * barrier(O & x, O & io) { return jl::IOBarrierOperation::createNode(x, io).output(0); }
// a call that takes and returns several memory states
inline CallRes callS(O & f, const std::vector<O *> & args, O & io, std::vector<O **> st)
{
  std::vector<O *> in;
  std::vector<jl::MemoryNodeId> ids;
  for (auto s : st) { ids.push_back(in.size() + 1); in.push_back(*s); }
  auto & em = jl::CallEntryMemoryStateMergeOperation::CreateNode(*io.region(), in, ids);
  auto r = call(f, args, io, *em.output(0));
  auto & ex = jl::CallExitMemoryStateSplitOperation::CreateNode(*r.mem, ids);
  for (size_t i = 0; i < st.size(); i++) *st[i] = ex.output(i);
  return r;
}
inline O * load(O & addr, O *& st, Ty t)
{
  auto & n = jl::LoadNonVolatileOperation::CreateNode(addr, { st }, t, 1);
  st = n.output(1);
  return n.output(0);
}
inline void store(O & addr, O & v, O *& st)
{
  auto & n = jl::StoreNonVolatileOperation::CreateNode(addr, v, { st }, 1);
  st = n.output(0);
}
inline O * matchEq(O & x, u64 v, u64 thenAlt = 1, u64 elseAlt = 0, size_t nalt = 2)
{
  return rv::MatchOperation::Create(x, { { v, thenAlt } }, elseAlt, nalt);
}
inline O * mergeS(const std::vector<O *> & v) { return jl::MemoryStateMergeOperation::Create(v); }
inline O * joinS(const std::vector<O *> & v) { return jl::MemoryStateJoinOperation::CreateNode(v).output(0); }
inline O * zext(O & x, unsigned w) { return jl::ZExtOperation::createNode(w, x).output(0); }
inline O * sext(O & x, unsigned w) { return jl::SExtOperation::createNode(w, x).output(0); }
inline O * trunc(O & x, unsigned w) { return jl::TruncOperation::createNode(x, bt(w)).output(0); }
inline O * undef(R & r, Ty t) { return jl::UndefValueOperation::Create(r, t); }

// --- structured control flow ---
struct Gam
{
  rv::GammaNode * g;
  Gam(O & pred, size_t n) : g(rv::GammaNode::create(&pred, n)) {}
  R & br(size_t k) { return *g->subregion(k); }
  std::vector<O *> in(O & o)
  {
    auto e = g->AddEntryVar(&o);
    return { e.branchArgument.begin(), e.branchArgument.end() };
  }
  O * out(const std::vector<O *> & v) { return g->AddExitVar(v).output; }
};
struct The
{
  rv::ThetaNode * t;
  The(R & r) : t(rv::ThetaNode::create(&r)) {}
  R & r() { return *t->subregion(); }
  rv::ThetaNode::LoopVar var(O & o) { return t->AddLoopVar(&o); }
  void pred(O & o) { t->set_predicate(&o); }
};
inline void post(const rv::ThetaNode::LoopVar & v, O & o) { v.post->divert_to(&o); }
inline O * ctl(R & r, size_t n, size_t alt) { return &rv::ControlConstantOperation::create(r, n, alt); }
inline O * nullPtr(R & r) { return jl::ConstantPointerNullOperation::createNode(r).output(0); }
inline O * gep(O & base, const std::vector<O *> & ix, Ty t) { return jl::GetElementPtrOperation::createNode(base, ix, t).output(0); }
inline O * select(O & p, O & t, O & f) { return rv::CreateOpNode<jl::SelectOperation>({ &p, &t, &f }, t.Type()).output(0); }
inline O * matchN(O & x, const std::unordered_map<uint64_t, uint64_t> & map, u64 dflt, size_t n) { return rv::MatchOperation::Create(x, map, dflt, n); }

// what a program looks like (only to tell whether a pass did anything)
inline u64 fingerprint(const rv::Region & r)
{
  std::unordered_map<const void *, u64> id;
  u64 h = r.nresults(), k = 0;
  for (auto & n : r.Nodes()) id[&n] = ++k;
  auto in = [&](const rv::Input & i) {
    auto ow = i.origin()->GetOwner();
    auto p = std::get_if<rv::Node *>(&ow);
    h = mix(h, p ? id[*p] * 64 : 7);
    h = mix(h, i.origin()->index());
  };
  for (auto & n : r.Nodes())
  {
    for (auto & i : n.Inputs()) in(i);
    h = mix(h, n.noutputs());
    if (auto s = dynamic_cast<const rv::StructuralNode *>(&n))
      for (size_t i = 0; i < s->nsubregions(); i++) h = mix(h, fingerprint(*s->subregion(i)));
  }
  for (size_t i = 0; i < r.nresults(); i++) in(*r.result(i));
  return h;
}
// set by passes that leave the RVSDG: compares instead of compareModules
inline std::function<void(World &, jl::LlvmRvsdgModule &, jl::LlvmRvsdgModule &, const std::vector<Val> &, const std::string &)> compareHook;
// builds the same program twice, applies transform to the second, checks it
template<class BuildF, class TransF>
void validate(World & w, BuildF build, TransF transform, const std::vector<Val> & args, const std::string & fn = "f")
{
  Choices ch;
  std::unique_ptr<jl::LlvmRvsdgModule> a = build(ch);
  ch.rewind();
  std::unique_ptr<jl::LlvmRvsdgModule> b = build(ch);
  u64 fp = fingerprint(b->Rvsdg().GetRootRegion());
  transform(*b);
  if (fp != fingerprint(b->Rvsdg().GetRootRegion())) symx_reach("changed");
  checkGraph(b->Rvsdg());
  if (compareHook) return compareHook(w, *a, *b, args, fn);
  compareModules(w, *a, *b, args, fn);
}
}
