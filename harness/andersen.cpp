// Every way to solve the constraints of the points-to analysis gives the least solution.
// arg0: family: 0 subset cycles, 1 loads and stores, 2 flags, 3 function calls; arg1: free constraints; arg2: 1 = all configurations
#include "jv_build.hpp"
#include <jlm/llvm/opt/alias-analyses/Andersen.hpp>
#include <jlm/llvm/opt/alias-analyses/PointerObjectSet.hpp>
using namespace jv;
namespace aa = jl::aa;
using Idx = aa::PointerObjectIndex;
// the definition: one bit per object
struct Oracle
{
  struct C { int kind; Idx a, b; }; // 0 a >= b, 1 *a >= b, 2 a >= *b, 3 call
  unsigned n = 0;
  std::vector<u64> pts;
  u64 ext = 0, pe = 0, ss = 0, ls = 0, esc = 0, mem = 0;
  std::vector<C> cs;
  Idx fn = 0, imp = 0, fa = 0, fr = 0, ca = 0, cr = 0;
  bool calls = false;
  u64 sol(Idx x) const { return pts[x] | ((ext >> x & 1) ? esc : 0); }
  void super(Idx a, Idx b)
  {
    pts[a] |= pts[b];
    ext |= (ext >> b & 1) << a;
  }
  void solve()
  {
    for (;;)
    {
      auto o = pts;
      u64 h = ext + 3 * pe + 7 * esc;
      for (auto & c : cs)
      {
        u64 s = c.kind == 1 || c.kind == 3 ? sol(c.a) : c.kind == 2 ? sol(c.b) : 0;
        if (c.kind == 0) super(c.a, c.b);
        for (Idx x = 0; x < n; x++)
          if (s >> x & 1)
          {
            if (c.kind == 1) super(x, c.b);
            if (c.kind == 2) super(c.a, x);
            if (c.kind == 3 && x == fn) super(fa, ca), super(cr, fr);
            if (c.kind == 3 && x == imp) pe |= 1ull << ca, ext |= 1ull << cr;
          }
        if (c.kind == 1 && (ext >> c.a & 1)) pe |= 1ull << c.b;
        if (c.kind == 2 && (ext >> c.b & 1)) ext |= 1ull << c.a;
        if (c.kind == 3 && (ext >> c.a & 1)) pe |= 1ull << ca, ext |= 1ull << cr;
      }
      for (Idx x = 0; x < n; x++)
      {
        if (ss >> x & 1) ext |= sol(x);
        if (ls >> x & 1) pe |= sol(x);
        if (pe >> x & 1) esc |= pts[x];
      }
      ext |= esc, pe |= esc;
      if (calls && (esc >> fn & 1)) ext |= 1ull << fa, pe |= 1ull << fr;
      if (o == pts && h == ext + 3 * pe + 7 * esc) return;
    }
  }
};
struct Config { bool ovs, norm, naive; int policy; bool ocd, hcd, lcd, dp, pip; };
static std::vector<Config> configs(bool all)
{
  std::vector<Config> r;
  unsigned k = 0;
  for (int ovs = 0; ovs < 2; ovs++)
  {
    for (int norm = 0; norm < 2; norm++) r.push_back({ !!ovs, !!norm, true, 0, false, false, false, false, false });
    for (int p = 0; p < 5; p++)
      for (int cyc = 0; cyc < (p == 2 ? 1 : 5); cyc++)
        for (int x = 0; x < 8; x++)
        {
          bool ocd = cyc == 1, hcd = cyc == 2 || cyc == 4, lcd = cyc == 3 || cyc == 4;
          if (hcd && !ovs) continue;
          // all of them, or a fraction in which any two settings meet
          if (!all && (x & 3) != (unsigned)((cyc + p + ovs) & 3)) continue;
          if (!all && (x >> 2) != (int)(k++ & 1)) continue;
          r.push_back({ !!ovs, !!(x >> 2), false, p, ocd, hcd, lcd, !!(x & 1), !!(x & 2) });
        }
  }
  return r;
}
void harness_main()
{
  unsigned fam = symx_arg(0), K = symx_arg(1), all = symx_arg(2);
  Choices ch;
  auto m = newModule();
  auto & root = m->Rvsdg().GetRootRegion();
  auto imp = &jl::LlvmGraphImport::createFunctionImport(m->Rvsdg(), Fn::mkType({ ptrT() }, { ptrT() }), "imp", jl::Linkage::externalLinkage, jl::CallingConvention::Default);
  auto calleeTy = Fn::mkType({ ptrT() }, { ptrT() });
  auto callee = rv::LambdaNode::Create(root, jl::LlvmLambdaOperation::Create(calleeTy, "callee", jl::Linkage::externalLinkage));
  auto ca = callee->GetFunctionArguments();
  auto fnode = jl::UndefValueOperation::Create(*callee->subregion(), ptrT());
  callee->finalize({ fnode, ca[1], ca[2] });
  auto mainTy = Fn::mkType({ ptrT(), ptrT() }, { ptrT() });
  auto main = rv::LambdaNode::Create(root, jl::LlvmLambdaOperation::Create(mainTy, "main", jl::Linkage::externalLinkage));
  auto ma = main->GetFunctionArguments();
  auto & R = *main->subregion();
  auto fp = rv::CreateOpNode<jl::PointerToFunctionOperation>({ ma[0] }, calleeTy).output(0);
  auto & call = jl::CallOperation::CreateNode(fp, calleeTy, jl::CallingConvention::Default, jl::AttributeList::createEmptyList(), { ma[1], ma[2], ma[3] });
  auto one = &jl::IntegerConstantOperation::Create(R, 32, 1);
  std::vector<rv::SimpleNode *> al;
  for (int i = 0; i < 3; i++) al.push_back(rv::TryGetOwnerNode<rv::SimpleNode>(*jl::AllocaOperation::createNode(ptrT(), *one->output(0), 8).output(0)));
  main->finalize({ call.output(0), ma[2], ma[3] });

  aa::PointerObjectSet set;
  aa::PointerObjectConstraintSet cons(set);
  Oracle o;
  auto memAdd = [&](Idx i) { o.mem |= 1ull << i; return i; };
  std::vector<Idx> r, mo;
  mo.push_back(memAdd(set.CreateAllocaMemoryObject(*al[0], true)));
  mo.push_back(memAdd(set.CreateAllocaMemoryObject(*al[1], true)));
  std::vector<std::array<unsigned, 3>> opts; // kind, a, b
  auto sup = [&](Idx a, Idx b) { cons.AddConstraint(aa::SupersetConstraint(a, b)); o.cs.push_back({ 0, a, b }); };
  auto store = [&](Idx p, Idx v) { cons.AddConstraint(aa::StoreConstraint(p, v)); o.cs.push_back({ 1, p, v }); };
  auto load = [&](Idx v, Idx p) { cons.AddConstraint(aa::LoadConstraint(v, p)); o.cs.push_back({ 2, v, p }); };
  std::vector<std::pair<Idx, Idx>> base;
  auto allPairs = [&](unsigned kind, bool self = false) {
    for (Idx a : r)
      for (Idx b : r)
        if (a != b || self) opts.push_back({ kind, a, b });
  };
  unsigned flags = 0;
  bool call3 = fam == 3;
  if (call3)
  {
    o.calls = true;
    o.fn = memAdd(set.CreateFunctionMemoryObject(*callee));
    o.imp = memAdd(set.CreateImportMemoryObject(*imp, false));
    o.fa = set.CreateRegisterPointerObject(*ca[0]);
    o.fr = set.CreateRegisterPointerObject(*fnode);
    o.ca = set.CreateRegisterPointerObject(*ma[1]);
    o.cr = set.CreateRegisterPointerObject(*call.output(0));
    r = { o.fa, o.fr, o.ca, o.cr };
    Idx f = set.CreateRegisterPointerObject(*ma[0]);
    r.push_back(f);
    cons.AddConstraint(aa::FunctionCallConstraint(f, call));
    o.cs.push_back({ 3, f, 0 });
    base = { { o.ca, mo[0] }, { o.fr, mo[1] } };
    switch (ch.pick(5, "target"))
    {
    case 0: base.push_back({ f, o.fn }); break;
    case 1: base.push_back({ f, o.imp }); break;
    case 2: base.push_back({ f, o.fn }), base.push_back({ f, o.imp }); break;
    case 3: opts.push_back({ 3, f, 0 }); break;
    case 4: base.push_back({ o.fa, o.fn }); break; // found later
    }
    allPairs(0), allPairs(1), allPairs(2);
    for (Idx x : r)
      for (unsigned k = 3; k < 5; k++) opts.push_back({ k, x, 0 });
    opts.push_back({ 7, o.fn, 0 });
  }
  else
  {
    for (unsigned i = 0; i < (fam == 0 ? 4 : 3); i++) r.push_back(fam == 0 && i == 3 ? set.CreateDummyRegisterPointerObject() : set.CreateRegisterPointerObject(*undef(R, ptrT())));
    base = { { r[0], mo[0] } };
    if (fam == 1) base.push_back({ r[1], mo[1] });
    if (fam == 0) allPairs(0), opts.push_back({ 1, r[1], r[0] }), opts.push_back({ 2, r[2], r[1] }), opts.push_back({ 2, r[0], r[3] }), opts.push_back({ 8, mo[0], r[3] }), opts.push_back({ 8, r[3], mo[0] });
    else allPairs(0), allPairs(1, true), allPairs(2, true);
    if (fam == 2)
    {
      base.push_back({ r[1], memAdd(set.CreateAllocaMemoryObject(*al[2], false)) });
      flags = opts.size();
      for (Idx x : r)
        for (unsigned k = 3; k < 7; k++) opts.push_back({ k, x, 0 });
      opts.push_back({ 7, mo[0], 0 }), opts.push_back({ 7, mo[1], 0 });
      opts.push_back({ 9, r[0], mo[1] });
    }
  }
  o.n = set.NumPointerObjects();
  o.pts.resize(o.n);
  for (Idx i = 0; i < o.n; i++)
  {
    if (!set.CanPoint(i)) o.ext |= 1ull << i, o.pe |= 1ull << i;
    if (set.HasEscaped(i)) o.esc |= 1ull << i;
  }
  for (auto & b : base) cons.AddPointerPointeeConstraint(b.first, b.second), o.pts[b.first] |= 1ull << b.second;
  auto add = [&](std::array<unsigned, 3> c) {
    switch (c[0])
    {
    case 0: case 8: sup(c[1], c[2]); break;
    case 1: store(c[1], c[2]); break;
    case 2: load(c[1], c[2]); break;
    case 3: cons.AddPointsToExternalConstraint(c[1]); o.ext |= 1ull << c[1]; break;
    case 4: cons.AddRegisterContentEscapedConstraint(c[1]); o.pe |= 1ull << c[1]; break;
    case 5: set.MarkAsStoringAsScalar(c[1]); o.ss |= 1ull << c[1]; break;
    case 6: set.MarkAsLoadingAsScalar(c[1]); o.ls |= 1ull << c[1]; break;
    case 7: set.MarkAsEscaped(c[1]); o.esc |= 1ull << c[1]; break;
    case 9: cons.AddPointerPointeeConstraint(c[1], c[2]); o.pts[c[1]] |= 1ull << c[2]; break;
    }
  };
  // a set of K constraints; of the flags, at least one
  unsigned from = 0, nf = 0;
  for (unsigned i = 0; i < K; i++)
  {
    unsigned left = K - i, max = opts.size() - left + 1;
    unsigned lo = from;
    if (fam == 2 && i + 1 == K && nf == 0 && lo < flags) lo = flags;
    unsigned x = lo + ch.pick(max - lo, "constraint");
    nf += x >= flags;
    add(opts[x]);
    from = x + 1;
  }
  o.solve();
  bool derefs = true;
  for (auto & k : o.cs)
    if (k.kind == 1 || k.kind == 2)
    {
      Idx p = k.kind == 1 ? k.a : k.b;
      derefs &= o.sol(p) || (o.ext >> p & 1);
    }
  using Policy = aa::PointerObjectConstraintSet::WorklistSolverPolicy;
  const Policy pol[5] = { Policy::LeastRecentlyFired, Policy::TwoPhaseLeastRecentlyFired, Policy::TopologicalSort, Policy::FirstInFirstOut, Policy::LastInFirstOut };
  for (auto & c : configs(all))
  {
    auto w = cons.Clone();
    if (c.ovs) w.second->PerformOfflineVariableSubstitution(c.hcd);
    if (c.norm) w.second->NormalizeConstraints();
    if (c.naive) w.second->SolveNaively();
    else w.second->SolveUsingWorklist(pol[c.policy], c.ocd, c.hcd, c.lcd, c.dp, c.pip);
    auto & s = *w.first;
    // offline variable substitution only promises this if every pointer that is accessed points to something
    bool exact = !c.ovs || derefs;
    auto agree = [&](bool got, bool want) { return exact ? got == want : got || !want; };
    for (Idx x = 0; x < o.n; x++)
    {
      symx_assert(agree(s.HasEscaped(x), o.esc >> x & 1), "what escapes is wrong");
      symx_assert(agree(s.IsPointingToExternal(x), o.ext >> x & 1), "what points to external memory is wrong");
      for (Idx y = 0; y < o.n; y++)
        if (o.mem >> y & 1) symx_assert(agree(s.IsPointingTo(x, y), o.sol(x) >> y & 1), "what points where is wrong");
    }
  }
  symx_reach("solved");
}
