// What the alias analyses say about a program, against what happens when it runs.
#pragma once
#include "jv_build.hpp"
#include <jlm/llvm/opt/alias-analyses/AliasAnalysis.hpp>
#include <jlm/llvm/opt/alias-analyses/Andersen.hpp>
#include <jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.hpp>
#include <jlm/llvm/opt/alias-analyses/PointsToGraph.hpp>
#include <jlm/llvm/opt/alias-analyses/PointsToGraphAliasAnalysis.hpp>
namespace jv
{
namespace aa = jl::aa;
struct AliasProbe : Probe
{
  struct Act { const rv::Region * r; int parent; };
  struct Acc { int act; const rv::Output * p; unsigned obj; u64 off, len; };
  std::vector<Act> acts;
  std::vector<Acc> accs;
  int cur = -1;
  Eval * e = nullptr;
  const aa::PointsToGraph * g = nullptr; // checks where pointers point
  std::set<std::pair<const rv::Output *, unsigned>> seen;
  std::unordered_map<std::string, const rv::GraphImport *> imports;
  static bool is(const rv::Output & o) { return dynamic_cast<const jl::PointerType *>(o.Type().get()) != nullptr; }
  // does a node of the graph target the object?
  void targets(aa::PointsToGraph::NodeIndex n, u64 id, const char * msg)
  {
    auto to = [&](aa::PointsToGraph::NodeIndex t) { symx_assert(g->isTargeting(n, t), msg); };
    if (id >= FN_BASE)
    {
      auto l = e->lambdas.find(id);
      if (l != e->lambdas.end()) return to(g->getNodeForLambda(*l->second));
      auto i = imports.find(e->W.fnNames.at(id - FN_BASE));
      if (i != imports.end()) return to(g->getNodeForImport(*i->second));
      return to(aa::PointsToGraph::externalMemoryNode);
    }
    auto & o = e->objs.at(id);
    if (!o.src)
    {
      auto i = imports.find(o.name);
      if (i != imports.end() && g->isTargeting(n, g->getNodeForImport(*i->second))) return;
      return to(aa::PointsToGraph::externalMemoryNode);
    }
    auto s = static_cast<const rv::Node *>(o.src);
    to(node(s));
  }
  aa::PointsToGraph::NodeIndex node(const rv::Node * s)
  {
    if (auto d = dynamic_cast<const rv::DeltaNode *>(s)) return g->getNodeForDelta(*d);
    auto sn = dynamic_cast<const rv::SimpleNode *>(s);
    return jlm::rvsdg::is<jl::AllocaOperation>(sn) ? g->getNodeForAlloca(*sn) : g->getNodeForMalloc(*sn);
  }
  // the object a pointer points to; false: none
  bool object(const Val & v, u64 & id)
  {
    if (v.a || symx_concretize(v.p)) return false;
    id = symx_concretize(v.v >> 32);
    if (id == 0) return false;
    if (id >= FN_BASE) return id - FN_BASE < e->W.fnNames.size();
    if (id >= e->objs.size()) return false;
    return symx_concretize((v.v & 0xffffffffu) <= e->objs[id].size);
  }
  void enter(const rv::Region & r, const std::unordered_map<const rv::Output *, Val> &) override
  {
    acts.push_back({ &r, cur });
    cur = acts.size() - 1;
  }
  void leave(const rv::Region & r, const std::unordered_map<const rv::Output *, Val> & env) override
  {
    cur = acts[cur].parent;
    if (!g || dynamic_cast<const rv::DeltaNode *>(r.node())) return;
    std::vector<const rv::Output *> os; // in the order of the program
    for (size_t i = 0; i < r.narguments(); i++) os.push_back(r.argument(i));
    for (auto n : e->order(r))
      for (size_t i = 0; i < n->noutputs(); i++) os.push_back(n->output(i));
    for (auto o : os)
    {
      auto it = env.find(o);
      if (it == env.end() || !is(*o)) continue;
      u64 id;
      if (symx_is_symbolic(it->second.v >> 32))
      {
        // the choice between two pointers; otherwise, numbers taken for a pointer
        auto n = rv::TryGetOwnerNode<rv::SimpleNode>(*o);
        if (!n || !jlm::rvsdg::is<jl::SelectOperation>(n)) continue;
        auto a = env.find(n->input(1)->origin()), b = env.find(n->input(2)->origin());
        if (a == env.end() || b == env.end() || symx_is_symbolic(a->second.v) || symx_is_symbolic(b->second.v)) continue;
      }
      if (!object(it->second, id)) continue;
      symx_assert(g->hasNodeForRegister(*o), "a pointer is not in the points-to graph");
      targets(g->getNodeForRegister(*o), id, "a pointer points to something that is not in its points-to set");
      symx_reach("pointer");
    }
  }
  void access(const rv::Output & p, unsigned obj, u64 off, u64 len, bool) override { accs.push_back({ cur, &p, obj, off, len }); }
  // where pointers are in memory in the end
  void finish()
  {
    for (unsigned id = 1; id < e->objs.size(); id++)
    {
      auto & o = e->objs[id];
      if (!o.src) continue;
      auto n = node(static_cast<const rv::Node *>(o.src));
      if (auto s = g->tryGetNodeSize(n)) symx_assert(*s == o.size, "the size of a memory object is wrong");
      symx_assert(!(g->isNodeConstant(n) && o.written), "a constant is written");
      for (size_t i = 0; i + 8 <= o.size && i < o.pt.size(); i++)
      {
        if (!o.pt[i]) continue;
        u64 v = 0, p = 0;
        for (unsigned k = 0; k < 8; k++) v |= (u64)o.b[i + k] << (8 * k), p |= o.pb[i + k];
        u64 t;
        if (symx_is_symbolic(v) || symx_is_symbolic(p) || p || !object(Val(v), t)) continue;
        targets(n, t, "memory holds a pointer to something that is not in its points-to set");
        symx_reach("pointer in memory");
      }
    }
  }
  int depth(int a) { int d = 0; for (; a >= 0; a = acts[a].parent) d++; return d; }
  // are they in the same execution of the innermost region that contains both?
  bool related(int a, int b)
  {
    while (a != b)
    {
      int da = depth(a), db = depth(b);
      if (da >= db && a >= 0)
      {
        // two executions of one region, or of alternatives of one conditional
        if (da == db && acts[a].r->node() == acts[b].r->node()) return false;
        a = acts[a].parent;
      }
      else b = acts[b].parent;
    }
    // leaving the function is not allowed
    return a >= 0;
  }
  bool sameFunction(int a, int b)
  {
    auto top = [&](int x) { while (x >= 0 && !dynamic_cast<const rv::LambdaNode *>(acts[x].r->node())) x = acts[x].parent; return x; };
    return top(a) == top(b);
  }
  void query(aa::AliasAnalysis & q, const char * no, const char * must)
  {
    for (size_t i = 0; i < accs.size(); i++)
      for (size_t j = i + 1; j < accs.size(); j++)
      {
        auto &x = accs[i], &y = accs[j];
        if (!sameFunction(x.act, y.act) || !related(x.act, y.act)) continue;
        auto r = q.Query(*x.p, x.len, *y.p, y.len), r2 = q.Query(*y.p, y.len, *x.p, x.len);
        if (r == aa::AliasAnalysis::NoAlias || r2 == aa::AliasAnalysis::NoAlias)
        {
          symx_assert(x.obj != y.obj || x.off + x.len <= y.off || y.off + y.len <= x.off, no);
          symx_reach("no alias");
        }
        // of one execution: a value after a loop is that of the last iteration
        if (x.act == y.act && (r == aa::AliasAnalysis::MustAlias || r2 == aa::AliasAnalysis::MustAlias))
        {
          symx_assert(x.obj == y.obj && x.off == y.off, must);
          symx_reach("must alias");
        }
      }
  }
};
// how: 0 where pointers point; 1 alias queries
inline void checkAnalyses(World & w, jl::LlvmRvsdgModule & a, const std::vector<Val> & args, const std::string & fn, unsigned how)
{
  aa::Andersen an;
  std::shared_ptr<aa::PointsToGraph> ptg = an.Analyze(a);
  Eval e(w, Orig);
  AliasProbe pr;
  pr.e = &e;
  pr.g = how == 0 ? ptg.get() : nullptr;
  auto & root = a.Rvsdg().GetRootRegion();
  for (size_t i = 0; i < root.narguments(); i++)
    if (auto gi = dynamic_cast<const rv::GraphImport *>(root.argument(i))) pr.imports[gi->Name()] = gi;
  e.probe = &pr;
  registerAll(e, root);
  e.environmentInit();
  e.run(*findLambda(root, fn), args);
  if (how == 0) pr.finish();
  else
  {
    aa::LocalAliasAnalysis local;
    aa::PointsToGraphAliasAnalysis graph(ptg);
    pr.query(local, "the local analysis says NoAlias, but the accesses overlap", "the local analysis says MustAlias, but the addresses differ");
    pr.query(graph, "the points-to analysis says NoAlias, but the accesses overlap", "the points-to analysis says MustAlias, but the addresses differ");
    aa::ChainedAliasAnalysis chain(std::make_shared<aa::LocalAliasAnalysis>(), std::make_shared<aa::PointsToGraphAliasAnalysis>(ptg));
    pr.query(chain, "the chained analyses say NoAlias, but the accesses overlap", "the chained analyses say MustAlias, but the addresses differ");
  }
  symx_reach("analysed");
}
inline void checkPointsTo(World & w, jl::LlvmRvsdgModule & a, jl::LlvmRvsdgModule &, const std::vector<Val> & args, const std::string & fn) { checkAnalyses(w, a, args, fn, 0); }
inline void checkQueries(World & w, jl::LlvmRvsdgModule & a, jl::LlvmRvsdgModule &, const std::vector<Val> & args, const std::string & fn) { checkAnalyses(w, a, args, fn, 1); }
}
