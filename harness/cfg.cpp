// Control flow graphs of any shape become structured, then RVSDG.
// arg0: stage: 0 SSA destruction, straightening, purging; 1 restructuring; 2 conversion to RVSDG; 3 graph analyses; 4 round trip through RVSDG and back
// arg1: number of blocks; arg2: pattern of block contents, 99 = any; arg3: maximal number of successors
#include "jv_build.hpp"
#include "jv_cfg.hpp"
#include <jlm/llvm/frontend/ControlFlowRestructuring.hpp>
#include <jlm/llvm/ir/aggregation.hpp>
#include <jlm/llvm/ir/domtree.hpp>
#include <jlm/llvm/ir/ssa.hpp>
using namespace jv;
using V = const jl::Variable;
using BB = jl::BasicBlock;
template<class T, class... A> const jl::ThreeAddressCode * tac(BB & b, std::vector<V *> ops, A &&... a)
{
  return b.append_last(jl::ThreeAddressCode::create(std::make_unique<T>(std::forward<A>(a)...), ops));
}
static V * c8(BB & b, u64 v) { return tac<jl::IntegerConstantOperation>(b, {}, rv::BitValueRepresentation(8, v))->result(0); }
template<class T> static V * bin(BB & b, V * x, V * y) { return tac<T>(b, { x, y }, 8)->result(0); }
enum { T_, V_, U_, IO_, MEM_, NV };
struct Shape
{
  unsigned n = 0;
  std::vector<std::vector<unsigned>> succ; // n = exit
  bool unreachable = false;
};
static Shape chooseShape(Choices & ch, unsigned n, unsigned maxSucc, bool allowDead)
{
  Shape s;
  s.n = n;
  s.succ.resize(n);
  // blocks are numbered in the order they are found
  unsigned next = 1;
  for (unsigned i = 0; i < n; i++)
  {
    bool found = i < next;
    if (!found)
    {
      if (!allowDead) symx_reject();
      s.unreachable = true;
    }
    unsigned k = 1 + ch.pick(maxSucc, "successors");
    for (unsigned j = 0; j < k; j++)
    {
      unsigned lim = found ? std::min(next + 1, n) : n;
      unsigned t = ch.pick(lim + 1, "target");
      if (t == lim) t = n;
      if (found && t == next) next++;
      s.succ[i].push_back(t);
    }
  }
  // every block reaches the exit
  std::vector<bool> ok(n + 1);
  ok[n] = true;
  for (bool ch2 = true; ch2;)
  {
    ch2 = false;
    for (unsigned i = 0; i < n; i++)
      for (unsigned t : s.succ[i])
        if (ok[t] && !ok[i]) ok[i] = ch2 = true;
  }
  for (unsigned i = 0; i < n; i++)
    if (!ok[i]) symx_reject();
  return s;
}
static const unsigned PAT[8][4] = { { 0, 0, 0, 0 }, { 0, 5, 0, 5 }, { 2, 0, 2, 0 }, { 1, 0, 1, 1 }, { 3, 4, 0, 3 }, { 5, 5, 5, 0 }, { 4, 2, 3, 2 }, { 6, 0, 7, 1 } };
static void content(BB & b, unsigned kind, unsigned id, std::vector<V *> & cur, V * p, V * g, std::shared_ptr<const rv::FunctionType> gt)
{
  auto next = [&](V * v) { return bin<jl::IntegerAddOperation>(b, bin<jl::IntegerShlOperation>(b, v, c8(b, 2)), c8(b, id + 1)); };
  switch (kind)
  {
  case 0: cur[V_] = next(cur[V_]); break;
  case 1: { V * o = cur[V_]; cur[V_] = next(cur[U_]); cur[U_] = o; break; }
  case 2:
  {
    auto t = b.append_last(jl::CallOperation::create(g, gt, jl::CallingConvention::Default, jl::AttributeList::createEmptyList(), { p, cur[V_], cur[IO_], cur[MEM_] }));
    cur[V_] = t->result(0), cur[IO_] = t->result(1), cur[MEM_] = t->result(2);
    break;
  }
  case 3: cur[MEM_] = b.append_last(jl::StoreNonVolatileOperation::Create(p, next(cur[V_]), cur[MEM_], 1))->result(0); break;
  case 4:
  {
    auto t = b.append_last(jl::LoadNonVolatileOperation::Create(p, cur[MEM_], bt(8), 1));
    cur[U_] = t->result(0), cur[MEM_] = t->result(1);
    break;
  }
  case 5: break;
  case 6: cur[U_] = cur[V_]; break;
  case 7: std::swap(cur[U_], cur[V_]); break;
  }
}
static std::unique_ptr<jl::InterProceduralGraphModule> build(Choices & ch, unsigned n, unsigned pat, unsigned maxSucc, bool allowDead, Shape * out = nullptr)
{
  Shape s = chooseShape(ch, n, maxSucc, allowDead);
  if (out) *out = s;
  unsigned form = ch.pick(3, "form"); // 0 variables are assigned, 1 phis everywhere, 2 phis only at joins
  if (pat == 99) pat = ch.pick(8, "contents");
  auto m = jl::InterProceduralGraphModule::create(jlm::util::FilePath(""), "", "");
  auto gt = Fn::mkType({ ptrT(), bt(8) }, { bt(8) });
  auto gn = jl::FunctionNode::create(m->ipgraph(), "g", gt, jl::Linkage::externalLinkage);
  V * g = m->create_variable(gn);
  auto ft = Fn::mkType({ bt(8), bt(8), ptrT(), ptrT() }, { bt(8), bt(8), bt(8) });
  auto fn = jl::FunctionNode::create(m->ipgraph(), "f", ft, jl::Linkage::externalLinkage);
  m->create_variable(fn);
  fn->add_dependency(gn);
  auto cfg = jl::ControlFlowGraph::create(*m);
  std::vector<V *> args;
  for (size_t i = 0; i < ft->NumArguments(); i++) args.push_back(cfg->entry()->append_argument(jl::Argument::create("a" + std::to_string(i), ft->Arguments()[i])));
  auto entry = BB::create(*cfg);
  std::vector<BB *> bbs;
  for (unsigned i = 0; i < n; i++) bbs.push_back(BB::create(*cfg));
  auto exitb = BB::create(*cfg);
  cfg->exit()->divert_inedges(entry);
  entry->add_outedge(bbs[0]);
  exitb->add_outedge(cfg->exit());
  std::vector<Ty> ty{ bt(8), bt(8), bt(8), ioT(), memT() };
  std::vector<V *> init{ args[0], args[1], c8(*entry, 7), args[4], args[5] };
  std::vector<V *> var;
  if (form == 0)
    for (unsigned k = 0; k < NV; k++)
    {
      auto v = m->create_variable(ty[k]);
      var.push_back(v);
      entry->append_last(jl::AssignmentOperation::create(init[k], v));
    }
  auto at = [&](unsigned i) { return i < n ? bbs[i] : exitb; };
  std::vector<std::vector<unsigned>> preds(n + 1); // n: the entry block
  preds[0].push_back(n);
  for (unsigned i = 0; i < n; i++)
    for (unsigned t : s.succ[i])
      if (preds[t].empty() || std::find(preds[t].begin(), preds[t].end(), i) == preds[t].end()) preds[t].push_back(i);
  std::vector<std::vector<V *>> end(n + 1);
  std::vector<std::vector<jl::ThreeAddressCode *>> phis(n + 1);
  end[n] = init;
  // in the order they are found: a block with one predecessor uses that one's values
  std::vector<V *> res;
  for (unsigned i = 0; i <= n; i++)
  {
    std::vector<V *> cur;
    if (form == 0) cur = var;
    else if (form == 2 && preds[i].size() == 1 && (preds[i][0] < i || preds[i][0] == n)) cur = end[preds[i][0]];
    else
      for (unsigned k = 0; k < NV; k++)
      {
        auto t = at(i)->append_last(jl::SsaPhiOperation::create({}, ty[k]));
        phis[i].push_back(t);
        cur.push_back(t->result(0));
      }
    if (i == n) { res = cur; break; }
    auto & b = *bbs[i];
    content(b, PAT[pat][i % 4], i, cur, args[2], g, gt);
    if (s.succ[i].size() > 1)
    {
      unsigned k = s.succ[i].size();
      auto bits = bin<jl::IntegerAndOperation>(b, cur[T_], c8(b, k == 2 ? 1 : 3));
      cur[T_] = bin<jl::IntegerLShrOperation>(b, cur[T_], c8(b, k == 2 ? 1 : 2));
      std::unordered_map<u64, u64> map;
      for (unsigned j = 1; j < k; j++) map[j] = j;
      auto pv = tac<rv::MatchOperation>(b, { bits }, 8, map, 0, k)->result(0);
      if (form == 0)
      {
        std::vector<V *> tmp(NV); // a value may be another variable's
        for (unsigned v = 0; v < NV; v++)
          if (cur[v] != var[v])
          {
            auto x = m->create_variable(ty[v]);
            b.append_last(jl::AssignmentOperation::create(cur[v], x));
            tmp[v] = x;
          }
        for (unsigned v = 0; v < NV; v++)
          if (tmp[v]) b.append_last(jl::AssignmentOperation::create(tmp[v], var[v]));
      }
      b.append_last(jl::BranchOperation::create(k, pv));
    }
    else if (form == 0)
    {
      std::vector<V *> tmp(NV);
      for (unsigned v = 0; v < NV; v++)
        if (cur[v] != var[v])
        {
          auto x = m->create_variable(ty[v]);
          b.append_last(jl::AssignmentOperation::create(cur[v], x));
          tmp[v] = x;
        }
      for (unsigned v = 0; v < NV; v++)
        if (tmp[v]) b.append_last(jl::AssignmentOperation::create(tmp[v], var[v]));
    }
    end[i] = cur;
    for (unsigned t : s.succ[i]) b.add_outedge(at(t));
  }
  for (unsigned i = 0; i <= n; i++)
    for (unsigned k = 0; k < phis[i].size(); k++)
    {
      std::vector<jl::ControlFlowGraphNode *> nodes;
      std::vector<V *> ops;
      for (unsigned p : preds[i]) nodes.push_back(p < n ? bbs[p] : entry), ops.push_back(end[p][k]);
      phis[i][k]->replace(jl::SsaPhiOperation(nodes, ty[k]), ops);
    }
  cfg->exit()->append_result(res[V_]);
  cfg->exit()->append_result(res[U_]);
  cfg->exit()->append_result(res[T_]);
  cfg->exit()->append_result(res[IO_]);
  cfg->exit()->append_result(res[MEM_]);
  fn->add_cfg(std::move(cfg));
  return m;
}
static jl::ControlFlowGraph & cfgOf(jl::InterProceduralGraphModule & m)
{
  for (auto & n : m.ipgraph())
    if (auto f = dynamic_cast<const jl::FunctionNode *>(&n))
      if (f->name() == "f") return *f->cfg();
  symx_error("no function");
  abort();
}
// what the analyses of control flow graphs say, against the definitions
static void analyses(jl::ControlFlowGraph & cfg)
{
  std::vector<jl::ControlFlowGraphNode *> all{ cfg.entry(), cfg.exit() };
  for (auto & b : cfg) all.push_back(&b);
  auto reach = [&](jl::ControlFlowGraphNode * from, jl::ControlFlowGraphNode * without) {
    std::unordered_set<jl::ControlFlowGraphNode *> r;
    std::vector<jl::ControlFlowGraphNode *> wl;
    if (from != without) wl.push_back(from);
    while (!wl.empty())
    {
      auto x = wl.back();
      wl.pop_back();
      if (!r.insert(x).second) continue;
      for (auto & e : x->OutEdges())
        if (e.sink() != without) wl.push_back(e.sink());
    }
    return r;
  };
  // dominator tree
  auto dt = jl::domtree(cfg);
  std::unordered_map<jl::ControlFlowGraphNode *, const jl::DominatorTreeNode *> in;
  std::vector<const jl::DominatorTreeNode *> wl{ dt.get() };
  while (!wl.empty())
  {
    auto x = wl.back();
    wl.pop_back();
    in[x->node()] = x;
    for (auto & c : *x) symx_assert(c->parent() == x && c->depth() == x->depth() + 1, "dominator tree is inconsistent"), wl.push_back(c.get());
  }
  symx_assert(in.size() == all.size(), "a node is missing in the dominator tree");
  for (auto d : all)
  {
    auto r = reach(cfg.entry(), d);
    for (auto x : all)
    {
      bool dom = d == x || !r.count(x);
      bool tree = false;
      for (auto a = in[x]; a; a = a->parent()) tree |= a->node() == d;
      symx_assert(dom == tree, "the dominator tree is wrong");
    }
  }
  // strongly connected components
  std::unordered_map<jl::ControlFlowGraphNode *, std::unordered_set<jl::ControlFlowGraphNode *>> rs;
  for (auto x : all) rs[x] = reach(x, nullptr);
  auto same = [&](jl::ControlFlowGraphNode * a, jl::ControlFlowGraphNode * b) {
    if (a == b)
    {
      for (auto & e : a->OutEdges())
        if (rs[e.sink()].count(a)) return true;
      return false;
    }
    return rs[a].count(b) && rs[b].count(a);
  };
  auto sccs = jl::find_sccs(cfg);
  std::unordered_map<jl::ControlFlowGraphNode *, int> comp;
  int k = 0;
  for (auto & s : sccs)
  {
    k++;
    for (auto & x : s)
    {
      symx_assert(!comp.count(const_cast<jl::ControlFlowGraphNode *>(&x)), "a node is in two components");
      comp[const_cast<jl::ControlFlowGraphNode *>(&x)] = k;
    }
  }
  for (auto a : all)
    for (auto b : all) symx_assert(same(a, b) == (comp.count(a) && comp.count(b) && comp[a] == comp[b]), "the strongly connected components are wrong");
  for (auto & s : sccs)
  {
    auto st = jl::StronglyConnectedComponentStructure::Create(s);
    size_t ee = 0, xe = 0, re = 0;
    std::set<jl::ControlFlowGraphNode *> en, xn;
    for (auto x : all)
      for (auto & e : x->OutEdges())
      {
        bool a = s.contains(e.source()), b = s.contains(e.sink());
        if (!a && b) ee++, en.insert(e.sink());
        if (a && !b) xe++, xn.insert(e.sink());
      }
    for (auto x : all)
      for (auto & e : x->OutEdges())
        if (s.contains(e.source()) && en.count(e.sink())) re++;
    symx_assert(st->NumEntryEdges() == ee && st->NumExitEdges() == xe && st->NumRepetitionEdges() == re && st->NumEntryNodes() == en.size() && st->NumExitNodes() == xn.size(), "the structure of a component is wrong");
  }
  symx_assert(jl::is_acyclic(cfg) == comp.empty(), "is_acyclic is wrong");
  // orders
  auto po = jl::postorder(cfg), rp = jl::reverse_postorder(cfg), bf = jl::breadth_first(cfg);
  for (auto * v : { &po, &rp, &bf })
  {
    std::set<jl::ControlFlowGraphNode *> s(v->begin(), v->end());
    symx_assert(s.size() == all.size() && v->size() == all.size(), "an order does not contain every node once");
  }
  std::reverse(po.begin(), po.end());
  symx_assert(po == rp, "reverse postorder is not the reverse of the postorder");
  if (comp.empty())
  {
    std::unordered_map<jl::ControlFlowGraphNode *, size_t> at;
    for (size_t i = 0; i < rp.size(); i++) at[rp[i]] = i;
    for (auto x : all)
      for (auto & e : x->OutEdges()) symx_assert(at[x] < at[e.sink()], "reverse postorder is not topological");
  }
  // reducible: every component, also inside of another one, is entered at one node only. Decided with dominators: an edge of a
  // depth-first search that goes back goes to a dominator
  bool red = true;
  {
    std::unordered_map<jl::ControlFlowGraphNode *, int> st;
    std::function<void(jl::ControlFlowGraphNode *)> dfs = [&](jl::ControlFlowGraphNode * x) {
      st[x] = 1;
      for (auto & e : x->OutEdges())
      {
        if (!st[e.sink()]) dfs(e.sink());
        else if (st[e.sink()] == 1 && reach(cfg.entry(), e.sink()).count(x)) red = false;
      }
      st[x] = 2;
    };
    dfs(cfg.entry());
  }
  symx_assert(jl::is_reducible(cfg) == red, "is_reducible is wrong");
}
void harness_main()
{
  unsigned stage = symx_arg(0), n = symx_arg(1), pat = symx_arg(2), ms = symx_arg(3) ? symx_arg(3) : 2;
  World w;
  u64 p = World::extPtr(w.addExt("E", 1)), q = World::extPtr(w.addExt("F", 1));
  std::vector<Val> args{ Val(symx_var(8, "t")), Val(symx_var(8, "v")), Val(p), Val(q) };
  Choices ch, ch2;
  bool dead = stage == 0;
  Shape s;
  auto a = build(ch, n, pat, ms, dead, &s);
  ch.rewind();
  auto b = build(ch, n, pat, ms, dead);
  auto & cfg = cfgOf(*b);
  unsigned steps = symx_arg(4) ? symx_arg(4) : 5;
  auto orig = [&] {
    CfgEval e(w, Orig, *a);
    e.maxSteps = steps + 2;
    e.environmentInit();
    return e.runEntry("f", args);
  };
  auto cmp = [&](const Outcome & o, const char * r) {
    auto t = runIpg(w, Trans, *b, args);
    compareOutcomes(o, t);
    symx_reach(r);
    return t;
  };
  if (stage == 0)
  {
    jl::prune(cfg);
    symx_assert(jl::is_closed(cfg) && jl::is_valid(cfg), "pruning does not make the graph closed");
    jl::straighten(cfg);
    symx_assert(jl::is_closed(cfg) && jl::is_valid(cfg), "straightening breaks the graph");
    auto o = orig();
    cmp(o, "straightened");
    jl::destruct_ssa(cfg);
    for (auto & x : cfg)
      for (auto t : x.tacs()) symx_assert(!jlm::rvsdg::is<jl::SsaPhiOperation>(t->operation()), "SSA destruction leaves a phi");
    cmp(o, "destructed");
    jl::straighten(cfg);
    jl::purge(cfg);
    symx_assert(jl::is_closed(cfg) && jl::is_valid(cfg), "purging breaks the graph");
    observeOutcome(cmp(o, "purged"));
  }
  else if (stage == 1)
  {
    jl::destruct_ssa(cfg);
    bool acyclic = jl::is_acyclic(cfg);
    auto o = orig();
    // only branches; only loops; everything
    unsigned how = ch2.pick(3, "how");
    if (how == 0)
    {
      if (!acyclic) symx_reject();
      jl::RestructureBranches(cfg);
    }
    else if (how == 1)
    {
      jl::RestructureLoops(cfg);
      symx_assert(jl::is_reducible(cfg), "restructuring loops leaves an irreducible graph");
    }
    else jl::RestructureControlFlow(cfg);
    symx_assert(jl::is_closed(cfg), "restructuring breaks the graph");
    if (how != 1) symx_assert(jl::is_proper_structured(cfg), "the restructured graph is not structured");
    observeOutcome(cmp(o, "restructured"));
  }
  else if (stage == 2)
  {
    auto o = orig();
    jlm::util::StatisticsCollector sc;
    auto r = jl::ConvertInterProceduralGraphModule(*b, sc);
    checkGraph(r->Rvsdg());
    auto d = runRvsdg(w, Trans, *r, args);
    compareOutcomes(o, d);
    symx_reach("converted");
    observeOutcome(d);
  }
  else if (stage == 3)
  {
    analyses(cfg);
    jl::straighten(cfg);
    analyses(cfg);
    if (jl::is_structured(cfg)) symx_reach("structured");
    jl::destruct_ssa(cfg);
    jl::RestructureControlFlow(cfg);
    analyses(cfg);
    symx_reach("analysed");
  }
}
