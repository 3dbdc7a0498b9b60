// Edit histories of dataflow graphs, and traversals of graphs that are edited meanwhile.
// arg0: 0 edits of a region, 1 edits of a structural node's variables, 2 top down traversal, 3 bottom up traversal;
// arg1: edits; arg2: initial shape; arg3: variant
#include "jv_rvsdg.hpp"
#include <functional>
#include <jlm/rvsdg/delta.hpp>
#include <jlm/rvsdg/gamma.hpp>
#include <jlm/rvsdg/lambda.hpp>
#include <jlm/rvsdg/Phi.hpp>
#include <jlm/rvsdg/TestNodes.hpp>
#include <jlm/rvsdg/TestOperations.hpp>
#include <jlm/rvsdg/TestType.hpp>
#include <jlm/rvsdg/theta.hpp>
#include <jlm/rvsdg/traverser.hpp>
using namespace jv;
using rv::TestOperation;
using rv::TestStructuralNode;
using Ty = std::shared_ptr<const rv::Type>;
static Ty ty() { static Ty t = rv::TestType::createValueType(); return t; }
static unsigned pick(unsigned n, const char * name) { return n <= 1 ? 0 : (unsigned)symx_choose(n, name); }

// What the region's observers are told: a picture of the graph drawn from notifications alone
struct Mirror final : rv::RegionObserver
{
  rv::Region & r;
  std::unordered_set<const rv::Node *> nodes;
  std::unordered_map<const rv::Input *, const rv::Output *> ins;
  std::unordered_set<const rv::Node *> created, destroyed;
  Mirror(rv::Region & r)
      : rv::RegionObserver(r),
        r(r)
  {
    for (auto & n : r.Nodes())
    {
      nodes.insert(&n);
      for (auto & i : n.Inputs()) ins[&i] = i.origin();
    }
    for (auto x : r.Results()) ins[x] = x->origin();
  }
  void onNodeCreate(rv::Node * n) override
  {
    symx_assert(n->region() == &r, "a notification is about a node of another region");
    symx_assert(nodes.insert(n).second, "a node is announced twice");
    created.insert(n);
    for (auto & i : n->Inputs()) symx_assert(ins.emplace(&i, i.origin()).second, "an input of a new node is known already");
  }
  void onNodeDestroy(rv::Node * n) override
  {
    symx_assert(nodes.erase(n) == 1, "the end of an unknown node is announced");
    destroyed.insert(n);
    for (auto & i : n->Inputs())
    {
      symx_assert(ins.count(&i) && ins[&i] == i.origin(), "a node that goes away has an input nobody was told about");
      ins.erase(&i);
    }
  }
  void onInputCreate(rv::Input * i) override
  {
    symx_assert(i->origin() && i->region() == &r, "a notification is about an input of another region");
    symx_assert(ins.emplace(i, i->origin()).second, "an input is announced twice");
  }
  void onInputChange(rv::Input * i, rv::Output * o, rv::Output * n) override
  {
    symx_assert(ins.count(i) && ins[i] == o, "an input is said to have had another origin");
    symx_assert(i->origin() == n, "an input does not have the origin that is announced");
    ins[i] = n;
  }
  void onInputDestroy(rv::Input * i) override
  {
    symx_assert(ins.count(i) && ins[i] == i->origin(), "the end of an unknown input is announced");
    ins.erase(i);
  }
  void check()
  {
    size_t n = 0, k = 0;
    for (auto & x : r.Nodes())
    {
      n++;
      symx_assert(nodes.count(&x), "a node of the region was not announced");
      for (auto & i : x.Inputs()) k++, symx_assert(ins.count(&i) && ins[&i] == i.origin(), "an input's origin is not what was announced");
    }
    for (auto x : r.Results()) k++, symx_assert(ins.count(x) && ins[x] == x->origin(), "a result's origin is not what was announced");
    symx_assert(n == nodes.size(), "a node that was announced is not in the region");
    symx_assert(k == ins.size(), "an input that was announced is not in the region");
  }
};
// What the edits mean: the order of arguments and results, and what every input is connected to
struct Spec
{
  rv::Region & r;
  std::vector<const rv::Output *> args;
  std::vector<const rv::Input *> results;
  std::unordered_map<const rv::Node *, std::vector<std::pair<const rv::Input *, const rv::Output *>>> nodes;
  std::unordered_map<const rv::Node *, std::vector<const rv::Output *>> outs;
  std::unordered_map<const rv::Input *, const rv::Output *> resultOrigin;
  Spec(rv::Region & r) : r(r) { take(); }
  void take()
  {
    args.clear(), results.clear(), nodes.clear(), resultOrigin.clear(), outs.clear();
    for (size_t i = 0; i < r.narguments(); i++) args.push_back(r.argument(i));
    for (size_t i = 0; i < r.nresults(); i++) results.push_back(r.result(i)), resultOrigin[r.result(i)] = r.result(i)->origin();
    for (auto & n : r.Nodes())
    {
      nodes[&n], outs[&n];
      for (auto & i : n.Inputs()) nodes[&n].push_back({ &i, i.origin() });
      for (auto & o : n.Outputs()) outs[&n].push_back(&o);
    }
  }
  void redirect(const rv::Input * i, const rv::Output * o)
  {
    if (resultOrigin.count(i)) resultOrigin[i] = o;
    for (auto & [n, v] : nodes)
      for (auto & p : v)
        if (p.first == i) p.second = o;
  }
  void check()
  {
    symx_assert(args.size() == r.narguments(), "the region has the arguments the edits left it");
    for (size_t i = 0; i < args.size(); i++) symx_assert(args[i] == r.argument(i), "the region's arguments are in the order the edits left them");
    symx_assert(results.size() == r.nresults(), "the region has the results the edits left it");
    for (size_t i = 0; i < results.size(); i++)
    {
      symx_assert(results[i] == r.result(i), "the region's results are in the order the edits left them");
      symx_assert(r.result(i)->origin() == resultOrigin[results[i]], "a result has the origin the edits gave it");
    }
    size_t k = 0;
    for (auto & n : r.Nodes())
    {
      k++;
      auto it = nodes.find(&n);
      symx_assert(it != nodes.end(), "a node that was removed is still there");
      if (it == nodes.end()) continue;
      symx_assert(it->second.size() == n.ninputs(), "a node has the inputs the edits left it");
      for (size_t i = 0; i < n.ninputs() && i < it->second.size(); i++)
        symx_assert(n.input(i) == it->second[i].first && n.input(i)->origin() == it->second[i].second, "an input has the place and the origin the edits gave it");
      auto & ov = outs[&n];
      symx_assert(ov.size() == n.noutputs(), "a node has the outputs the edits left it");
      for (size_t i = 0; i < n.noutputs() && i < ov.size(); i++) symx_assert(n.output(i) == ov[i], "an output has the place the edits gave it");
    }
    symx_assert(k == nodes.size(), "a node is missing");
  }
};

static std::vector<rv::Output *> values(rv::Region & r)
{
  std::vector<rv::Output *> v;
  for (size_t i = 0; i < r.narguments(); i++) v.push_back(r.argument(i));
  for (auto & n : r.Nodes())
    for (size_t i = 0; i < n.noutputs(); i++) v.push_back(n.output(i));
  return v;
}
static std::vector<rv::Input *> uses(rv::Region & r)
{
  std::vector<rv::Input *> v;
  for (auto & n : r.Nodes())
    for (size_t i = 0; i < n.ninputs(); i++) v.push_back(n.input(i));
  for (size_t i = 0; i < r.nresults(); i++) v.push_back(r.result(i));
  return v;
}
static const rv::Node * ownerOf(const rv::Output & o) { auto w = o.GetOwner(); auto p = std::get_if<rv::Node *>(&w); return p ? *p : nullptr; }
static const rv::Node * ownerOf(const rv::Input & o) { auto w = o.GetOwner(); auto p = std::get_if<rv::Node *>(&w); return p ? *p : nullptr; }
// whether a computes (directly or indirectly) from b
static bool dependsOn(const rv::Node * a, const rv::Node * b)
{
  if (!a || !b) return false;
  if (a == b) return true;
  for (auto & i : a->Inputs())
    if (dependsOn(ownerOf(*i.origin()), b)) return true;
  return false;
}
static bool mayFeed(const rv::Output & o, const rv::Input & i) { return !dependsOn(ownerOf(o), ownerOf(i)); }
static std::vector<rv::Output *> possibleOrigins(rv::Region & r, const rv::Input & i)
{
  std::vector<rv::Output *> v;
  for (auto o : values(r))
    if (mayFeed(*o, i)) v.push_back(o);
  return v;
}
static rv::Node * newNode(rv::Region & r, const std::vector<rv::Output *> & ops, unsigned outs) { return TestOperation::createNode(&r, ops, std::vector<Ty>(outs, ty())); }
static rv::Node * newStruct(rv::Region & r, const std::vector<rv::Output *> & ops, unsigned outs)
{
  auto s = TestStructuralNode::create(&r, 2);
  for (auto o : ops) s->addInputWithArguments(*o);
  for (unsigned i = 0; i < outs; i++)
  {
    std::vector<rv::Output *> res;
    for (unsigned k = 0; k < 2; k++)
      {
      auto & sr = *s->subregion(k);
      if (sr.narguments()) res.push_back(sr.argument(i % sr.narguments()));
      else res.push_back(newNode(sr, {}, 1)->output(0));
    }
    s->addOutputWithResults(res);
  }
  return s;
}
static rv::Node * newAny(rv::Region & r, const std::vector<rv::Output *> & ops, unsigned outs, bool st) { return st ? newStruct(r, ops, outs) : newNode(r, ops, outs); }
static void result(rv::Region & r, rv::Output & o) { rv::RegionResult::Create(r, o, nullptr, o.Type()); }
// initial graphs
static void shape(rv::Region & r, unsigned k)
{
  auto arg = [&] { return &rv::RegionArgument::Create(r, nullptr, ty()); };
  switch (k)
  {
  case 0: arg(); break;
  case 1: { auto a = arg(); auto n = newNode(r, { a }, 1), m = newNode(r, { n->output(0), a }, 1); result(r, *m->output(0)); break; }
  case 2: { auto n = newNode(r, {}, 2); auto m = newNode(r, { n->output(0), n->output(0) }, 1); auto p = newNode(r, { n->output(1), m->output(0) }, 1); result(r, *p->output(0)); break; }
  case 3: { auto a = arg(), b = arg(); auto n = newStruct(r, { a, b }, 2); auto m = newNode(r, { n->output(1) }, 1); result(r, *m->output(0)); result(r, *n->output(0)); break; }
  case 4: { auto a = arg(); auto n = newNode(r, { a }, 1), m = newNode(r, { n->output(0) }, 1), p = newNode(r, { n->output(0) }, 1); newNode(r, { m->output(0), p->output(0) }, 1); break; }
  case 5: { auto n = newNode(r, {}, 1), m = newNode(r, {}, 1); auto p = newStruct(r, { n->output(0), m->output(0) }, 1); result(r, *p->output(0)); result(r, *m->output(0)); break; }
  // any graph of three nodes: which earlier node each input uses
  case 6:
  {
    std::vector<rv::Output *> vs{ arg() };
    for (unsigned i = 0; i < 3; i++)
    {
      std::vector<rv::Output *> ops;
      for (unsigned j = 0, n = i == 0 ? pick(2, "inputs") : i == 1 ? 1 + pick(2, "inputs") : 2; j < n; j++) ops.push_back(vs[pick(vs.size(), "origin")]);
      vs.push_back(newNode(r, ops, 1)->output(0));
    }
    if (pick(2, "result")) result(r, *vs[1 + pick(3, "origin")]);
    break;
  }
  // any graph of four nodes in which the first two have no inputs
  case 7:
  {
    std::vector<rv::Output *> vs{ newNode(r, {}, 1)->output(0), newNode(r, {}, 1)->output(0) };
    for (unsigned i = 0; i < 2; i++)
    {
      std::vector<rv::Output *> ops;
      for (unsigned j = 0; j < 1 + i; j++) ops.push_back(vs[pick(vs.size(), "origin")]);
      vs.push_back(newNode(r, ops, 1)->output(0));
    }
    result(r, *vs.back());
    break;
  }
  }
}
enum Edit { NewNode, Divert, DivertAll, DivertSome, Remove, Prune, AddResult, DelResults, AddArg, DelArgs, AddIn, DelIn, AddOut, DelOut };
// applies one edit; false if there is nothing to apply it to
static bool edit(rv::Region & r, Edit e, bool structural, Spec * spec)
{
  auto respec = [&] { if (spec) spec->take(); };
  auto structs = [&] {
    std::vector<TestStructuralNode *> v;
    for (auto & n : r.Nodes())
      if (auto s = dynamic_cast<TestStructuralNode *>(&n)) v.push_back(s);
    return v;
  };
  switch (e)
  {
  case NewNode:
  {
    auto vs = values(r);
    std::vector<rv::Output *> ops;
    unsigned n = vs.empty() ? 0 : pick(3, "operands");
    for (unsigned i = 0; i < n; i++) ops.push_back(vs[pick(vs.size(), "operand")]);
    auto before = r.numNodes();
    auto node = newAny(r, ops, 1, structural && pick(2, "kind"));
    symx_assert(r.numNodes() == before + 1 && node->ninputs() == ops.size() && node->noutputs() == 1, "a new node is what was asked for");
    for (unsigned i = 0; i < n; i++) symx_assert(node->input(i)->origin() == ops[i], "a new node has its operands in order");
    respec();
    return true;
  }
  case Divert:
  {
    auto us = uses(r);
    if (us.empty()) return false;
    auto u = us[pick(us.size(), "use")];
    auto os = possibleOrigins(r, *u);
    if (os.empty()) return false;
    auto o = os[pick(os.size(), "origin")];
    u->divert_to(o);
    if (spec) spec->redirect(u, o);
    return true;
  }
  case DivertAll:
  case DivertSome:
  {
    auto vs = values(r);
    if (vs.size() < 2) return false;
    auto from = vs[pick(vs.size(), "from")], to = vs[pick(vs.size(), "to")];
    unsigned mask = e == DivertSome ? (unsigned)symx_var(3, "which") : ~0u;
    std::vector<rv::Input *> moved;
    unsigned k = 0;
    std::unordered_map<const rv::Input *, bool> chosen;
    for (auto & u : from->Users())
    {
      bool c = e == DivertAll || ((mask >> (k++ % 3)) & 1);
      chosen[&u] = c;
      if (!c) continue;
      if (!mayFeed(*to, u) && from != to) return false;
      moved.push_back(&u);
    }
    if (e == DivertAll) from->divert_users(to);
    else
    {
      auto n = from->divertUsersWhere(*to, [&](const rv::Input & i) { return chosen[&i]; });
      symx_assert(n == (from == to ? 0 : moved.size()), "the number of diverted users is returned");
    }
    if (spec) for (auto u : moved) spec->redirect(u, to);
    return true;
  }
  case Remove:
  {
    std::vector<rv::Node *> dead;
    for (auto & n : r.Nodes())
      if (n.IsDead()) dead.push_back(&n);
    if (dead.empty()) return false;
    auto n = dead[pick(dead.size(), "dead")];
    if (spec) spec->nodes.erase(n), spec->outs.erase(n);
    r.removeNode(n);
    return true;
  }
  case Prune:
  {
    // what stays: what a result needs
    std::unordered_set<const rv::Node *> keep;
    std::function<void(const rv::Output &)> need = [&](const rv::Output & o) {
      auto n = ownerOf(o);
      if (!n || !keep.insert(n).second) return;
      for (auto & i : n->Inputs()) need(*i.origin());
    };
    for (auto x : r.Results()) need(*x->origin());
    r.prune(pick(2, "recursive"));
    symx_assert(r.numNodes() == keep.size(), "pruning leaves exactly the nodes the results need");
    for (auto & n : r.Nodes()) symx_assert(keep.count(&n), "pruning leaves only nodes the results need");
    if (spec)
      for (auto it = spec->nodes.begin(); it != spec->nodes.end();)
        it = keep.count(it->first) ? std::next(it) : spec->nodes.erase(it);
    return true;
  }
  case AddResult:
  {
    auto vs = values(r);
    if (vs.empty()) return false;
    auto o = vs[pick(vs.size(), "origin")];
    auto & x = rv::RegionResult::Create(r, *o, nullptr, o->Type());
    if (spec) spec->results.push_back(&x), spec->resultOrigin[&x] = o;
    return true;
  }
  case DelResults:
  {
    if (!r.nresults()) return false;
    unsigned mask = (unsigned)symx_choose(1u << std::min<size_t>(r.nresults(), 3), "which");
    jlm::util::HashSet<size_t> ix;
    std::vector<const rv::Input *> left;
    for (size_t i = 0; i < r.nresults(); i++)
      if ((mask >> i) & 1) ix.insert(i);
      else left.push_back(r.result(i));
    auto n = r.RemoveResults(ix);
    symx_assert(n == ix.Size(), "the number of removed results is returned");
    if (spec) spec->results = left;
    return true;
  }
  case AddArg:
  {
    if (pick(2, "insert"))
    {
      size_t at = pick(r.narguments() + 1, "index");
      auto & a = r.insertArgument(at, std::make_unique<rv::RegionArgument>(&r, nullptr, ty()));
      if (spec) spec->args.insert(spec->args.begin() + at, &a);
    }
    else
    {
      auto & a = rv::RegionArgument::Create(r, nullptr, ty());
      if (spec) spec->args.push_back(&a);
    }
    return true;
  }
  case DelArgs:
  {
    unsigned how = (unsigned)symx_choose(1u + (1u << std::min<size_t>(r.narguments(), 3)), "which");
    std::vector<const rv::Output *> left;
    jlm::util::HashSet<size_t> ix;
    for (size_t i = 0; i < r.narguments(); i++)
    {
      bool c = how == 0 || (((how - 1) >> i) & 1);
      if (c) ix.insert(i);
      if (!c || !r.argument(i)->IsDead()) left.push_back(r.argument(i));
    }
    size_t was = r.narguments();
    auto n = how == 0 ? r.PruneArguments() : r.RemoveArguments(ix);
    symx_assert(n == was - left.size(), "the number of removed arguments is returned");
    if (spec) spec->args = left;
    return true;
  }
  case AddIn:
  {
    auto ss = structs();
    if (ss.empty()) return false;
    auto s = ss[pick(ss.size(), "node")];
    std::vector<rv::Output *> os;
    for (auto o : values(r))
      if (!dependsOn(ownerOf(*o), s)) os.push_back(o);
    if (os.empty()) return false;
    auto o = os[pick(os.size(), "origin")];
    auto iv = s->addInputWithArguments(*o);
    symx_assert(iv.input->origin() == o && iv.argument.size() == 2, "a new input variable has its origin");
    if (spec) spec->nodes[s].push_back({ iv.input, o });
    return true;
  }
  case DelIn:
  {
    auto ss = structs();
    if (ss.empty()) return false;
    auto s = ss[pick(ss.size(), "node")];
    if (!s->ninputs()) return false;
    // inputs without used arguments, several at once
    unsigned mask = (unsigned)symx_choose(1u << std::min<size_t>(s->ninputs(), 3), "which");
    jlm::util::HashSet<size_t> ix;
    std::vector<std::pair<const rv::Input *, const rv::Output *>> left;
    for (size_t i = 0; i < s->ninputs(); i++)
    {
      bool c = (mask >> i) & 1;
      for (auto & a : s->input(i)->arguments) if (!a.IsDead()) c = false;
      if (c) ix.insert(i);
      else left.push_back({ s->input(i), s->input(i)->origin() });
    }
    for (auto & sr : s->Subregions()) symx_assert(sr.RemoveArguments(ix) == ix.Size(), "all arguments are removed");
    symx_assert(s->RemoveInputs(ix) == ix.Size(), "the number of removed inputs is returned");
    if (spec) spec->nodes[s] = left;
    for (auto & sr : s->Subregions())
      for (size_t i = 0; i < left.size(); i++)
        symx_assert(sr.narguments() == left.size() && sr.argument(i)->input() == left[i].first, "the remaining arguments belong to the remaining inputs");
    return true;
  }
  case AddOut:
  {
    auto ss = structs();
    if (ss.empty()) return false;
    auto s = ss[pick(ss.size(), "node")];
    std::vector<rv::Output *> v;
    for (auto & sr : s->Subregions())
    {
      auto x = values(sr);
      if (x.empty()) return false;
      v.push_back(x.back());
    }
    auto ov = s->addOutputWithResults(v);
    if (spec) spec->outs[s].push_back(ov.output);
    return true;
  }
  case DelOut:
  {
    auto ss = structs();
    if (ss.empty()) return false;
    auto s = ss[pick(ss.size(), "node")];
    jlm::util::HashSet<size_t> ix;
    std::vector<const rv::Output *> left;
    unsigned mask = (unsigned)symx_choose(1u << std::min<size_t>(s->noutputs(), 3), "which");
    for (size_t i = 0; i < s->noutputs(); i++)
    {
      bool c = ((mask >> i) & 1) && s->output(i)->IsDead();
      if (c) ix.insert(i);
      else left.push_back(s->output(i));
    }
    for (auto & sr : s->Subregions()) symx_assert(sr.RemoveResults(ix) == ix.Size(), "all results are removed");
    symx_assert(s->RemoveOutputs(ix) == ix.Size(), "the number of removed outputs is returned");
    if (spec) spec->outs[s] = left;
    for (auto & sr : s->Subregions())
      for (size_t i = 0; i < left.size(); i++)
        symx_assert(sr.nresults() == left.size() && sr.result(i)->output() == left[i], "the remaining results belong to the remaining outputs");
    return true;
  }
  }
  return false;
}
static const std::vector<std::vector<Edit>> editSets = {
  { NewNode, Divert, DivertAll, DivertSome, Remove, Prune },
  { NewNode, Divert, AddResult, DelResults, AddArg, DelArgs, Prune, Remove },
  { AddIn, DelIn, AddOut, DelOut, Divert, Remove },
  { NewNode, Divert, Remove, AddIn, DelIn, DelResults, AddResult },
  { NewNode, Divert, DivertAll, Remove, DelResults, AddResult },
};
static Edit pickEdit(unsigned set) { auto & s = editSets[set]; return s[pick(s.size(), "edit")]; }

struct World1
{
  rv::Graph g;
  rv::Region * r;
  World1(unsigned sh)
  {
    auto s = TestStructuralNode::create(&g.GetRootRegion(), 1);
    r = s->subregion(0);
    shape(*r, sh);
  }
};
static void edits(unsigned steps, unsigned sh, unsigned set)
{
  World1 w(sh);
  Mirror m(*w.r);
  Spec s(*w.r);
  checkGraph(w.g);
  for (unsigned i = 0; i < steps; i++)
  {
    // a node created by this edit has no old outputs: the specification is taken anew then
    if (!edit(*w.r, pickEdit(set), true, &s)) return symx_end();
    checkGraph(w.g);
    m.check();
    s.check();
  }
  symx_reach("edited");
  u64 h = 0;
  for (auto & n : w.r->Nodes()) h = mix(h, n.ninputs() * 8 + n.numSuccessors());
  symx_observe(h);
}
// --- traversers ----------------------------------------------------------------------------------------------------------------------
template<class T>
static void traverse(bool down, unsigned steps, unsigned sh, unsigned set)
{
  World1 w(sh);
  auto & r = *w.r;
  std::unordered_set<const rv::Node *> before, visited;
  for (auto & n : r.Nodes()) before.insert(&n);
  Mirror m(r);
  {
    T t(&r);
    unsigned left = steps;
    auto forget = [&] {
      // nodes that went away; their address may be used again
      for (auto d : m.destroyed) before.erase(d), visited.erase(d), m.nodes.count(d) ? 0 : m.created.erase(d);
      m.destroyed.clear();
    };
    auto change = [&] {
      while (left && pick(2, "edit here"))
      {
        left--;
        if (!edit(r, pickEdit(set), true, nullptr)) return symx_end(), false;
        forget();
      }
      return true;
    };
    if (!change()) return;
    while (true)
    {
      auto n = t.next();
      if (!n) break;
      symx_assert(m.nodes.count(n), "a node that was removed is visited");
      symx_assert(!m.created.count(n), "a node created during the traversal is visited");
      symx_assert(before.count(n), "an unknown node is visited");
      symx_assert(visited.insert(n).second, "a node is visited twice");
      if (down)
      {
        for (auto & i : n->Inputs())
        {
          auto p = ownerOf(*i.origin());
          symx_assert(!p || visited.count(p) || m.created.count(p), "a node is visited before one it uses");
        }
      }
      else
      {
        for (auto & o : n->Outputs())
          for (auto & u : o.Users())
          {
            auto p = ownerOf(u);
            symx_assert(!p || visited.count(p) || m.created.count(p), "a node is visited before one that uses it");
          }
      }
      if (!change()) return;
    }
    for (auto x : before) symx_assert(visited.count(x), "a node is not visited");
  }
  m.check();
  checkGraph(w.g);
  symx_reach("traversed");
  symx_observe(visited.size());
}
// --- variables of structural nodes ----------------------------------------------------------------------------------------------------
static rv::Output & argOf(rv::Region & r, Ty t) { return rv::RegionArgument::Create(r, nullptr, t); }
template<class V> static std::vector<V> without(const std::vector<V> & v, const std::function<bool(const V &)> & f)
{
  std::vector<V> r;
  for (auto & x : v) if (!f(x)) r.push_back(x);
  return r;
}
// a choice of removable elements of a list
template<class V> static std::vector<bool> chooseSome(const std::vector<V> & v, const std::function<bool(const V &)> & may)
{
  std::vector<bool> c;
  for (auto & x : v) c.push_back(may(x) && pick(2, "remove"));
  return c;
}
static void gammaVars(unsigned steps, unsigned alts, rv::Region & r)
{
  auto & pred = argOf(r, rv::ControlType::Create(alts));
  std::vector<rv::Output *> vs{ &argOf(r, ty()), &argOf(r, ty()) };
  Mirror m(r);
  auto g = rv::GammaNode::create(&pred, alts);
  struct Ev { rv::Input * in; std::vector<rv::Output *> arg; const rv::Output * origin; };
  struct Xv { std::vector<rv::Input *> res; std::vector<const rv::Output *> from; rv::Output * out; };
  std::vector<Ev> evs;
  std::vector<Xv> xvs;
  auto check = [&] {
    auto ge = g->GetEntryVars();
    symx_assert(g->predicate()->origin() == &pred && g->predicate() == g->input(0), "the predicate stays the first input");
    symx_assert(ge.size() == evs.size() && g->ninputs() == evs.size() + 1, "the conditional has the entry variables it was given");
    for (size_t i = 0; i < evs.size(); i++)
    {
      auto & e = evs[i];
      symx_assert(ge[i].input == e.in && ge[i].branchArgument == e.arg, "an entry variable keeps its input and arguments");
      symx_assert(e.in->origin() == e.origin, "an entry variable keeps its origin");
      auto mi = g->MapInput(*e.in);
      auto mv = std::get_if<rv::GammaNode::EntryVar>(&mi);
      symx_assert(mv && mv->input == e.in && mv->branchArgument == e.arg, "an input maps to its entry variable");
      for (auto a : e.arg)
      {
        auto ma = g->MapBranchArgument(*a);
        auto av = std::get_if<rv::GammaNode::EntryVar>(&ma);
        symx_assert(av && av->input == e.in && av->branchArgument == e.arg, "an argument maps to its entry variable");
        symx_assert(&g->mapBranchArgumentToInput(*a) == e.in, "an argument maps to its input");
        symx_assert(static_cast<rv::RegionArgument *>(a)->input() == e.in, "an argument belongs to its input");
      }
    }
    auto gx = g->GetExitVars();
    symx_assert(gx.size() == xvs.size() && g->noutputs() == xvs.size(), "the conditional has the exit variables it was given");
    for (size_t i = 0; i < xvs.size(); i++)
    {
      auto & x = xvs[i];
      symx_assert(gx[i].output == x.out && gx[i].branchResult == x.res, "an exit variable keeps its output and results");
      auto mo = g->MapOutputExitVar(*x.out);
      symx_assert(mo.output == x.out && mo.branchResult == x.res, "an output maps to its exit variable");
      for (size_t k = 0; k < alts; k++)
      {
        auto mr = g->MapBranchResultExitVar(*x.res[k]);
        symx_assert(mr.output == x.out && mr.branchResult == x.res, "a result maps to its exit variable");
        symx_assert(&g->mapBranchResultToOutput(*x.res[k]) == x.out, "a result maps to its output");
        symx_assert(x.res[k]->origin() == x.from[k], "a result keeps its origin");
        symx_assert(static_cast<rv::RegionResult *>(x.res[k])->output() == x.out, "a result belongs to its output");
      }
      // the value that is the same in all alternatives
      const rv::Output * inv = nullptr;
      bool same = true;
      for (size_t k = 0; k < alts; k++)
      {
        const rv::Output * o = nullptr;
        for (auto & e : evs) if (e.arg[k] == x.from[k]) o = e.origin;
        if (!o || (k && o != inv)) same = false;
        inv = o;
      }
      auto gi = rv::GetGammaInvariantOrigin(*g, gx[i]);
      symx_assert(gi.has_value() == same && (!same || *gi == inv), "an exit variable is invariant if all alternatives pass the same value");
    }
    checkRegion(r);
    m.check();
  };
  check();
  for (unsigned s = 0; s < steps; s++)
  {
    switch (pick(5, "edit"))
    {
    case 0: { auto o = vs[pick(vs.size(), "origin")]; auto e = g->AddEntryVar(o); evs.push_back({ e.input, e.branchArgument, o }); break; }
    case 1:
    {
      std::vector<rv::Output *> v;
      for (size_t k = 0; k < alts; k++)
      {
        unsigned c = pick(evs.size() + 1, "value");
        v.push_back(c < evs.size() ? evs[c].arg[k] : TestOperation::createNode(g->subregion(k), {}, { ty() })->output(0));
      }
      auto x = g->AddExitVar(v);
      xvs.push_back({ x.branchResult, { v.begin(), v.end() }, x.output });
      break;
    }
    case 2:
    {
      auto c = chooseSome<Ev>(evs, [&](const Ev & e) { for (auto a : e.arg) if (!a->IsDead()) return false; return true; });
      std::vector<rv::GammaNode::EntryVar> rm;
      std::vector<Ev> left;
      for (size_t i = 0; i < evs.size(); i++) if (c[i]) rm.push_back(g->GetEntryVars()[i]); else left.push_back(evs[i]);
      g->RemoveEntryVars(rm);
      evs = left;
      break;
    }
    case 3:
    {
      auto c = chooseSome<Xv>(xvs, [&](const Xv & x) { return x.out->IsDead(); });
      std::vector<rv::Output *> rm;
      std::vector<Xv> left;
      for (size_t i = 0; i < xvs.size(); i++) if (c[i]) rm.push_back(xvs[i].out); else left.push_back(xvs[i]);
      g->RemoveExitVars(rm);
      xvs = left;
      break;
    }
    case 4:
      if (pick(2, "prune")) { xvs = without<Xv>(xvs, [](const Xv & x) { return x.out->IsDead(); }); g->PruneExitVars(); }
      else if (!xvs.empty()) result(r, *xvs[pick(xvs.size(), "used")].out);
      break;
    }
    check();
  }
}
static void thetaVars(unsigned steps, rv::Region & r)
{
  std::vector<rv::Output *> vs{ &argOf(r, ty()), &argOf(r, ty()) };
  Mirror m(r);
  auto t = rv::ThetaNode::create(&r);
  struct Lv { rv::ThetaNode::LoopVar v; const rv::Output * origin, * post; };
  std::vector<Lv> lvs;
  auto pred = t->predicate()->origin();
  auto eq = [](const rv::ThetaNode::LoopVar & a, const rv::ThetaNode::LoopVar & b) { return a.input == b.input && a.pre == b.pre && a.post == b.post && a.output == b.output; };
  auto check = [&] {
    auto tl = t->GetLoopVars();
    symx_assert(tl.size() == lvs.size() && t->ninputs() == lvs.size() && t->noutputs() == lvs.size(), "the loop has the variables it was given");
    symx_assert(t->predicate()->origin() == pred, "the predicate keeps its origin");
    for (size_t i = 0; i < lvs.size() && i < tl.size(); i++)
    {
      auto & v = lvs[i].v;
      symx_assert(eq(tl[i], v), "a loop variable keeps its parts");
      symx_assert(v.input->origin() == lvs[i].origin && v.post->origin() == lvs[i].post, "a loop variable keeps its origins");
      symx_assert(eq(t->MapInputLoopVar(*v.input), v), "an input maps to its loop variable");
      symx_assert(eq(t->MapPreLoopVar(*v.pre), v), "an argument maps to its loop variable");
      symx_assert(eq(t->MapPostLoopVar(*v.post), v), "a result maps to its loop variable");
      symx_assert(eq(t->MapOutputLoopVar(*v.output), v), "an output maps to its loop variable");
      symx_assert(rv::ThetaLoopVarIsInvariant(v) == (lvs[i].post == v.pre), "a loop variable is invariant if its argument is its result");
      symx_assert(static_cast<rv::RegionArgument *>(v.pre)->input() == v.input && static_cast<rv::RegionResult *>(v.post)->output() == v.output,
          "argument and result belong to input and output");
    }
    checkRegion(r);
    m.check();
  };
  check();
  for (unsigned s = 0; s < steps; s++)
  {
    switch (pick(4, "edit"))
    {
    case 0: { auto o = vs[pick(vs.size(), "origin")]; auto v = t->AddLoopVar(o); lvs.push_back({ v, o, v.pre }); break; }
    case 1:
    {
      if (lvs.empty()) return symx_end();
      auto & l = lvs[pick(lvs.size(), "variable")];
      auto o = lvs[pick(lvs.size(), "value")].v.pre;
      l.v.post->divert_to(o), l.post = o;
      break;
    }
    case 2:
    {
      auto c = chooseSome<Lv>(lvs, [&](const Lv & l) { return l.v.output->IsDead() && (l.v.pre->IsDead() || (l.v.pre->nusers() == 1 && l.post == l.v.pre)); });
      std::vector<rv::ThetaNode::LoopVar> rm;
      std::vector<Lv> left;
      for (size_t i = 0; i < lvs.size(); i++) if (c[i]) rm.push_back(lvs[i].v); else left.push_back(lvs[i]);
      t->RemoveLoopVars(rm);
      lvs = left;
      break;
    }
    case 3: if (lvs.empty()) return symx_end(); result(r, *lvs[pick(lvs.size(), "used")].v.output); break;
    }
    check();
  }
}
// lambda (0) and delta (1) nodes: context variables
template<class N> static void contextVars(unsigned steps, rv::Region & r, N * n, unsigned params, const std::function<size_t(const std::function<bool(const rv::Input &)> &)> & removeWhere, const std::function<size_t()> & prune)
{
  std::vector<rv::Output *> vs{ &argOf(r, ty()), &argOf(r, ty()) };
  struct Cv { rv::Input * in; rv::Output * inner; const rv::Output * origin; };
  std::vector<Cv> cvs;
  auto check = [&] {
    auto nc = n->GetContextVars();
    symx_assert(nc.size() == cvs.size() && n->ninputs() == cvs.size() && n->subregion()->narguments() == cvs.size() + params, "the node has the context variables it was given");
    for (size_t i = 0; i < cvs.size() && i < nc.size(); i++)
    {
      auto & c = cvs[i];
      symx_assert(nc[i].input == c.in && nc[i].inner == c.inner && c.in->origin() == c.origin, "a context variable keeps its parts");
      auto mi = n->MapInputContextVar(*c.in);
      symx_assert(mi.input == c.in && mi.inner == c.inner, "an input maps to its context variable");
      symx_assert(static_cast<rv::RegionArgument *>(c.inner)->input() == c.in, "an argument belongs to its input");
      if constexpr (std::is_same_v<N, rv::LambdaNode>)
      {
        auto mb = n->MapBinderContextVar(*c.inner);
        symx_assert(mb && mb->input == c.in && mb->inner == c.inner, "an argument maps to its context variable");
        auto ma = n->MapArgument(*c.inner);
        auto cv = std::get_if<rv::LambdaNode::ContextVar>(&ma);
        symx_assert(cv && cv->input == c.in && cv->inner == c.inner, "an argument maps to its context variable");
      }
      else
      {
        auto mb = n->MapBinderContextVar(*c.inner);
        symx_assert(mb.input == c.in && mb.inner == c.inner, "an argument maps to its context variable");
      }
    }
    if constexpr (std::is_same_v<N, rv::LambdaNode>)
      for (auto a : n->GetFunctionArguments())
      {
        symx_assert(!n->MapBinderContextVar(*a), "a parameter is no context variable");
        auto ma = n->MapArgument(*a);
        auto av = std::get_if<rv::LambdaNode::ArgumentVar>(&ma);
        symx_assert(av && av->arg == a, "a parameter maps to itself");
      }
    checkRegion(r);
  };
  Mirror m(r);
  for (unsigned s = 0; s < steps; s++)
  {
    switch (pick(4, "edit"))
    {
    case 0: { auto o = vs[pick(vs.size(), "origin")]; auto c = n->AddContextVar(*o); cvs.push_back({ c.input, c.inner, o }); break; }
    case 1: if (cvs.empty()) return symx_end(); TestOperation::createNode(n->subregion(), { cvs[pick(cvs.size(), "used")].inner }, { ty() }); break;
    case 2:
    {
      std::vector<bool> c = chooseSome<Cv>(cvs, [](const Cv &) { return true; });
      std::vector<Cv> left;
      for (size_t i = 0; i < cvs.size(); i++) if (!c[i] || !cvs[i].inner->IsDead()) left.push_back(cvs[i]);
      auto k = removeWhere([&](const rv::Input & in) { for (size_t i = 0; i < cvs.size(); i++) if (cvs[i].in == &in) return (bool)c[i]; return false; });
      symx_assert(k == cvs.size() - left.size(), "the number of removed context variables is returned");
      cvs = left;
      break;
    }
    case 3:
    {
      auto left = without<Cv>(cvs, [](const Cv & c) { return c.inner->IsDead(); });
      symx_assert(prune() == cvs.size() - left.size(), "the number of removed context variables is returned");
      cvs = left;
      break;
    }
    }
    check();
    m.check();
  }
}
static void phiVars(unsigned steps, rv::Region & r)
{
  std::vector<rv::Output *> vs{ &argOf(r, ty()), &argOf(r, ty()) };
  Mirror m(r);
  rv::PhiBuilder pb;
  pb.begin(&r);
  struct Fv { rv::PhiNode::FixVar v; rv::Output * def; };
  struct Cv { rv::PhiNode::ContextVar v; const rv::Output * origin; };
  std::vector<Fv> fvs;
  std::vector<Cv> cvs;
  auto & phi = *static_cast<rv::PhiNode *>(pb.subregion()->node());
  auto feq = [](const rv::PhiNode::FixVar & a, const rv::PhiNode::FixVar & b) { return a.recref == b.recref && a.result == b.result && a.output == b.output; };
  auto ceq = [](const rv::PhiNode::ContextVar & a, const rv::PhiNode::ContextVar & b) { return a.input == b.input && a.inner == b.inner; };
  auto check = [&] {
    auto pf = phi.GetFixVars();
    auto pc = phi.GetContextVars();
    symx_assert(pf.size() == fvs.size() && pc.size() == cvs.size() && phi.subregion()->narguments() == fvs.size() + cvs.size(), "the node has the variables it was given");
    for (size_t i = 0; i < fvs.size() && i < pf.size(); i++)
    {
      auto & v = fvs[i].v;
      symx_assert(feq(pf[i], v) && v.result->origin() == fvs[i].def, "a recursion variable keeps its parts");
      symx_assert(feq(phi.MapOutputFixVar(*v.output), v) && feq(phi.MapResultFixVar(*v.result), v), "output and result map to their recursion variable");
      auto a = phi.MapArgumentFixVar(*v.recref);
      symx_assert(a && feq(*a, v) && !phi.MapArgumentContextVar(*v.recref), "an argument maps to its recursion variable");
      symx_assert(std::holds_alternative<rv::PhiNode::FixVar>(phi.MapArgument(*v.recref)), "an argument maps to its recursion variable");
      symx_assert(static_cast<rv::RegionResult *>(v.result)->output() == v.output, "a result belongs to its output");
    }
    for (size_t i = 0; i < cvs.size() && i < pc.size(); i++)
    {
      auto & v = cvs[i].v;
      symx_assert(ceq(pc[i], v) && v.input->origin() == cvs[i].origin, "a context variable keeps its parts");
      symx_assert(ceq(phi.MapInputContextVar(*v.input), v), "an input maps to its context variable");
      auto a = phi.MapArgumentContextVar(*v.inner);
      symx_assert(a && ceq(*a, v) && !phi.MapArgumentFixVar(*v.inner), "an argument maps to its context variable");
      symx_assert(static_cast<rv::RegionArgument *>(v.inner)->input() == v.input, "an argument belongs to its input");
    }
    checkRegion(r);
    m.check();
  };
  for (unsigned s = 0; s < steps; s++)
  {
    switch (pick(5, "edit"))
    {
    case 0: { auto o = vs[pick(vs.size(), "origin")]; cvs.push_back({ pb.AddContextVar(*o), o }); break; }
    case 1: { auto v = pb.AddFixVar(ty()); fvs.push_back({ v, v.recref }); break; }
    case 2:
    {
      // a definition, perhaps from a variable
      if (fvs.empty()) return symx_end();
      auto & f = fvs[pick(fvs.size(), "defined")];
      std::vector<rv::Output *> u;
      for (auto & x : fvs) u.push_back(x.v.recref);
      for (auto & x : cvs) u.push_back(x.v.inner);
      f.def = TestOperation::createNode(phi.subregion(), { u[pick(u.size(), "used")] }, { ty() })->output(0);
      f.v.result->divert_to(f.def);
      break;
    }
    case 3:
    {
      auto c = chooseSome<Cv>(cvs, [](const Cv & c) { return c.v.inner->IsDead(); });
      std::vector<rv::PhiNode::ContextVar> rm;
      std::vector<Cv> left;
      for (size_t i = 0; i < cvs.size(); i++) if (c[i]) rm.push_back(cvs[i].v); else left.push_back(cvs[i]);
      phi.RemoveContextVars(rm);
      cvs = left;
      break;
    }
    case 4:
    {
      auto c = chooseSome<Fv>(fvs, [](const Fv & f) { return f.v.output->IsDead() && f.def == f.v.recref && f.v.recref->nusers() == 1; });
      std::vector<rv::PhiNode::FixVar> rm;
      std::vector<Fv> left;
      for (size_t i = 0; i < fvs.size(); i++) if (c[i]) rm.push_back(fvs[i].v); else left.push_back(fvs[i]);
      phi.RemoveFixVars(rm);
      fvs = left;
      break;
    }
    }
    check();
  }
}
static void variables(unsigned steps, unsigned kind)
{
  rv::Graph g;
  auto & r = *TestStructuralNode::create(&g.GetRootRegion(), 1)->subregion(0);
  switch (kind)
  {
  case 0: gammaVars(steps, 2, r); break;
  case 1: gammaVars(steps, 3, r); break;
  case 2: thetaVars(steps, r); break;
  case 3:
  {
    auto l = rv::LambdaNode::Create(r, std::make_unique<rv::LambdaOperation>(rv::FunctionType::Create({ ty(), ty() }, {})));
    contextVars<rv::LambdaNode>(steps, r, l, 2, [&](auto & f) { return l->RemoveLambdaInputsWhere(f); }, [&] { return l->PruneLambdaInputs(); });
    break;
  }
  case 4:
  {
    auto d = rv::DeltaNode::Create(&r, std::make_unique<rv::DeltaOperation>(ty(), false, ty()));
    contextVars<rv::DeltaNode>(steps, r, d, 0, [&](auto & f) { return d->RemoveDeltaInputsWhere(f); }, [&] { return d->PruneDeltaInputs(); });
    break;
  }
  case 5: phiVars(steps, r); break;
  }
  symx_reach("edited");
  symx_observe(r.narguments() * 16 + r.nresults());
}
void harness_main()
{
  unsigned steps = symx_arg(1), sh = symx_arg(2), v = symx_arg(3);
  switch (symx_arg(0))
  {
  case 0: edits(steps, sh, v); break;
  case 1: variables(steps, sh); break;
  case 2: traverse<rv::TopDownTraverser>(true, steps, sh, v); break;
  case 3: traverse<rv::BottomUpTraverser>(false, steps, sh, v); break;
  }
}
