// Copying nodes, regions and modules.
#pragma once
#include "jv_build.hpp"
#include <jlm/rvsdg/traverser.hpp>
namespace jv
{
// replaces every node of the root region by a copy
inline void copyNodes(jl::LlvmRvsdgModule & m)
{
  auto & root = m.Rvsdg().GetRootRegion();
  std::vector<rv::Node *> nodes;
  for (auto n : rv::TopDownTraverser(&root)) nodes.push_back(n);
  rv::SubstitutionMap smap;
  for (size_t i = 0; i < root.narguments(); i++) smap.insert(root.argument(i), root.argument(i));
  for (auto n : nodes)
  {
    auto c = n->copy(&root, smap);
    symx_assert(c != nullptr && c != n && c->region() == &root, "copying a node gives no node in the target region");
    symx_assert(c->ninputs() == n->ninputs() && c->noutputs() == n->noutputs(), "the copy of a node has other inputs or outputs");
    for (size_t i = 0; i < n->noutputs(); i++)
      symx_assert(&smap.lookup(*n->output(i)) == c->output(i), "an output is not mapped to the output of the copy");
  }
  for (size_t i = 0; i < root.nresults(); i++) root.result(i)->divert_to(&smap.lookup(*root.result(i)->origin()));
  root.prune(false);
  for (auto n : nodes)
    for (auto & x : root.Nodes()) symx_assert(&x != n, "the copy still depends on the original");
}
inline void compareCopy(World & w, jl::LlvmRvsdgModule & a, jl::LlvmRvsdgModule & b, const std::vector<Val> & args, const std::string & fn)
{
  u64 fp = fingerprint(b.Rvsdg().GetRootRegion());
  auto c = b.copy();
  symx_assert(fp == fingerprint(b.Rvsdg().GetRootRegion()), "copying a module changed it");
  checkGraph(c->Rvsdg());
  checkGraph(b.Rvsdg());
  compareModules(w, a, static_cast<jl::LlvmRvsdgModule &>(*c), args, fn);
}
// a copy of the body of every function, in a new function
inline void copyBodies(rv::Region & r)
{
  std::vector<rv::LambdaNode *> ls;
  for (auto & n : r.Nodes())
  {
    if (auto l = dynamic_cast<rv::LambdaNode *>(&n)) ls.push_back(l);
    if (auto p = dynamic_cast<rv::PhiNode *>(&n)) copyBodies(*p->subregion());
  }
  for (auto l : ls)
  {
    auto & op = static_cast<const jl::LlvmLambdaOperation &>(l->GetOperation());
    auto d = rv::LambdaNode::Create(r, jl::LlvmLambdaOperation::Create(op.Type(), op.name(), op.linkage(), op.callingConvention(), op.attributes()));
    rv::SubstitutionMap smap;
    for (auto & c : l->GetContextVars()) smap.insert(c.inner, d->AddContextVar(*c.input->origin()).inner);
    auto x = l->GetFunctionArguments(), y = d->GetFunctionArguments();
    for (size_t i = 0; i < x.size(); i++) smap.insert(x[i], y[i]);
    l->subregion()->copy(d->subregion(), smap);
    std::vector<O *> res;
    for (auto q : l->GetFunctionResults()) res.push_back(&smap.lookup(*q->origin()));
    auto o = d->finalize(res);
    l->output()->divert_users(o);
    rv::remove(l);
  }
}
}
