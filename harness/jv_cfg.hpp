// Meaning of control flow graphs of three-address code (the form between LLVM and RVSDG).
#pragma once
#include "jv_rvsdg.hpp"
#include <jlm/llvm/backend/RvsdgToIpGraphConverter.hpp>
#include <jlm/llvm/frontend/InterProceduralGraphConversion.hpp>
#include <jlm/llvm/ir/basic-block.hpp>
#include <jlm/llvm/ir/cfg-structure.hpp>
#include <jlm/llvm/ir/cfg.hpp>
#include <jlm/llvm/ir/ipgraph-module.hpp>
#include <jlm/llvm/ir/ipgraph.hpp>
#include <jlm/llvm/ir/operators/operators.hpp>

namespace jv
{
class CfgEval : public Eval
{
public:
  const jl::InterProceduralGraphModule & im;
  std::map<u64, const jl::FunctionNode *> fns;
  std::unordered_map<const jl::InterProceduralGraphNode *, u64> nodeVal;
  rv::Graph scratch;
  unsigned maxSteps = 24, maxStepsTrans = 400;
  using Frame = std::unordered_map<const jl::Variable *, Val>;
  struct Inst { rv::Node * n; std::vector<rv::Output *> in; };
  std::unordered_map<const jl::ThreeAddressCode *, Inst> insts;

  CfgEval(World & w, Mode m, const jl::InterProceduralGraphModule & i) : Eval(w, m), im(i)
  {
    for (auto & n : im.ipgraph())
    {
      if (auto f = dynamic_cast<const jl::FunctionNode *>(&n))
      {
        u64 id = W.fnId(f->name());
        nodeVal[f] = id << 32;
        if (f->cfg()) fns[id] = f;
      }
      else if (auto d = dynamic_cast<const jl::DataNode *>(&n))
      {
        if (!d->initialization())
        {
          if (!globals.count(d->name())) symx_error(("unknown global " + d->name()).c_str());
          nodeVal[d] = ptr(globals[d->name()]);
          continue;
        }
        unsigned id = newObj(d->name(), sizeOf(*d->GetValueType()));
        globals[d->name()] = id;
        nodeVal[d] = ptr(id);
      }
    }
    for (auto & n : im.ipgraph())
      if (auto d = dynamic_cast<const jl::DataNode *>(&n))
        if (d->initialization())
        {
          unsigned id = globals[d->name()];
          Frame fr;
          for (auto & t : d->initialization()->tacs()) runTac(*t, fr);
          storeTyped(id, 0, *d->GetValueType(), value(fr, d->initialization()->value()));
          objs[id].readonly = d->constant();
          objs[id].canon = 1000000 + (int)(W.fnId("global " + d->name()) - FN_BASE);
          if (!(d->linkage() == jl::Linkage::internalLinkage || d->linkage() == jl::Linkage::privateLinkage)) escape(id);
        }
  }
  HB allEvents()
  {
    HB h;
    for (unsigned i = 0; i < evs.size(); i++) h.set(i);
    return h;
  }
  Val value(Frame & fr, const jl::Variable * v)
  {
    if (auto f = dynamic_cast<const jl::FunctionVariable *>(v)) return Val(nodeVal.at(f->function()));
    if (auto g = dynamic_cast<const jl::GlobalValue *>(v)) return Val(nodeVal.at(g->node()));
    auto it = fr.find(v);
    if (it == fr.end()) return Val(0, 1);
    return it->second;
  }
  void runTac(const jl::ThreeAddressCode & t, Frame & fr)
  {
    auto & op = t.operation();
    if (dynamic_cast<const jl::AssignmentOperation *>(&op))
    {
      Val v = value(fr, t.operand(1));
      fr[t.operand(0)] = v;
      return;
    }
    auto it = insts.find(&t);
    if (it == insts.end())
    {
      Inst i;
      for (size_t k = 0; k < t.noperands(); k++) i.in.push_back(&rv::GraphImport::Create(scratch, t.operand(k)->Type(), ""));
      i.n = &rv::SimpleNode::Create(scratch.GetRootRegion(), op.copy(), i.in);
      it = insts.emplace(&t, i).first;
    }
    auto & I = it->second;
    Env env;
    HB h = allEvents();
    for (size_t k = 0; k < I.in.size(); k++)
    {
      Val v = value(fr, t.operand(k));
      v.hb = h;
      env[I.in[k]] = v;
    }
    // operations without operands (alloca) are ordered by their position, too
    runSimple(*I.n, env);
    for (size_t k = 0; k < t.nresults(); k++) fr[t.result(k)] = env[I.n->output(k)];
  }
  bool hasBody(u64 fid) override { return fns.count(fid); }
  std::vector<Val> runBody(u64 fid, const std::vector<Val> & args) override { return runFunction(*fns.at(fid), args); }
  std::vector<Val> runFunction(const jl::FunctionNode & f, const std::vector<Val> & args)
  {
    if (++depth > W.maxDepth)
    {
      if (mode == Orig) symx_reject();
      symx_fail("recurses deeper than the original");
      symx_end();
    }
    auto & cfg = *f.cfg();
    Frame fr;
    if (cfg.entry()->narguments() != args.size()) { ub(true, "calls a function with the wrong number of arguments"); symx_end(); }
    for (size_t i = 0; i < args.size(); i++) fr[cfg.entry()->argument(i)] = args[i];
    size_t o0 = objs.size();
    runCfg(cfg, fr);
    std::vector<Val> res;
    for (auto r : cfg.exit()->results()) res.push_back(value(fr, r));
    for (size_t i = o0; i < objs.size(); i++)
      if (objs[i].stack && objs[i].alive) objs[i].alive = false;
    depth--;
    return res;
  }
  void runCfg(const jl::ControlFlowGraph & cfg, Frame & fr)
  {
    const jl::ControlFlowGraphNode * prev = cfg.entry(), * cur = cfg.entry()->OutEdge(0)->sink();
    for (unsigned step = 0; cur != cfg.exit(); step++)
    {
      if (step >= (mode == Orig ? maxSteps : maxStepsTrans))
      {
        if (mode == Orig) symx_reject();
        symx_fail("runs although the original has terminated");
        symx_end();
      }
      auto bb = dynamic_cast<const jl::BasicBlock *>(cur);
      if (!bb) { symx_fail("control reaches something that is not a block"); symx_end(); }
      std::vector<std::pair<const jl::Variable *, Val>> phis;
      bool branched = false;
      u64 alt = 0;
      for (auto t : bb->tacs())
      {
        if (auto phi = dynamic_cast<const jl::SsaPhiOperation *>(&t->operation()))
        {
          bool found = false;
          for (size_t k = 0; k < t->noperands() && !found; k++)
            if (phi->GetIncomingNode(k) == prev) phis.emplace_back(t->result(0), value(fr, t->operand(k))), found = true;
          if (!found) { symx_fail("a phi has no operand for a predecessor"); symx_end(); }
          continue;
        }
        for (auto & p : phis) fr[p.first] = p.second;
        phis.clear();
        if (branched) { symx_fail("code after a branch"); symx_end(); }
        if (dynamic_cast<const jl::BranchOperation *>(&t->operation()))
        {
          Val p = value(fr, t->operand(0));
          ub(p.p != 0, "branches on poison");
          alt = symx_concretize(p.v);
          branched = true;
          continue;
        }
        runTac(*t, fr);
      }
      for (auto & p : phis) fr[p.first] = p.second;
      if (!branched && bb->NumOutEdges() != 1) { symx_fail("a block with several successors does not branch"); symx_end(); }
      if (alt >= bb->NumOutEdges()) { symx_fail("branches to a successor that does not exist"); symx_end(); }
      prev = cur;
      cur = bb->OutEdge(alt)->sink();
    }
  }
  Outcome runEntry(const std::string & name, const std::vector<Val> & vals)
  {
    auto & f = *fns.at(W.fnId(name));
    std::vector<Val> args;
    size_t k = 0;
    for (size_t i = 0; i < f.cfg()->entry()->narguments(); i++)
    {
      if (isState(*f.cfg()->entry()->argument(i)->Type())) args.push_back(Val());
      else args.push_back(vals.at(k++));
    }
    Outcome out;
    try
    {
      auto res = runFunction(f, args);
      auto rs = f.cfg()->exit()->results();
      for (auto & v : res) escapeVal(v);
      expose();
      for (size_t i = 0; i < res.size(); i++)
        if (!isState(*rs[i]->Type()))
        {
          escapeVal(res[i]);
          out.results.push_back(canonVal(res[i]));
        }
    }
    catch (Stop &)
    {
      out.exited = true;
    }
    out.mem = snapshot();
    out.ntrace = traceIdx;
    return out;
  }
};
inline void observeOutcome(const Outcome & ob)
{
  for (auto & r : ob.results) symx_observe(r.a ? r.a->size() : r.v);
  for (auto & m : ob.mem)
    for (auto x : m.b) symx_observe(x);
  symx_observe(ob.ntrace);
}
inline Outcome runRvsdg(World & w, Mode mode, const jl::LlvmRvsdgModule & m, const std::vector<Val> & args, const std::string & fn = "f")
{
  auto l = findLambda(m.Rvsdg().GetRootRegion(), fn);
  if (!l) { symx_fail("the function is gone"); symx_end(); }
  Eval e(w, mode);
  registerAll(e, m.Rvsdg().GetRootRegion());
  if (mode == Orig) e.environmentInit();
  return e.run(*l, args);
}
inline Outcome runIpg(World & w, Mode mode, const jl::InterProceduralGraphModule & m, const std::vector<Val> & args, const std::string & fn = "f")
{
  CfgEval e(w, mode, m);
  if (mode == Orig) e.environmentInit();
  return e.runEntry(fn, args);
}
}
