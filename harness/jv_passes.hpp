#pragma once
#include "jv_alias.hpp"
#include "jv_build.hpp"
#include "jv_cfg.hpp"
#include "jv_copy.hpp"
#include "jv_trace.hpp"
#include <jlm/llvm/opt/AggregateAllocaSplitting.hpp>
#include <jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.hpp>
#include <jlm/llvm/opt/alias-analyses/Andersen.hpp>
#include <jlm/llvm/opt/alias-analyses/PointsToAnalysisStateEncoder.hpp>
#include <jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.hpp>
#include <jlm/llvm/opt/CommonNodeElimination.hpp>
#include <jlm/llvm/opt/DeadNodeElimination.hpp>
#include <jlm/llvm/opt/IfConversion.hpp>
#include <jlm/llvm/opt/inlining.hpp>
#include <jlm/llvm/opt/InvariantValueRedirection.hpp>
#include <jlm/llvm/opt/IOBarrierElimination.hpp>
#include <jlm/llvm/opt/LoadChainSeparation.hpp>
#include <jlm/llvm/opt/LoopStrengthReduction.hpp>
#include <jlm/llvm/opt/LoopUnswitching.hpp>
#include <jlm/llvm/opt/NodeReduction.hpp>
#include <jlm/llvm/opt/PredicateCorrelation.hpp>
#include <jlm/llvm/opt/pull.hpp>
#include <jlm/llvm/opt/push.hpp>
#include <jlm/llvm/opt/StoreValueForwarding.hpp>
#include <jlm/llvm/opt/unroll.hpp>
namespace jv
{
inline void runNamed(unsigned pass, jl::LlvmRvsdgModule & m);
inline void runSeq(std::initializer_list<unsigned> ps, jl::LlvmRvsdgModule & m) { for (unsigned p : ps) runNamed(p, m); }
// lowers to control flow graphs, and raises again
inline void compareLowered(World & w, jl::LlvmRvsdgModule & a, jl::LlvmRvsdgModule & b, const std::vector<Val> & args, const std::string & fn)
{
  jlm::util::StatisticsCollector sc;
  auto ipg = jl::RvsdgToIpGraphConverter::CreateAndConvertModule(b, sc);
  for (auto & n : ipg->ipgraph())
    if (auto f = dynamic_cast<const jl::FunctionNode *>(&n))
      if (f->cfg()) symx_assert(jl::is_closed(*f->cfg()) && jl::is_valid(*f->cfg()), "the control flow graph is not valid");
  auto o = runRvsdg(w, Orig, a, args, fn);
  auto c = runIpg(w, Trans, *ipg, args, fn);
  compareOutcomes(o, c);
  symx_reach("compared");
  auto r = jl::ConvertInterProceduralGraphModule(*ipg, sc);
  checkGraph(r->Rvsdg());
  auto d = runRvsdg(w, Trans, *r, args, fn);
  compareOutcomes(o, d);
  symx_reach("raised");
  observeOutcome(d);
}
inline void runNamed(unsigned pass, jl::LlvmRvsdgModule & m)
{
  auto run = [&](rv::Transformation && t) { runPass(t, m); };
  switch (pass)
  {
  case 0: break;
  case 1: run(jl::CommonNodeElimination()); break;
  case 2: run(jl::DeadNodeElimination()); break;
  case 3: { jl::InvariantValueRedirection::Configuration c; run(jl::InvariantValueRedirection(c)); break; }
  case 4: run(jl::LoopUnrolling(4)); break;
  case 5: run(jl::LoopUnswitching(jl::LoopUnswitchingDefaultHeuristic::create())); break;
  case 6: run(jl::NodeHoisting()); break;
  case 7: run(jl::NodeSinking()); break;
  case 8: run(jl::FunctionInlining()); break;
  case 9: run(jl::PredicateCorrelation()); break;
  case 10: run(jl::IfConversion()); break;
  case 11: run(jl::StoreValueForwarding()); break;
  case 12: run(jl::LoadChainSeparation()); break;
  case 13: run(jl::LoopStrengthReduction()); break;
  case 14: run(jl::AggregateAllocaSplitting()); break;
  case 15: run(jl::IOBarrierElimination()); break;
  case 16: run(jl::NodeReduction()); break;
  case 17: run(jl::aa::PointsToAnalysisStateEncoder<jl::aa::Andersen, jl::aa::AgnosticModRefSummarizer>()); break;
  case 18: run(jl::aa::PointsToAnalysisStateEncoder<jl::aa::Andersen, jl::aa::RegionAwareModRefSummarizer>()); break;
  // the sequence jlc -O3 runs
  case 20: runSeq({ 8, 9, 5, 14, 1, 3, 2, 18, 11, 1, 3, 16, 2, 6, 3, 2, 16, 1, 2, 7, 3, 2, 4, 3, 10, 1, 2 }, m); break;
  // alias analysis, then everything that relies on it
  case 21: runSeq({ 18, 16, 15, 11, 12, 6, 16, 2 }, m); break;
  case 22: runSeq({ 17, 12, 11, 15, 7, 1, 16, 2 }, m); break;
  case 23: runSeq({ 18, 8, 16, 15, 11, 1, 16, 2 }, m); break;
  case 25: runSeq({ 9, 5 }, m); break;
  case 24: runSeq({ 8, 18, 14, 13, 5, 10, 16, 1, 11, 2 }, m); break;
  // lowering, as it is, after encoding memory states, after optimising
  case 30: compareHook = compareLowered; break;
  case 31: runNamed(18, m); compareHook = compareLowered; break;
  case 32: runNamed(20, m); compareHook = compareLowered; break;
  // analyses of the program as it is
  case 40: compareHook = checkPointsTo; break;
  case 41: compareHook = checkQueries; break;
  // tracing of values, as the program is and after inlining and correlating predicates
  case 42: compareHook = checkTracing; break;
  case 43: runSeq({ 8, 9 }, m); compareHook = checkTracing; break;
  // copying, node by node, and all at once
  case 50: copyNodes(m); break;
  case 51: compareHook = compareCopy; break;
  case 52: copyBodies(m.Rvsdg().GetRootRegion()); break;
  default: symx_error("no such pass");
  }
}
}
