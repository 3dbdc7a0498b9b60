// What tracing says about where values come from, against the values of an execution.
#pragma once
#include "jv_build.hpp"
#include <jlm/llvm/ir/Trace.hpp>
#include <jlm/rvsdg/RegionPredicateTrace.hpp>
#include <jlm/rvsdg/Trace.hpp>
namespace jv
{
struct TraceProbe : Probe
{
  using Env = std::unordered_map<const rv::Output *, Val>;
  struct Done { const rv::Node * n; std::vector<rv::Region *> rs; };
  struct Frame { rv::Region * r; const Env * env; std::vector<Done> done; };
  std::vector<Frame> st;
  Eval * e = nullptr;
  std::unordered_map<const O *, std::vector<Val>> had; // values an output ever had
  bool wild = false;
  rv::RegionPredicateTrace preds;
  rv::OutputTracer plain{ false }, cached{ true }, shallow{ true }, intra{ false };
  jl::OutputTracer llvm{ true };
  TraceProbe() { shallow.setTraceThroughStructuralNodes(false); intra.setInterprocedural(false); llvm.setTraceThroughLoadedStates(true); }
  static bool lambda(const rv::Region & r) { return dynamic_cast<const rv::LambdaNode *>(r.node()) != nullptr; }
  static bool delta(const rv::Region & r) { return dynamic_cast<const rv::DeltaNode *>(r.node()) != nullptr; }
  void enter(const rv::Region & cr, const Env & env) override
  {
    auto & r = const_cast<rv::Region &>(cr);
    if (!st.empty() && !lambda(r) && !delta(r))
    {
      auto & d = st.back().done;
      if (!d.empty() && d.back().n == r.node()) d.pop_back(); // the previous iteration
      for (size_t i = st.size(); i-- > 0;)
      {
        for (auto & x : st[i].done)
          for (auto q : x.rs) before(*q, r);
        if (lambda(*st[i].r)) break;
        before(*st[i].r, r);
      }
    }
    st.push_back({ &r, &env, {} });
  }
  void before(rv::Region & a, rv::Region & b)
  {
    symx_assert(preds.CheckPredicatesSatisfiable(a, b), "a region was entered that predicates are said not to allow");
    symx_reach("predicates");
  }
  void leave(const rv::Region & cr, const Env & env) override
  {
    auto & r = *st.back().r;
    if (!delta(r))
    {
      std::vector<O *> os;
      for (size_t i = 0; i < r.narguments(); i++) os.push_back(r.argument(i));
      for (auto n : e->order(r))
        for (size_t i = 0; i < n->noutputs(); i++) os.push_back(const_cast<O *>(static_cast<const O *>(n->output(i))));
      for (auto o : os)
      {
        auto it = env.find(o);
        if (it == env.end()) continue;
        if (isState(*o->Type()) && !ctl(*o)) { trace(*o, nullptr, r); continue; }
        if (!it->second.a) had[o].push_back(it->second);
        trace(*o, &it->second, r);
        if (jl::PointerType * p = nullptr; dynamic_cast<decltype(p)>(const_cast<rv::Type *>(o->Type().get())) && !it->second.a) pointer(*o, it->second);
      }
    }
    auto done = std::move(st.back().done);
    st.pop_back();
    if (st.empty() || lambda(r) || delta(r)) return;
    std::vector<rv::Region *> all{ &r };
    for (auto & d : done) all.insert(all.end(), d.rs.begin(), d.rs.end());
    st.back().done.push_back({ r.node(), all });
  }
  static bool ctl(const O & o) { return dynamic_cast<const rv::ControlType *>(o.Type().get()) != nullptr; }
  static rv::Region * regionOf(O & o) { return o.region(); }
  // the value o has now; false: none that is known
  bool value(O & o, Val & v)
  {
    auto r = o.region();
    for (auto p = r; ; p = p->node()->region())
    {
      if (!p->node()) break;
      if (!lambda(*p)) continue;
      // inside of a function: must be an enclosing region of the current one
      for (size_t i = st.size(); i-- > 0;)
      {
        if (st[i].r == r)
        {
          auto it = st[i].env->find(&o);
          symx_assert(it != st[i].env->end(), "a value is traced to one that has not been computed");
          if (it == st[i].env->end()) return false;
          v = it->second;
          return true;
        }
        if (lambda(*st[i].r)) break;
      }
      symx_assert(false, "a value is traced into a region that does not enclose it");
      return false;
    }
    if (e->lambdas.empty()) return false;
    v = Val(e->resolveStatic(&o));
    return true;
  }
  void same(O & o, const Val & v, O & t, const char * msg)
  {
    symx_assert(*o.Type() == *t.Type(), "a value is traced to one of another type");
    if (&o == &t) return;
    Val x;
    if (!value(t, x) || v.a || x.a) return;
    symx_assert((v.p == x.p) & ((v.p != 0) | (v.v == x.v)), msg);
    symx_reach("traced");
  }
  void trace(O & o, const Val * v, rv::Region & r)
  {
    struct { rv::OutputTracer * t; const char * m; } ts[] = {
      { &plain, "tracing leads to another value" }, { &cached, "tracing with a cache leads to another value" },
      { &shallow, "shallow tracing leads to another value" }, { &intra, "tracing within functions leads to another value" },
      { &llvm, "LLVM tracing leads to another value" } };
    for (auto & x : ts)
    {
      auto & t = x.t->trace(o);
      auto & u = x.t->trace(o, &r);
      symx_assert(u.region() == &r, "tracing left the region it should stay in");
      if (!v) continue;
      same(o, *v, t, x.m);
      same(o, *v, u, x.m);
      if (x.t == &intra)
      {
        auto f = [](rv::Region * q) { while (q->node() && !lambda(*q)) q = q->node()->region(); return q; };
        symx_assert(f(t.region()) == f(&r), "tracing within functions left the function");
      }
    }
    if (!v || v->a) return;
    if (unsigned w = ctl(o) ? 0 : dynamic_cast<const rv::BitType *>(o.Type().get()) ? bitsOf(*o.Type()) : 0)
      if (auto c = jl::tryGetConstantSignedInteger(o))
      {
        symx_assert((v->p != 0) | ((u64)*c == sx(v->v, w)), "a value is said to be a constant that it is not");
        symx_reach("constant");
      }
  }
  void pointer(O & o, const Val & v)
  {
    auto p = jl::TracePointerOriginPrecise(o);
    Val b;
    auto off = p.getOffsetInBytes();
    symx_assert(off.has_value(), "a precisely traced pointer has no offset");
    if (value(const_cast<O &>(*p.BasePointer), b) && off && !b.a)
    {
      symx_assert((v.p != 0) | ((b.p == 0) & (v.v == b.v + (u64)*off)), "a pointer is traced to a wrong origin or offset");
      if (&o != p.BasePointer) symx_reach("pointer");
    }
    jl::TraceCollection c;
    if (!jl::TraceAllPointerOrigins({ &o, std::vector<jl::GetElementPtrOperation::Constant>() }, c, 1000)) return;
    bool ok = v.p != 0;
    if (auto n = rv::TryGetOwnerNode<rv::SimpleNode>(o); n && jlm::rvsdg::is<jl::GetElementPtrOperation>(n))
    {
      auto base = st.back().env->find(n->input(0)->origin());
      wild = wild || symx_is_symbolic(v.v >> 32) || symx_is_symbolic(base->second.v >> 32) || (v.v >> 32) != (base->second.v >> 32);
    }
    if (wild || symx_is_symbolic(v.v >> 32)) // addresses computed beyond their object: numbers taken for pointers
      for (auto & [q, d] : c.TopOrigins) if (!d) return;
    for (auto & [q, d] : c.TopOrigins)
    {
      auto h = had.find(q);
      Val x;
      auto cmp = [&](const Val & y) { ok = ok | (d ? v.v == y.v + (u64)*d : ((v.v >> 32) == (y.v >> 32)) | ((v.v - y.v + 0x80000000u) >> 32 == 0)); };
      if (h != had.end()) for (auto & y : h->second) cmp(y);
      auto owner = q->region();
      while (owner->node() && !lambda(*owner)) owner = owner->node()->region();
      if (!owner->node()) cmp(Val(e->resolveStatic(q)));
      else if (isEnclosing(q->region()) && value(const_cast<O &>(*q), x)) cmp(x);
    }
    symx_assert(ok, "a pointer comes from none of the origins it is traced to");
    symx_reach("origins");
  }
  bool isEnclosing(const rv::Region * r)
  {
    for (size_t i = st.size(); i-- > 0;)
    {
      if (st[i].r == r) return true;
      if (lambda(*st[i].r)) break;
    }
    return false;
  }
};
inline void checkTracing(World & w, jl::LlvmRvsdgModule &, jl::LlvmRvsdgModule & b, const std::vector<Val> & args, const std::string & fn)
{
  Eval e(w, Orig);
  TraceProbe pr;
  pr.e = &e;
  e.probe = &pr;
  auto & root = b.Rvsdg().GetRootRegion();
  registerAll(e, root);
  e.environmentInit();
  e.run(*findLambda(root, fn), args);
  symx_reach("analysed");
}
}
