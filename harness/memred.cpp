// Loads, stores and memory-state plumbing through NodeReduction.
// arg0: family: 0 chains of accesses, 1 IO barriers, 2 state merges/joins/splits; arg1: depth
#include "jv_mem.hpp"
#include <jlm/llvm/opt/NodeReduction.hpp>
using namespace jv;
// A, B: allocas; E: an environment object; each with its own memory state
static std::unique_ptr<jl::LlvmRvsdgModule> chains(Choices & ch)
{
  auto m = newModule();
  unsigned deep = symx_arg(1);
  auto * g = importFn(*m, "g", { ptrT() }, {});
  Fn f(m->Rvsdg().GetRootRegion(), "f", { ptrT(), bt(8), bt(8) }, { bt(8), bt(16) });
  O * gi = f.ctx(*g);
  MemProg p(ch, *f.r);
  p.alloca_(bt(16));
  p.alloca_(bt(16));
  p.object(*f.args[0], *f.mem);
  unsigned nst = symx_arg(1) ? 3 : 2;
  O * v8 = f.args[1], * w8 = f.args[2];
  O * v16 = zext(*v8, 16), * w16 = sext(*w8, 16);
  unsigned escapes = ch.pick(2, "escapes");
  if (ch.pick(2, "init")) p.store(0, *p.addr[0], *v16, 0), p.store(1, *p.addr[1], *w16, 0);
  unsigned first = ch.pick(2, "obj") * 2; // A or E
  O * last = v8, * last16 = w16;
  for (unsigned s = 0; s < nst; s++)
  {
    unsigned o = s == 0 ? first : ch.pick(2, "other") ? first == 0 ? 1 : 0 : first;
    unsigned variant = ch.pick(deep || s ? 6 : 5, "states");
    unsigned k = ch.pick(4, "stmt");
    O * val8 = s ? v8 : w8;
    if (k == 0) p.store(o, *p.addr[o], *val8, variant);
    else if (k == 1) p.store(o, *p.addr[o], s ? *w16 : *v16, variant);
    else if (k == 2) last = p.load(o, *p.addr[o], bt(8), variant);
    else last16 = p.load(o, *p.addr[o], bt(16), variant);
  }
  // everything still observable: A and B through the call (or their contents at the end), E at the end
  if (escapes)
  {
    O * s = mergeS({ p.st[0], p.st[1], p.st[2] });
    p.store(0, *p.addr[0], *v8, 0);
    s = mergeS({ s, p.st[0] });
    auto c = call(*gi, { p.addr[0] }, *f.io, *s);
    auto c2 = call(*gi, { p.addr[1] }, *c.io, *c.mem);
    f.io = c2.io;
    f.mem = c2.mem;
  }
  else
  {
    last16 = p.load(first, *p.addr[first], bt(16), 0);
    f.mem = mergeS({ p.st[0], p.st[1], p.st[2] });
  }
  exportFn(*m, *f.finish({ last, last16 }), "f");
  return m;
}
static std::unique_ptr<jl::LlvmRvsdgModule> barriers(Choices & ch)
{
  auto m = newModule();
  auto & root = m->Rvsdg().GetRootRegion();
  auto * g = importFn(*m, "g", {}, {});
  Fn f(root, "f", { ptrT(), bt(64), bt(8), bt(32) }, { bt(16) });
  O * gi = f.ctx(*g);
  O * x = f.args[2];
  O * base, * st = f.mem;
  unsigned o = ch.pick(2, "obj");
  MemProg p(ch, *f.r);
  if (o == 0) { p.alloca_(bt(32)); base = p.addr[0]; st = p.st[0]; O * s = st; jv::store(*base, *f.args[3], s); st = s; }
  else base = f.args[0];
  unsigned ak = ch.pick(3, "offset");
  O * a = base;
  if (ak == 1) a = gepBytes(*base, *cst(*f.r, 8, ch.sym(8, "off")));
  if (ak == 2) a = gepBytes(*base, *f.args[1]);
  auto c = call(*gi, {}, *f.io, *f.mem);
  f.io = c.io;
  f.mem = c.mem;
  if (o) st = f.mem;
  a = jl::IOBarrierOperation::createNode(*a, *f.io).output(0);
  O * res = cst(*f.r, 16, 0);
  switch (ch.pick(4, "stmt"))
  {
  case 0: { O * v = jv::load(*a, st, bt(8)); res = zext(*v, 16); break; }
  case 1: res = jv::load(*a, st, bt(16)); break;
  case 2: jv::store(*a, *x, st); break;
  case 3: jv::store(*a, *sext(*x, 16), st); break;
  }
  if (o == 0)
  {
    O * v = jv::load(*base, st, bt(16));
    res = ibin(IOp::Add, *res, *v);
    f.mem = mergeS({ f.mem, st });
  }
  else f.mem = st;
  exportFn(*m, *f.finish({ res }), "f");
  return m;
}
// plumbing: states split, merged and joined in nests around accesses to three environment objects
static std::unique_ptr<jl::LlvmRvsdgModule> plumbing(Choices & ch)
{
  auto m = newModule();
  Fn f(m->Rvsdg().GetRootRegion(), "f", { ptrT(), ptrT(), ptrT(), bt(8), bt(8) }, { bt(8), bt(8) });
  MemProg p(ch, *f.r);
  unsigned first = ch.pick(3, "split");
  std::vector<O *> s;
  auto split = [&](O & o, size_t n) { return jl::MemoryStateSplitOperation::Create(o, n); };
  if (first == 0) s = split(*f.mem, 3);
  else if (first == 1)
  {
    auto t = split(*f.mem, 2);
    unsigned k = ch.pick(2, "nested");
    auto u = split(*t[k], 2);
    s = k ? std::vector<O *>{ t[0], u[0], u[1] } : std::vector<O *>{ u[0], u[1], t[1] };
  }
  else s = rv::outputs(&jl::LambdaEntryMemoryStateSplitOperation::CreateNode(*f.mem, { 0, 1, 2 }));
  for (int i = 0; i < 3; i++) p.object(*f.args[i], *s[i]);
  unsigned variant = ch.pick(4, "states");
  p.store(0, *p.addr[0], *f.args[3], variant);
  // middle: some states go through a merge and come back through a split
  unsigned mid = ch.pick(6, "middle");
  auto & q = p.st;
  if (mid == 1) { auto t = split(*mergeS({ q[0], q[1] }), 2); q[0] = t[0], q[1] = t[1]; }
  if (mid == 2) { auto t = split(*mergeS({ q[2], q[1] }), 2); q[1] = t[1], q[2] = t[0]; }
  if (mid == 3) { auto t = split(*mergeS({ q[0], q[1] }), 3); q[0] = t[0], q[1] = t[2]; q[2] = mergeS({ q[2], t[1] }); }
  if (mid == 4) { auto t = split(*mergeS({ q[0], q[1], q[0] }), 3); q[0] = mergeS({ t[0], t[2] }), q[1] = t[1]; }
  if (mid == 5) { q[0] = q[1] = mergeS({ q[0], q[1] }); p.store(1, *p.addr[1], *f.args[3], ch.pick(4, "states3")); }
  O * a = p.load(0, *p.addr[0], bt(8), ch.pick(3, "states2"));
  p.store(1, *p.addr[1], *f.args[4], 0);
  O * b = p.load(2, *p.addr[2], bt(8), 0);
  unsigned end = ch.pick(6, "end");
  switch (end)
  {
  case 0: f.mem = mergeS({ q[0], q[1], q[2] }); break;
  case 1: f.mem = mergeS({ mergeS({ q[0], q[1] }), q[2], q[0] }); break;
  case 2: f.mem = mergeS({ q[2], mergeS({ q[0], mergeS({ q[1], q[1] }) }) }); break;
  case 3: f.mem = jl::LambdaExitMemoryStateMergeOperation::CreateNode(*f.r, { q[0], q[1], q[2] }, { 0, 1, 2 }).output(0); break;
  case 4:
  {
    O * j = joinS({ q[0], q[0] });
    f.mem = mergeS({ j, q[1], q[2] });
    break;
  }
  default:
  {
    // joins: several states of one object
    auto & n1 = jl::LoadNonVolatileOperation::CreateNode(*p.addr[2], { q[2] }, bt(8), 1);
    auto & n2 = jl::LoadNonVolatileOperation::CreateNode(*p.addr[2], { q[2] }, bt(8), 1);
    O * j = joinS({ n1.output(1), n2.output(1), n1.output(1) });
    j = joinS({ j, n2.output(1) });
    q[2] = j;
    p.store(2, *p.addr[2], *n1.output(0), 0);
    b = n2.output(0);
    f.mem = mergeS({ q[0], q[1], q[2] });
  }
  }
  exportFn(*m, *f.finish({ a, b }), "f");
  return m;
}
void harness_main()
{
  World w;
  jl::NodeReduction pass;
  auto run = [&](auto & m) { runPass(pass, m); };
  u64 x = symx_var(8, "x"), y = symx_var(8, "y");
  switch (symx_arg(0))
  {
  case 0:
  {
    auto e = w.addExt("e", 2);
    validate(w, chains, run, { Val(World::extPtr(e)), Val(x), Val(y) });
    break;
  }
  case 1:
  {
    w.mayExit = true;
    auto e = w.addExt("e", 3);
    u64 off = symx_var(64, "i");
    validate(w, barriers, run, { Val(World::extPtr(e, symx_choose(2, "null") ? 0x20000000 : 0)), Val(off), Val(x), Val(symx_var(32, "z")) });
    break;
  }
  case 2:
  {
    auto a = w.addExt("a", 1), b = w.addExt("b", 1), c = w.addExt("c", 1);
    validate(w, plumbing, run, { Val(World::extPtr(a)), Val(World::extPtr(b)), Val(World::extPtr(c)), Val(x), Val(y) });
    break;
  }
  }
}
