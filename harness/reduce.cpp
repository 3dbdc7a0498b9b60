// Simplification of scalar code other than single integer operations, through NodeReduction.
// arg0: family: 0 expression chains, 1 conditionals on matches, 2 pointer comparisons, 3 address computations, 4 conversions; arg1: 1 = more operations and keys
#include "jv_build.hpp"
#include <jlm/llvm/opt/NodeReduction.hpp>
using namespace jv;
using M = std::unique_ptr<jl::LlvmRvsdgModule>;
static M exprs(Choices & ch)
{
  auto m = newModule();
  Fn f(m->Rvsdg().GetRootRegion(), "f", { bt(8), bt(8) }, { bt(8), bt(16), bt(1) });
  R & r = *f.r;
  std::vector<O *> v{ f.args[0], f.args[1], cst(r, 8, ch.sym(8, "c0")) };
  static const IOp ops[] = { IOp::Sub, IOp::Add, IOp::And, IOp::Shl, IOp::Xor };
  auto pickv = [&](const char * n, unsigned k) { return v[ch.pick(k, n)]; };
  v.push_back(ibin(ops[ch.pick(symx_arg(1) ? 5 : 3, "op0")], *pickv("a0", 3), *pickv("b0", 3)));
  O * w;
  switch (ch.pick(3, "ext"))
  {
  case 0: w = zext(*v[3], 16); break;
  case 1: w = sext(*v[3], 16); break;
  default: w = zext(*trunc(*v[3], 3), 16);
  }
  v.push_back(ibin(ops[ch.pick(symx_arg(1) ? 5 : 2, "op1")], *v[3], *pickv("b1", 4)));
  O * x = ibin(ops[ch.pick(symx_arg(1) ? 3 : 2, "op2")], *v[4 - ch.pick(2, "a2")], *v[3]);
  O * c = ibin(ch.pick(2, "cmp") ? IOp::Slt : IOp::Eq, *x, *v[2]);
  O * y = select(*c, *x, *v[4]);
  exportFn(*m, *f.finish({ y, w, trunc(*x, 1) }), "f");
  return m;
}
// extensions, truncations, chained and binary
static M conversions(Choices & ch)
{
  auto m = newModule();
  Fn f(m->Rvsdg().GetRootRegion(), "f", { bt(8) }, { bt(64), bt(1) });
  R & r = *f.r;
  static const unsigned ws[] = { 1, 3, 8, 16, 32, 64 };
  O * v = ch.pick(2, "const") ? cst(r, 8, ch.sym(8, "c")) : f.args[0];
  unsigned w = 8;
  for (int i = 0; i < 3; i++)
  {
    unsigned nw = ws[ch.pick(6, "w")];
    if (nw > w) v = ch.pick(2, "signed") ? sext(*v, nw) : zext(*v, nw);
    else if (nw < w) v = trunc(*v, nw);
    w = nw;
  }
  O * b = w > 1 ? trunc(*v, 1) : v;
  O * z = w < 64 ? zext(*v, 64) : v;
  exportFn(*m, *f.finish({ z, b }), "f");
  return m;
}
static M conditionals(Choices & ch)
{
  auto m = newModule();
  Fn f(m->Rvsdg().GetRootRegion(), "f", { bt(8), bt(8), ptrT() }, { bt(8), bt(8) });
  R & r = *f.r;
  O * x = f.args[0], * y = f.args[1];
  unsigned nalt = 2 + ch.pick(2, "nalt");
  O * k;
  switch (ch.pick(3, "key"))
  {
  case 0: k = x; break;
  case 1: k = cst(r, 8, ch.sym(8, "k")); break;
  default: k = ibin(IOp::Sub, *x, *x);
  }
  std::unordered_map<uint64_t, uint64_t> map;
  // keys and targets
  unsigned nk = symx_arg(1) ? ch.pick(4, "keys") : ch.pick(2, "keys") + 2, base = nk == 3 ? 250 : 0;
  for (unsigned i = 0; i < std::min(nk, 2u); i++) map[base + i * 3] = i && !symx_arg(1) ? (map[base] + 1) % nalt : ch.pick(nalt, "target");
  if (nk == 3) map[0] = 1;
  O * p = matchN(*k, map, (symx_arg(1) ? ch.pick(nalt, "default") : 0), nalt);
  unsigned shape = ch.pick(4, "shape");
  Gam g(*p, nalt);
  auto ex = g.in(*x), ey = g.in(*y), em = g.in(*f.mem), ep = g.in(*f.args[2]);
  std::vector<O *> r0, r1, rm;
  for (unsigned i = 0; i < nalt; i++)
  {
    O * st = em[i];
    if (shape == 0) { r0.push_back(i & 1 ? ex[i] : ey[i]); r1.push_back(ey[i]); }
    else if (shape == 1) { r0.push_back(cst(g.br(i), 8, 7 * i + 1)); r1.push_back(ibin(IOp::Add, *ex[i], *cst(g.br(i), 8, i))); }
    else if (shape == 2)
    {
      O * v = cst(g.br(i), 8, i);
      store(*ep[i], *v, st);
      r0.push_back(v);
      r1.push_back(i ? load(*ep[i], st, bt(8)) : ey[i]);
    }
    else
    {
      // nested, on a constant
      Gam h(*matchN(*cst(g.br(i), 8, i), { { 1, 1 } }, 0, 2), 2);
      auto hx = h.in(*ex[i]);
      auto hs = h.in(*st), hp = h.in(*ep[i]);
      O * s1 = hs[1];
      store(*hp[1], *hx[1], s1);
      st = h.out({ hs[0], s1 });
      O * q = h.out({ cst(h.br(0), 8, 3), hx[1] });
      r0.push_back(q);
      r1.push_back(ibin(IOp::Xor, *q, *ey[i]));
    }
    rm.push_back(st);
  }
  O * a = g.out(r0), * b = g.out(r1);
  f.mem = g.out(rm);
  exportFn(*m, *f.finish({ a, b }), "f");
  return m;
}
static bool weak;
static M ptrcmps(Choices & ch)
{
  auto m = newModule();
  auto & root = m->Rvsdg().GetRootRegion();
  Fn f(root, "f", { ptrT(), bt(64), bt(8) }, { bt(1) });
  R & r = *f.r;
  auto al = jl::AllocaOperation::create(bt(32), cst(r, 32, 1), 4);
  O * a = f.args[0];
  static const jl::ICmpPredicate preds[] = { jl::ICmpPredicate::Eq, jl::ICmpPredicate::Ne, jl::ICmpPredicate::Ugt, jl::ICmpPredicate::Ule };
  auto pred = preds[ch.pick(4, "pred")];
  unsigned k = ch.pick(11, "ptr");
  switch (k)
  {
  case 0: break;
  case 10: a = f.ctx(*importGlobal(*m, "gw", bt(32), weak ? jl::Linkage::externalWeakLinkage : jl::Linkage::externalLinkage)); break;
  case 1: a = al[0]; break;
  case 2: a = gep(*f.args[0], { cst(r, 64, 0) }, bt(8)); break;
  case 3: a = gep(*f.args[0], { f.args[1] }, bt(8)); break;
  case 4: a = nullPtr(r); break;
  case 5: { auto & n = jl::MallocOperation::createNode(*cst(r, 64, 4), *f.io); a = n.output(0); f.io = n.output(1); f.mem = mergeS({ f.mem, n.output(2) }); break; }
  case 6: case 7: case 8:
  {
    // routed through a conditional: invariant, or one of two
    Gam g(*matchEq(*f.args[2], 3), 2);
    auto e = g.in(*al[0]), e2 = g.in(*f.args[0]);
    a = k == 6 ? g.out({ e[0], e[1] }) : k == 7 ? g.out({ e[0], e2[1] }) : g.out({ e2[0], nullPtr(g.br(1)) });
    break;
  }
  default:
  {
    The t(r);
    auto p = t.var(*al[0]), q = t.var(*f.args[0]), x = t.var(*f.args[2]);
    if (ch.pick(2, "inv")) post(p, *q.pre);
    O * n = ibin(IOp::Add, *x.pre, *cst(t.r(), 8, 1));
    post(x, *n);
    t.pred(*matchEq(*n, 3, 0, 1));
    a = p.output;
  }
  }
  O * z = nullPtr(r);
  if (ch.pick(2, "side")) std::swap(a, z);
  O * c = jl::PtrCmpOperation::createNode(pred, *a, *z).output(0);
  exportFn(*m, *f.finish({ c }), "f");
  return m;
}
static M addresses(Choices & ch)
{
  auto m = newModule();
  auto & root = m->Rvsdg().GetRootRegion();
  Fn f(root, "f", { ptrT(), bt(64), bt(8) }, { bt(8), ptrT() });
  R & r = *f.r;
  O * a = f.args[0];
  Ty st = jl::StructType::CreateLiteral({ bt(8), bt(16), jl::ArrayType::Create(bt(8), 3) }, ch.pick(2, "packed"));
  for (int i = 0; i < 2; i++)
  {
    auto idx = [&](unsigned w, const char * n) { return ch.pick(2, n) ? (w == 64 ? f.args[1] : f.args[2]) : cst(r, w, ch.sym(2, "ci")); };
    switch (ch.pick(i ? 3 : 5, "gep"))
    {
    case 0: a = gep(*a, { idx(64, "dyn") }, bt(8)); break;
    case 1: a = gep(*a, { idx(8, "dyn") }, bt(16)); break;
    case 2: a = gep(*a, { cst(r, 32, 0), cst(r, 32, ch.pick(3, "field")) }, st); break;
    case 3: a = gep(*a, { cst(r, 32, ch.pick(2, "ix")), cst(r, 32, 2), idx(8, "dyn") }, st); break;
    default: a = gep(*a, {}, bt(8));
    }
  }
  O * p = a;
  O * v = load(*p, f.mem, bt(8));
  exportFn(*m, *f.finish({ v, p }), "f");
  return m;
}
void harness_main()
{
  World w;
  jl::NodeReduction pass;
  auto run = [&](auto & m) { runPass(pass, m); };
  u64 x = symx_var(8, "x"), y = symx_var(8, "y");
  switch (symx_arg(0))
  {
  case 0: validate(w, exprs, run, { Val(x), Val(y) }); break;
  case 1:
  {
    auto e = w.addExt("e", 1);
    validate(w, conditionals, run, { Val(x), Val(y), Val(World::extPtr(e)) });
    break;
  }
  case 2:
  {
    auto e = w.addExt("e", 4);
    w.mallocNull = true;
    weak = symx_choose(2, "weak");
    w.ext[w.addExt("gw", 4)].null = weak && symx_choose(2, "absent");
    u64 i = symx_var(2, "i");
    validate(w, ptrcmps, run, { Val(symx_choose(2, "null") ? World::extPtr(e) : 0), Val(i), Val(x) });
    break;
  }
  case 3:
  {
    auto e = w.addExt("e", 16);
    validate(w, addresses, run, { Val(World::extPtr(e)), Val(symx_var(3, "i")), Val(symx_var(3, "j")) });
    break;
  }
  case 4: validate(w, conversions, run, { Val(x) }); break;
  }
}
