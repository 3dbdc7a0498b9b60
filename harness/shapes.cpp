// Programs for relations between variables: equal and almost equal results of conditionals and loops, reads around loops that write in different
// ways, objects created in loops.
// arg0: pass; arg1: family: 0 results of conditionals, 1 loop variables, 2 reads around loops, 3 objects of loop iterations; arg2: 1 = more
#include "jv_passes.hpp"
#include "jv_progs.hpp"
#include <jlm/llvm/ir/operators/StdLibIntrinsicOperations.hpp>
using namespace jv;
static bool deep() { return symx_arg(2) == 1; }
static bool lite() { return symx_arg(2) == 2; }
// a switch with two results that agree in none, some or all alternatives
static M exits(Choices & ch)
{
  auto m = newModule();
  F4 f(*m);
  unsigned n = 2 + ch.pick(2, "alternatives");
  O * pred = n == 2 ? isZero(*f.x) : matchN(*f.x, { { 1, 1 }, { 2, 2 } }, 0, 3);
  Gam G(*pred, n);
  auto ex = G.in(*f.x), ey = G.in(*f.y), ey2 = G.in(*f.y), ep = G.in(*f.p), em = G.in(*f.mem);
  std::vector<O *> r1, r2, r3, ms;
  bool written = ch.pick(2, "writes");
  for (unsigned i = 0; i < n; i++)
  {
    O * s = em[i];
    O * sum = add(*ex[i], *ey[i]);
    O * v[4] = { ey[i], ex[i], ey2[i], sum };
    r1.push_back(v[i == 0 ? ch.pick(2, "first") : 0]);
    r2.push_back(v[ch.pick(3, "second")]);
    if (deep()) r3.push_back(v[ch.pick(4, "third")]);
    else r3.push_back(i ? add(*ey2[i], *ex[i]) : sum);
    if (written && i == n - 1) store(*ep[i], *sum, s);
    ms.push_back(s);
  }
  O * a = G.out(r1), * b = G.out(r2), * c = G.out(r3);
  f.mem = G.out(ms);
  exportFn(*m, *f.finish({ sub(*a, *b), c }), "f");
  return m;
}
// loop variables that start or continue equal or not
static M loopVars(Choices & ch)
{
  auto m = newModule();
  F4 f(*m);
  The T(*f.r);
  O * one = cst(*f.r, 8, 1), * uno = cst(*f.r, 8, 1), * two = cst(*f.r, 8, 2);
  O * inits[] = { one, uno, two, f.x };
  auto vi = T.var(*cst(*f.r, 8, 0)), va = T.var(*one), vb = T.var(*inits[1 + ch.pick(2, "init")]), vc = T.var(*inits[ch.pick(deep() ? 4 : 3, "init")]), vx = T.var(*f.x), vm = T.var(*f.mem), vp = T.var(*f.p);
  O * s = vm.pre;
  auto next = [&](unsigned k, const rv::ThetaNode::LoopVar & self) -> O * {
    switch (k)
    {
    case 0: return self.pre;
    case 1: return add(*self.pre, *vx.pre);
    case 2: return add(*va.pre, *vx.pre);
    case 3: return vb.pre;
    case 4: return va.pre;
    default: return vc.pre;
    }
  };
  post(va, *next(ch.pick(2, "a"), va));
  post(vb, *next(ch.pick(deep() ? 6 : 5, "b"), vb));
  O * nc = next(ch.pick(4, "c"), vc);
  if (ch.pick(2, "store")) store(*vp.pre, *sub(*va.pre, *vc.pre), s);
  post(vc, *nc);
  post(vm, *s);
  O * i1 = add(*vi.pre, 1);
  post(vi, *i1);
  T.pred(*matchEq(*ibin(IOp::Ult, *i1, *cst(T.r(), 8, 3)), 1));
  f.mem = vm.output;
  exportFn(*m, *f.finish({ sub(*va.output, *vb.output), sub(*vb.output, *vc.output) }), "f");
  return m;
}
// reads before and after a loop whose body changes the memory in one of several ways
static M loopChains(Choices & ch)
{
  auto m = newModule();
  auto * g = importG(*m);
  F4 f(*m);
  R & r = *f.r;
  O * s = f.mem, * res = f.y;
  unsigned before = ch.pick(2, "before");
  if (before) res = add(*res, *load(*f.p, s, bt(8)));
  O * s2 = nullptr;
  unsigned body = ch.pick(11, "body");
  bool two = body >= 8;
  if (two) { auto al = jl::AllocaOperation::create(bt(8), cst(r, 32, 1), 1); s2 = al[1]; store(*al[0], *f.x, s2); }
  The T(r);
  auto vi = T.var(*cst(r, 8, 0)), vx = T.var(*f.x), vp = T.var(*f.p), vq = T.var(*f.q), vg = T.var(*f.ctx(*g)), vio = T.var(*f.io), vs = T.var(*s), vr = T.var(*res), vl = T.var(*cst(r, 64, 1));
  auto vt = two ? T.var(*s2) : vs;
  R & b = T.r();
  O * t = vs.pre, * u = vt.pre, * rr = vr.pre, * io = vio.pre, * v = add(*vx.pre, *vi.pre);
  bool readFirst = ch.pick(2, "read first");
  if (readFirst) rr = add(*rr, *load(*vp.pre, t, bt(8)));
  switch (body)
  {
  case 0: break;
  case 1: store(*(ch.pick(2, "target") ? vp : vq).pre, *v, t); break;
  case 2: t = jl::MemSetNonVolatileOperation::createNode(*(ch.pick(2, "target") ? vp : vq).pre, *v, *vl.pre, { t }).output(0); break;
  case 3: t = jl::MemCpyNonVolatileOperation::createNode(*(ch.pick(2, "target") ? vp : vq).pre, *(ch.pick(2, "source") ? vp : vq).pre, *vl.pre, { t }).output(0); break;
  case 4: t = jl::MemMoveNonVolatileOperation::createNode(*(ch.pick(2, "target") ? vp : vq).pre, *(ch.pick(2, "source") ? vp : vq).pre, *vl.pre, { t }).output(0); break;
  case 5: { auto k = call(*vg.pre, { vp.pre, v }, *io, *t); io = k.io, t = k.mem; break; }
  case 6:
  {
    Gam G(*matchEq(*vi.pre, 1), 2);
    auto eq = G.in(*vp.pre), ev = G.in(*v), et = G.in(*t);
    O * t1 = et[1];
    store(*eq[1], *ev[1], t1);
    t = G.out({ et[0], t1 });
    break;
  }
  case 7:
  {
    The U(b);
    auto wi = U.var(*cst(b, 8, 0)), wq = U.var(*vp.pre), wv = U.var(*v), wt = U.var(*t);
    O * x = wt.pre;
    store(*wq.pre, *wv.pre, x);
    post(wt, *x);
    O * j = add(*wi.pre, 1);
    post(wi, *j);
    U.pred(*matchEq(*ibin(IOp::Ult, *j, *cst(U.r(), 8, 2)), 1));
    t = wt.output;
    break;
  }
  case 8: { O * w = t; store(*vp.pre, *v, w); t = mergeS({ w, u }); u = t; break; }
  case 9: { O * w = t; store(*vp.pre, *v, w); t = mergeS({ u, w }); u = t; break; }
  case 10: { O * j = joinS({ t, u }); store(*vp.pre, *v, j); t = u = j; break; }
  }
  if (ch.pick(2, "read last")) rr = add(*rr, *load(*vp.pre, t, bt(8)));
  post(vr, *rr), post(vio, *io), post(vs, *t);
  if (two) post(vt, *u);
  O * i1 = add(*vi.pre, 1);
  post(vi, *i1);
  T.pred(*matchEq(*ibin(IOp::Ult, *i1, *cst(b, 8, 2)), 1));
  s = vs.output, res = vr.output;
  unsigned after = ch.pick(3, "after"); // nothing; a read; a write and a read
  if (after == 2) store(*f.p, *f.y, s);
  if (after) res = add(*res, *load(*f.p, s, bt(8)));
  f.io = vio.output;
  f.mem = two ? mergeS({ s, vt.output }) : s;
  exportFn(*m, *f.finish({ res, vi.output }), "f");
  return m;
}
// every iteration creates an object and uses the one before
static M instances(Choices & ch)
{
  auto m = newModule();
  F4 f(*m);
  R & r = *f.r;
  O * s = f.mem;
  auto sm = jl::AllocaOperation::create(bt(8), cst(r, 32, 1), 1);
  s = mergeS({ sm[1], s });
  store(*sm[0], *f.x, s);
  unsigned start = lite() ? 1 + ch.pick(2, "start") : ch.pick(4, "start");
  O * p0 = start == 0 ? (O *)undef(r, ptrT()) : start == 1 ? sm[0] : start == 2 ? nullPtr(r) : f.p;
  The T(r);
  auto vi = T.var(*cst(r, 8, 0)), vx = T.var(*f.x), vprev = T.var(*p0), vpp = T.var(*p0), vs = T.var(*s), vr = T.var(*f.y), vio = T.var(*f.io);
  R & b = T.r();
  O * t = vs.pre, * io = vio.pre, * rr = vr.pre, * n;
  Ty w = bt(ch.pick(2, "width") ? 16 : 8);
  unsigned W = w == bt(8) || *w == *bt(8) ? 8 : 16;
  if (ch.pick(2, "heap"))
  {
    auto & nd = jl::MallocOperation::createNode(*cst(b, 64, 2), *io);
    n = nd.output(0), io = nd.output(1);
    t = mergeS({ nd.output(2), t });
  }
  else
  {
    auto al = jl::AllocaOperation::create(bt(16), cst(b, 32, 1), 2);
    n = al[0], t = mergeS({ al[1], t });
  }
  O * v = add(*vx.pre, *vi.pre);
  if (W == 16) v = zext(*v, 16);
  unsigned order = ch.pick(3, "order");
  bool cell = ch.pick(2, "element") && W == 8;
  auto at = [&](O & p) { return cell ? gep(p, { cst(*p.region(), 64, 1) }, bt(8)) : &p; };
  auto usePrev = [&]() {
    unsigned k = ch.pick(3, "use"); // read it, write it, or both; not in the first iteration
    Gam G(*matchEq(*vi.pre, 0), 2);
    auto ep = G.in(*(ch.pick(2, "two back") ? vpp.pre : vprev.pre)), et = G.in(*t), er = G.in(*rr), ev = G.in(*v), ei = G.in(*io);
    O * x = et[0], * y = er[0];
    O * q = barrier(*at(*ep[0]), *ei[0]);
    if (k != 1) { O * l = load(*q, x, w); y = add(*y, W == 16 ? *trunc(*l, 8) : *l); }
    if (k != 0) store(*q, *ev[0], x);
    t = G.out({ x, et[1] }), rr = G.out({ y, er[1] });
  };
  if (order == 0) { store(*at(*n), *v, t); usePrev(); }
  else if (order == 1) { store(*at(*n), *v, t); usePrev(); O * l = load(*at(*n), t, w); rr = add(*rr, W == 16 ? *trunc(*l, 8) : *l); }
  else { usePrev(); store(*at(*n), *v, t); }
  post(vprev, *n), post(vpp, *vprev.pre), post(vs, *t), post(vr, *rr), post(vio, *io);
  O * i1 = add(*vi.pre, 1);
  post(vi, *i1);
  T.pred(*matchEq(*ibin(IOp::Ult, *i1, *cst(b, 8, 3)), 1));
  f.io = vio.output, s = vs.output;
  O * res = vr.output;
  unsigned after = ch.pick(3, "after");
  if (after && ch.pick(2, "write")) store(*vprev.output, *f.x, s);
  if (after) res = add(*res, *load(*(after == 1 ? vprev : vpp).output, s, bt(8)));
  f.mem = s;
  exportFn(*m, *f.finish({ res, vi.output }), "f");
  return m;
}
void harness_main()
{
  World w;
  w.maxLoop = 5;
  w.maxLoopTrans = 12;
  auto args = stdArgs(w);
  M (*fs[])(Choices &) = { exits, loopVars, loopChains, instances };
  validate(w, fs[symx_arg(1)], [&](jl::LlvmRvsdgModule & m) { runNamed(symx_arg(0), m); }, args);
}
