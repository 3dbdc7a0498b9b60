// Families of programs that any pass can be run on. Every program is the function
//   f(i8 x, i8 y, ptr p, ptr q) -> (i8, i8)
// where p and q point to two objects E and F of the environment (4 bytes each), and the module may have further functions.
#pragma once
#include "jv_build.hpp"
namespace jv
{
using M = std::unique_ptr<jl::LlvmRvsdgModule>;
inline O * add(O & a, O & b) { return ibin(IOp::Add, a, b); }
inline O * sub(O & a, O & b) { return ibin(IOp::Sub, a, b); }
inline O * add(O & a, u64 k) { return add(a, *cst(*a.region(), bitsOf(*a.Type()), k)); }
inline O * isZero(O & x) { return matchEq(x, 0, 0, 1); } // alternative 0 iff x == 0
struct F4 : Fn
{
  O *& x, *& y, *& p, *& q;
  F4(jl::LlvmRvsdgModule & m, const std::string & n = "f", Tys res = { bt(8), bt(8) }, jl::Linkage lk = jl::Linkage::externalLinkage)
      : Fn(m.Rvsdg().GetRootRegion(), n, { bt(8), bt(8), ptrT(), ptrT() }, res, lk), x(args[0]), y(args[1]), p(args[2]), q(args[3])
  {}
};
inline std::vector<Val> stdArgs(World & w, unsigned sz = 4, bool mayAlias = true)
{
  u64 a = World::extPtr(w.addExt("E", sz)), b = World::extPtr(w.addExt("F", sz));
  return { Val(symx_var(8, "x")), Val(symx_var(8, "y")), Val(a), Val(b) };
}

// A statement menu for the inside of a region: reads and changes the variables of a scope
struct Scope
{
  O * x, * y, * p, * q, * io, * mem, * g; // g: an imported function i8(ptr, i8)
  O * r; // result so far
};
inline Fn * curFn = nullptr;
// every kind of straight-line statement, on the current scope
const unsigned NSTMT = 12;
inline void stmt(Choices & ch, Scope & s, unsigned k)
{
  R & r = *s.x->region();
  switch (k)
  {
  case 0: break;
  case 1: s.r = add(*s.x, *s.y); break;
  case 2: s.r = add(*s.r, *add(*s.x, *s.y)); break; // same expression again
  case 3: store(*s.p, *s.x, s.mem); break;
  case 4: s.r = add(*s.r, *load(*s.p, s.mem, bt(8))); break;
  case 5: store(*s.q, *s.y, s.mem); break;
  case 6: s.r = ibin(IOp::Xor, *s.r, *load(*s.q, s.mem, bt(8))); break;
  case 7: { auto c = call(*s.g, { s.p, s.x }, *s.io, *s.mem); s.io = c.io, s.mem = c.mem, s.r = c.vals[0]; break; }
  case 8: s.r = cst(r, 8, 7); break;
  case 9: s.r = s.y; break;
  case 10: s.r = ibin(IOp::UDiv, *cst(r, 8, 100), *barrier(*s.x, *s.io)); break; // undefined for x == 0
  case 11: s.x = sub(*s.x, *s.y); break;
  }
}
inline O * importG(jl::LlvmRvsdgModule & m) { return importFn(m, "g", { ptrT(), bt(8) }, { bt(8) }); }
inline unsigned pickOf(Choices & ch, const std::vector<unsigned> & v, const char * n) { return v[ch.pick(v.size(), n)]; }

// --- 0: conditionals -----------------------------------------------------------------------------------------------------
// f: outer statement; if (pred) {A} else {B}; then a second conditional on the same or another predicate; with duplicate,
// invariant and unused variables
inline M progGamma(Choices & ch, bool deep)
{
  auto m = newModule();
  auto * g = importG(*m);
  F4 f(*m);
  R & r = *f.r;
  Scope s{ f.x, f.y, f.p, f.q, f.io, f.mem, f.ctx(*g), f.y };
  bool lite = symx_arg(2) == 2;
  stmt(ch, s, pickOf(ch, deep ? std::vector<unsigned>{ 0, 1, 3, 4, 11 } : lite ? std::vector<unsigned>{ 0, 4 } : std::vector<unsigned>{ 0, 1, 4 }, "before"));
  O * unusedSum = add(*s.x, *s.y);
  O * pred = nullptr;
  unsigned pk = lite ? 1 + ch.pick(2, "pred") : ch.pick(deep ? 4 : 3, "pred"), nalt = 2;
  if (pk == 0) pred = isZero(*s.x);
  else if (pk == 1) pred = matchEq(*ibin(IOp::Ult, *s.x, *s.y), 1);
  else if (pk == 2) { nalt = 3; pred = matchN(*s.x, { { 1, 1 }, { 2, 2 } }, 0, 3); }
  else pred = matchN(*s.x, { { 3, 1 }, { 7, 1 } }, 0, 2);
  auto conditional = [&](unsigned depthHere, std::vector<std::vector<unsigned>> menu, const char * tag) {
    Gam G(*pred, nalt);
    auto ex = G.in(*s.x), ey = G.in(*s.y), ep = G.in(*s.p), eq = G.in(*s.q), ei = G.in(*s.io), em = G.in(*s.mem), er = G.in(*s.r), eg = G.in(*s.g);
    auto ex2 = G.in(*s.x), es = G.in(*unusedSum);
    std::vector<O *> ox, oi, om, orr, o1, o2, oy;
    for (unsigned i = 0; i < nalt; i++)
    {
      Scope t{ ex[i], ey[i], ep[i], eq[i], ei[i], em[i], eg[i], er[i] };
      unsigned k = i < menu.size() ? pickOf(ch, menu[i], (std::string(tag) + std::to_string(i)).c_str()) : 0;
      if (k == 20) t.r = add(*ex2[i], *es[i]);
      else if (k == 21) // nested on another predicate
      {
        Gam H(*isZero(*t.y), 2);
        auto hx = H.in(*t.x), hr = H.in(*t.r), hm = H.in(*t.mem), hp = H.in(*t.p);
        O * m1 = hm[1];
        store(*hp[1], *add(*hx[1], *cst(H.br(1), 8, 1)), m1);
        t.r = H.out({ add(*hx[0], *hr[0]), hr[1] });
        t.mem = H.out({ hm[0], m1 });
      }
      else stmt(ch, t, k);
      ox.push_back(t.x), oi.push_back(t.io), om.push_back(t.mem), orr.push_back(t.r), oy.push_back(t.y);
      o1.push_back(i ? ex2[i] : ex[i]);
      o2.push_back(es[i]);
    }
    s.x = G.out(ox);
    O * dupX = G.out(o1);
    s.r = G.out(orr);
    O * dupR = G.out(orr);
    G.out(o2); // unused
    s.y = G.out(oy);
    s.io = G.out(oi);
    s.mem = G.out(om);
    s.r = add(*s.r, *sub(*dupX, *s.x));
    return dupR;
  };
  O * d = nullptr;
  if (deep) d = conditional(0, { { 0, 1, 3, 4, 7, 10, 11, 20, 21 }, { 0, 2, 3, 5, 6, 9, 21 } }, "a");
  else d = conditional(0, { { 0, 1, 3, 7, 10, 20, 21 }, { 0, 2, 4, 5, 9 } }, "a");
  unsigned after = ch.pick(lite ? 2 : 3, "after");
  if (after == 1) d = deep ? conditional(1, { { 1, 4, 8 }, { 0, 3, 6 } }, "b") : conditional(1, lite ? std::vector<std::vector<unsigned>>{ { 4, 8 }, { 3 } } : std::vector<std::vector<unsigned>>{ { 4, 8 }, { 0, 3 } }, "b");
  if (after == 2) { stmt(ch, s, 4); stmt(ch, s, 2); }
  f.io = s.io;
  f.mem = s.mem;
  exportFn(*m, *f.finish({ s.r, add(*d, *s.x) }), "f");
  return m;
}

// --- 1: loops --------------------------------------------------------------------------------------------------------------
// do { body } while (cond) with a counter, invariants, swapped and unused variables
inline M progTheta(Choices & ch, bool deep)
{
  auto m = newModule();
  auto * g = importG(*m);
  F4 f(*m);
  R & r = *f.r;
  Scope s{ f.x, f.y, f.p, f.q, f.io, f.mem, f.ctx(*g), f.y };
  O * zero = cst(r, 8, 0);
  if (ch.pick(2, "before")) stmt(ch, s, 4);
  The T(r);
  auto vi = T.var(*zero), vx = T.var(*s.x), vy = T.var(*s.y), vp = T.var(*s.p), vq = T.var(*s.q), vio = T.var(*s.io), vm = T.var(*s.mem), vr = T.var(*s.r),
       vg = T.var(*s.g), vy2 = T.var(*s.y), vu = T.var(*s.x), va = T.var(*s.x), vb = T.var(*s.y), vz = T.var(*zero);
  R & b = T.r();
  Scope t{ vx.pre, vy.pre, vp.pre, vq.pre, vio.pre, vm.pre, vg.pre, vr.pre };
  for (unsigned n = 0; n < 2; n++)
  {
    unsigned k = pickOf(ch, deep ? std::vector<unsigned>{ 0, 2, 3, 4, 5, 7, 20, 21, 22 } : n ? std::vector<unsigned>{ 0, 3, 4, 21 } : std::vector<unsigned>{ 2, 3, 4, 7, 20, 22 }, "body");
    if (k < 20) stmt(ch, t, k);
    else if (k == 20) t.r = add(*t.r, *sub(*vy2.pre, *t.x)); // uses an invariant's duplicate
    else
    {
      // conditional on an invariant (21) or the counter (22)
      Gam H(*isZero(k == 21 ? *t.y : *ibin(IOp::And, *vi.pre, *cst(b, 8, 1))), 2);
      auto hx = H.in(*t.x), hr = H.in(*t.r), hm = H.in(*t.mem), hp = H.in(*t.p), hz = H.in(*vz.pre), hu = H.in(*vu.pre);
      O * m1 = hm[1], * m0 = hm[0];
      store(*hp[1], *hx[1], m1);
      O * r0 = add(*load(*hp[0], m0, bt(8)), *hz[0]);
      t.r = H.out({ r0, add(*hr[1], *hu[1]) });
      t.mem = H.out({ m0, m1 });
    }
  }
  O * i1 = add(*vi.pre, 1);
  post(vi, *i1);
  unsigned shape = ch.pick(3, "vars");
  if (shape == 1) { post(va, *vb.pre); post(vb, *va.pre); } // swap
  if (shape == 2) { post(va, *vb.pre); post(vb, *add(*vb.pre, *vi.pre)); }
  post(vx, *t.x), post(vio, *t.io), post(vm, *t.mem), post(vr, *t.r);
  unsigned c = ch.pick(deep ? 4 : 3, "cond");
  O * lim;
  if (c == 0) lim = cst(b, 8, 3);
  else if (c == 1) lim = vy.pre;
  else if (c == 2) { lim = cst(b, 8, 1); }
  else lim = t.x;
  T.pred(*matchEq(*ibin(IOp::Ult, *i1, *lim), 1));
  s.r = vr.output;
  O * res2 = shape ? add(*va.output, *vb.output) : add(*vx.output, *vz.output);
  s.mem = vm.output, s.io = vio.output, s.p = vp.output, s.y = vy.output;
  unsigned after = ch.pick(2, "after");
  if (after) s.r = add(*s.r, *load(*s.p, s.mem, bt(8)));
  f.io = s.io;
  f.mem = s.mem;
  exportFn(*m, *f.finish({ add(*s.r, *s.y), res2 }), "f");
  return m;
}

// --- 2: functions, globals, recursion -----------------------------------------------------------------------------------------
inline O * delta(R & root, const std::string & name, u64 v, bool constant, jl::Linkage lk)
{
  auto d = rv::DeltaNode::Create(&root, jl::LlvmDeltaOperation::Create(bt(8), name, lk, "", constant, 1));
  return &d->finalize(cst(*d->subregion(), 8, v));
}
inline M progCalls(Choices & ch, bool deep)
{
  auto m = newModule();
  auto & root = m->Rvsdg().GetRootRegion();
  auto * g = importG(*m);
  O * counter = delta(root, "counter", 5, false, jl::Linkage::internalLinkage);
  O * table = delta(root, "table", 9, true, jl::Linkage::internalLinkage);
  O * dead = delta(root, "dead", 1, false, jl::Linkage::internalLinkage);
  // h(a, b, p, q): a callee with a body from the menu
  unsigned hk = ch.pick(deep ? 7 : 6, "callee"), uses = ch.pick(3, "uses");
  O * h = nullptr, * h2 = nullptr;
  {
    F4 c(*m, "h", { bt(8), bt(8) }, jl::Linkage::internalLinkage);
    O * cc = c.ctx(*counter), * ct = c.ctx(*table), * cg = c.ctx(*g);
    if (uses == 2) c.ctx(*dead); // context variable without a use
    O * v = c.x;
    switch (hk)
    {
    case 0: v = add(*c.x, *c.y); break;
    case 1: v = load(*cc, c.mem, bt(8)); store(*cc, *add(*v, *c.x), c.mem); break;
    case 2: v = add(*load(*ct, c.mem, bt(8)), *c.x); break;
    case 3: { auto k = call(*cg, { c.p, c.y }, *c.io, *c.mem); v = k.vals[0], c.io = k.io, c.mem = k.mem; break; }
    case 4:
    {
      auto al = jl::AllocaOperation::create(bt(8), cst(*c.r, 32, 1), 1);
      O * as = al[1];
      store(*al[0], *c.x, as);
      auto k = callS(*cg, { al[0], c.y }, *c.io, { &c.mem, &as });
      c.io = k.io;
      v = load(*al[0], as, bt(8));
      c.mem = mergeS({ c.mem, as });
      break;
    }
    case 5: store(*c.q, *c.x, c.mem); v = c.y; break;
    case 6:
    {
      Gam G(*isZero(*c.x), 2);
      auto ex = G.in(*c.x), em = G.in(*c.mem), ep = G.in(*c.p);
      O * m1 = em[1];
      store(*ep[1], *ex[1], m1);
      v = G.out({ cst(G.br(0), 8, 4), ex[1] });
      c.mem = G.out({ em[0], m1 });
      break;
    }
    }
    h = c.finish({ v, c.y });
  }
  bool rec = ch.pick(2, "recursive");
  if (rec)
  {
    // h2(a, b, p, q) = a == 0 ? h(b, ...) : h2(a - 1, b + a, p, q)
    rv::PhiBuilder pb;
    pb.begin(&root);
    auto ft = Fn::mkType({ bt(8), bt(8), ptrT(), ptrT() }, { bt(8), bt(8) });
    auto self = pb.AddFixVar(ft);
    auto hv = pb.AddContextVar(*h);
    Fn c(*pb.subregion(), "h2", { bt(8), bt(8), ptrT(), ptrT() }, { bt(8), bt(8) }, jl::Linkage::internalLinkage);
    O * cs = c.ctx(*self.recref), * chh = c.ctx(*hv.inner);
    Gam G(*isZero(*c.args[0]), 2);
    std::vector<std::vector<O *>> a;
    for (auto o : c.args) a.push_back(G.in(*o));
    auto ei = G.in(*c.io), em = G.in(*c.mem), e1 = G.in(*cs), e0 = G.in(*chh);
    auto k0 = call(*e0[0], { a[1][0], a[1][0], a[2][0], a[3][0] }, *ei[0], *em[0]);
    O * nx = sub(*a[0][1], *cst(G.br(1), 8, 1));
    auto k1 = call(*e1[1], { nx, add(*a[1][1], *a[0][1]), a[2][1], a[3][1] }, *ei[1], *em[1]);
    O * v = G.out({ k0.vals[0], k1.vals[0] }), * v2 = G.out({ k0.vals[1], k1.vals[1] });
    c.io = G.out({ k0.io, k1.io });
    c.mem = G.out({ k0.mem, k1.mem });
    O * lam = c.finish({ v, v2 });
    self.result->divert_to(lam);
    h2 = pb.end()->output(0);
  }
  F4 f(*m);
  O * fh = f.ctx(*h), * fc = f.ctx(*counter);
  O * fh2 = rec ? f.ctx(*h2) : nullptr;
  O * v, * v2;
  if (rec)
  {
    O * a = ibin(IOp::And, *f.x, *cst(*f.r, 8, 1));
    auto k = call(*fh2, { a, f.y, f.p, f.q }, *f.io, *f.mem);
    v = k.vals[0], v2 = k.vals[1], f.io = k.io, f.mem = k.mem;
  }
  else
  {
    unsigned where = ch.pick(3, "where");
    if (where == 0)
    {
      auto k = call(*fh, { f.x, f.y, f.p, f.q }, *f.io, *f.mem);
      v = k.vals[0], v2 = k.vals[1], f.io = k.io, f.mem = k.mem;
    }
    else if (where == 1)
    {
      Gam G(*isZero(*f.y), 2);
      auto ex = G.in(*f.x), ey = G.in(*f.y), ep = G.in(*f.p), eq = G.in(*f.q), ei = G.in(*f.io), em = G.in(*f.mem), eh = G.in(*fh);
      auto k = call(*eh[1], { ex[1], ey[1], ep[1], eq[1] }, *ei[1], *em[1]);
      v = G.out({ ex[0], k.vals[0] }), v2 = G.out({ ey[0], k.vals[1] });
      f.io = G.out({ ei[0], k.io }), f.mem = G.out({ em[0], k.mem });
    }
    else
    {
      The T(*f.r);
      auto vi = T.var(*cst(*f.r, 8, 0)), vx = T.var(*f.x), vy = T.var(*f.y), vp = T.var(*f.p), vq = T.var(*f.q), vio = T.var(*f.io), vm = T.var(*f.mem), vh = T.var(*fh);
      auto k = call(*vh.pre, { vx.pre, vy.pre, vp.pre, vq.pre }, *vio.pre, *vm.pre);
      post(vx, *k.vals[0]), post(vy, *k.vals[1]), post(vio, *k.io), post(vm, *k.mem);
      O * i1 = add(*vi.pre, 1);
      post(vi, *i1);
      T.pred(*matchEq(*ibin(IOp::Ult, *i1, *cst(T.r(), 8, 2)), 1));
      v = vx.output, v2 = vy.output, f.io = vio.output, f.mem = vm.output;
    }
  }
  if (uses == 1)
  {
    // a second call, with the arguments exchanged
    auto k = call(*fh, { v2, v, f.q, f.p }, *f.io, *f.mem);
    v = add(*k.vals[0], *v), v2 = k.vals[1], f.io = k.io, f.mem = k.mem;
  }
  O * cv = load(*fc, f.mem, bt(8));
  exportFn(*m, *f.finish({ v, add(*v2, *cv) }), "f");
  if (uses == 2) exportFn(*m, *h, "h");
  return m;
}

// --- 3: local objects across control flow ----------------------------------------------------------------------------------------
// A is a local object with its own memory state; E and F share the function's memory state
inline M progLocals(Choices & ch, bool deep)
{
  auto m = newModule();
  auto * g = importG(*m);
  F4 f(*m);
  R & r = *f.r;
  O * fg = f.ctx(*g);
  auto al = jl::AllocaOperation::create(bt(8), cst(r, 32, 1), 1);
  O * a = al[0], * as = al[1];
  bool esc = ch.pick(2, "escapes");
  if (esc)
  {
    f.io = callS(*fg, { a, f.x }, *f.io, { &f.mem, &as }).io;
  }
  unsigned init = ch.pick(2, "init");
  if (init) store(*a, *f.x, as);
  unsigned kind = ch.pick(4, "control");
  // statements: 0 nothing, 1 store x to A, 2 read A, 3 store to E, 4 read E, 5 store A's content to E, 6 call that may write A if it escapes
  auto st = [&](unsigned k, O * x, O * aa, O * p, O * gg, O *& sA, O *& sM, O *& io, O *& res) {
    switch (k)
    {
    case 0: break;
    case 1: store(*aa, *x, sA); break;
    case 2: res = add(*res, *load(*aa, sA, bt(8))); break;
    case 3: store(*p, *x, sM); break;
    case 4: res = add(*res, *load(*p, sM, bt(8))); break;
    case 5: { O * v = load(*aa, sA, bt(8)); store(*p, *v, sM); break; }
    case 6:
    {
      io = callS(*gg, { p, x }, *io, { &sM, &sA }).io;
      break;
    }
    }
  };
  O * res = f.y;
  std::vector<unsigned> menu = deep ? std::vector<unsigned>{ 0, 1, 2, 3, 5, 6 } : symx_arg(2) == 2 ? std::vector<unsigned>{ 1, 2, 6 } : std::vector<unsigned>{ 0, 1, 2, 6 };
  if (kind == 0)
    for (int i = 0; i < 3; i++) st(pickOf(ch, symx_arg(2) == 2 ? std::vector<unsigned>{ 1, 2, 6 } : std::vector<unsigned>{ 1, 2, 4, 5, 6 }, "s"), i & 1 ? f.x : f.y, a, f.p, fg, as, f.mem, f.io, res);
  else if (kind == 1 || kind == 3)
  {
    Gam G(*isZero(*f.y), 2);
    auto ex = G.in(*f.x), ea = G.in(*a), ep = G.in(*f.p), eg = G.in(*fg), sA = G.in(*as), sM = G.in(*f.mem), ei = G.in(*f.io), er = G.in(*res);
    for (int i = 0; i < 2; i++)
      for (int j = 0; j < (i ? 2 : 1); j++) st(pickOf(ch, menu, "s"), ex[i], ea[i], ep[i], eg[i], sA[i], sM[i], ei[i], er[i]);
    if (kind == 3)
    {
      Gam H(*isZero(*ex[0]), 2);
      auto ha = H.in(*ea[0]), hx = H.in(*ex[0]), hs = H.in(*sA[0]), hr = H.in(*er[0]);
      O * s1 = hs[1], * r0 = hr[0];
      store(*ha[1], *hx[1], s1);
      O * s0 = hs[0];
      r0 = add(*r0, *load(*ha[0], s0, bt(8)));
      sA[0] = H.out({ s0, s1 });
      er[0] = H.out({ r0, hr[1] });
    }
    as = G.out(sA), f.mem = G.out(sM), f.io = G.out(ei), res = G.out(er);
  }
  else
  {
    The T(r);
    auto vi = T.var(*cst(r, 8, 0)), vx = T.var(*f.x), va = T.var(*a), vp = T.var(*f.p), vg = T.var(*fg), vA = T.var(*as), vM = T.var(*f.mem), vio = T.var(*f.io), vr = T.var(*res),
         vy = T.var(*f.y);
    O * sA = vA.pre, * sM = vM.pre, * io = vio.pre, * rr = vr.pre;
    for (int j = 0; j < 2; j++) st(pickOf(ch, menu, "s"), j ? vi.pre : vx.pre, va.pre, vp.pre, vg.pre, sA, sM, io, rr);
    O * i1 = add(*vi.pre, 1);
    post(vi, *i1), post(vA, *sA), post(vM, *sM), post(vio, *io), post(vr, *rr);
    T.pred(*matchEq(*ibin(IOp::Ult, *i1, ch.pick(2, "lim") ? *vy.pre : *cst(T.r(), 8, 2)), 1));
    as = vA.output, f.mem = vM.output, f.io = vio.output, res = vr.output;
  }
  O * last = load(*a, as, bt(8));
  if (ch.pick(2, "again")) { store(*f.q, *last, f.mem); last = add(*last, *load(*f.q, f.mem, bt(8))); }
  f.mem = mergeS({ f.mem, as });
  exportFn(*m, *f.finish({ res, last }), "f");
  return m;
}
// --- 4: nests of conditionals and loops -----------------------------------------------------------------------------------------
inline M progNest(Choices & ch, bool deep)
{
  auto m = newModule();
  auto * g = importG(*m);
  F4 f(*m);
  Scope s{ f.x, f.y, f.p, f.q, f.io, f.mem, f.ctx(*g), f.y };
  std::function<void(Scope &, unsigned, unsigned)> nest = [&](Scope & s, unsigned what, unsigned depth) {
    R & r = *s.x->region();
    unsigned inner = depth ? ch.pick(3, "inner") : 0; // 0 statement, 1 conditional, 2 loop
    auto body = [&](Scope & t) {
      if (inner == 0) stmt(ch, t, pickOf(ch, { 2, 3, 4, 7, 10 }, "leaf"));
      else nest(t, inner, depth - 1);
      if (ch.pick(2, "tail")) stmt(ch, t, 3), stmt(ch, t, 4);
    };
    if (what == 1)
    {
      Gam G(*isZero(*(ch.pick(2, "key") ? s.y : s.x)), 2);
      auto ex = G.in(*s.x), ey = G.in(*s.y), ep = G.in(*s.p), eq = G.in(*s.q), ei = G.in(*s.io), em = G.in(*s.mem), er = G.in(*s.r), eg = G.in(*s.g);
      Scope t0{ ex[0], ey[0], ep[0], eq[0], ei[0], em[0], eg[0], er[0] }, t1{ ex[1], ey[1], ep[1], eq[1], ei[1], em[1], eg[1], er[1] };
      body(t1);
      stmt(ch, t0, 1);
      s.x = G.out({ t0.x, t1.x }), s.y = G.out({ t0.y, t1.y }), s.p = G.out({ t0.p, t1.p }), s.io = G.out({ t0.io, t1.io }), s.mem = G.out({ t0.mem, t1.mem }), s.r = G.out({ t0.r, t1.r });
    }
    else
    {
      The T(r);
      auto vi = T.var(*cst(r, 8, 0)), vx = T.var(*s.x), vy = T.var(*s.y), vp = T.var(*s.p), vq = T.var(*s.q), vio = T.var(*s.io), vm = T.var(*s.mem), vr = T.var(*s.r), vg = T.var(*s.g);
      Scope t{ vx.pre, vy.pre, vp.pre, vq.pre, vio.pre, vm.pre, vg.pre, vr.pre };
      body(t);
      O * i1 = add(*vi.pre, 1);
      post(vi, *i1);
      if (ch.pick(2, "changes")) t.x = add(*t.x, *vi.pre);
      post(vx, *t.x), post(vy, *t.y), post(vp, *t.p), post(vio, *t.io), post(vm, *t.mem), post(vr, *t.r);
      T.pred(*matchEq(*ibin(IOp::Ult, *i1, *cst(T.r(), 8, 2)), 1));
      s.x = vx.output, s.y = vy.output, s.p = vp.output, s.io = vio.output, s.mem = vm.output, s.r = vr.output;
    }
  };
  nest(s, 1 + ch.pick(2, "outer"), deep ? 2 : 1);
  f.io = s.io;
  f.mem = s.mem;
  exportFn(*m, *f.finish({ s.r, add(*s.x, *s.y) }), "f");
  return m;
}
inline M program(Choices & ch, unsigned kind, bool deep)
{
  switch (kind)
  {
  case 0: return progGamma(ch, deep);
  case 1: return progTheta(ch, deep);
  case 2: return progCalls(ch, deep);
  case 3: return progLocals(ch, deep);
  case 4: return progNest(ch, deep);
  }
  return nullptr;
}
}
