// Programs aimed at what one optimisation looks for.
// arg1: family; arg0: pass; arg2: 1 = more
#include "jv_passes.hpp"
#include "jv_progs.hpp"
using namespace jv;
static bool deep() { return symx_arg(2) == 1; }
static bool lite() { return symx_arg(2) == 2; }
// 0: conditionals that only choose between values
static M choosing(Choices & ch)
{
  auto m = newModule();
  F4 f(*m);
  R & r = *f.r;
  unsigned form = ch.pick(6, "predicate");
  O * pred;
  unsigned nalt = 2;
  O * c1 = ibin(IOp::Ult, *f.x, *f.y);
  switch (form)
  {
  case 0: { unsigned a = ch.pick(2, "alternative"), b = ch.pick(2, "other"); pred = matchEq(*f.x, ch.sym(8, "key"), a, b); break; }
  case 1: { unsigned v = ch.pick(2, "value"), a = ch.pick(2, "alternative"); pred = matchEq(*c1, v, a, 1 - a); break; }
  case 2: pred = matchN(*f.x, { { 3, 1 }, { 7, 1 } }, 0, 2); break;
  case 3: pred = matchN(*f.x, { { 3, 1 }, { 7, 0 } }, 0, 2); break;
  case 4: // from another conditional
  {
    Gam H(*isZero(*f.y), 2);
    auto hx = H.in(*f.x);
    pred = H.out({ ctl(H.br(0), 2, ch.pick(2, "c0")), ch.pick(2, "inner") ? isZero(*hx[1]) : ctl(H.br(1), 2, 0) });
    break;
  }
  default: nalt = 3, pred = matchN(*f.x, { { 3, 1 }, { 7, 2 } }, 0, 3);
  }
  Gam G(*pred, nalt);
  auto ex = G.in(*f.x), ey = G.in(*f.y), ep = G.in(*f.p), eq = G.in(*f.q), ey2 = G.in(*f.y), em = G.in(*f.mem);
  std::vector<O *> a{ ex[0], ey[1] }, b{ ey2[0], ey[1] }, c{ ep[0], eq[1] }, d{ cst(G.br(0), 8, 1), ex[1] }, e{ ey[0], ex[1] };
  std::vector<O *> sm(em);
  bool st = ch.pick(2, "store");
  if (st) store(*ep[1], *ex[1], sm[1]);
  if (nalt == 3) a.push_back(ex[2]), b.push_back(ey[2]), c.push_back(ep[2]), d.push_back(ey[2]), e.push_back(ey[2]);
  O * va = G.out(a), * vb = G.out(b), * vc = G.out(c), * vd = G.out(d), * ve = G.out(e);
  f.mem = G.out(sm);
  store(*vc, *va, f.mem);
  exportFn(*m, *f.finish({ add(*va, *vb), sub(*vd, *ve) }), "f");
  return m;
}
// 1: local aggregates accessed through constant addresses
static M aggregates(Choices & ch)
{
  auto m = newModule();
  F4 f(*m);
  R & r = *f.r;
  auto pair = jl::StructType::CreateLiteral({ bt(8), bt(8) }, false);
  Tys types{ pair, jl::StructType::CreateLiteral({ bt(8), pair }, false), jl::StructType::CreateLiteral({ pair, jl::ArrayType::Create(bt(8), 2) }, false),
             jl::StructType::CreateLiteral({ bt(8), bt(16) }, false), jl::StructType::CreateLiteral({ bt(16), pair }, true) };
  unsigned tk = ch.pick(types.size(), "type");
  Ty t = types[tk];
  bool two = ch.pick(2, "count");
  auto al = jl::AllocaOperation::create(t, cst(r, 32, two ? 2 : 1), 1);
  O * base = al[0], * s = al[1];
  auto K = [&](R & r, u64 v) { return cst(r, 32, v); };
  // pointer through control flow
  unsigned via = ch.pick(4, "via");
  O * p = base;
  if (via == 1) { Gam G(*isZero(*f.x), 2); auto ea = G.in(*base), ep = G.in(*f.p); p = G.out({ ea[0], ch.pick(2, "other") ? ep[1] : ea[1] }); }
  // addresses of elements
  auto element = [&](O & b, unsigned k) -> std::pair<O *, unsigned> { // address, width
    R & r = *b.region();
    switch (k)
    {
    case 0: return { gep(b, { K(r, 0), K(r, 0) }, t), tk == 4 ? 16 : 8 };
    case 1: return { gep(b, { K(r, 0), K(r, 1) }, t), tk == 3 ? 16 : 8 };
    case 2: return { tk == 1 || tk == 2 || tk == 4 ? gep(b, { K(r, 0), K(r, 1), K(r, 1) }, t) : gep(b, { K(r, 0), K(r, 1) }, t), tk == 3 ? 16 : 8 };
    case 3: return { gep(b, { cst(r, 64, 1) }, bt(8)), 8 };
    case 4: return { gep(b, { K(r, 0), K(r, 1) }, pair), 8 }; // another type
    case 5: return { gep(b, { K(r, 0), K(r, 0) }, t), 16 };  // two bytes at once
    default: return { tk == 2 ? gep(b, { K(r, 0), K(r, 1), zext(*trunc(*ibin(IOp::And, *f.x, *cst(r, 8, 1)), 1), 32) }, t) : two ? gep(b, { K(r, 1), K(r, 0) }, t) : gep(b, { K(r, 0), K(r, 1) }, t), tk == 3 ? 16 : 8 };
    }
  };
  unsigned k1 = lite() ? pickOf(ch, { 0, 1, 3, 6 }, "store") : ch.pick(7, "store"), k2 = lite() ? pickOf(ch, { 1, 3, 4, 5 }, "load") : ch.pick(7, "load");
  O * res = f.y;
  if (via == 2 && k1 != 6)
  {
    The T(r);
    auto vi = T.var(*cst(r, 8, 0)), va = T.var(*base), vs = T.var(*s), vx = T.var(*f.x), vr = T.var(*f.y), vq = T.var(*f.p);
    auto [a, w] = element(*va.pre, k1);
    O * st = vs.pre;
    O * v = add(*vx.pre, *vi.pre);
    store(*a, *(w == 16 ? zext(*v, 16) : v), st);
    O * i1 = add(*vi.pre, 1);
    post(vi, *i1), post(vs, *st);
    if (ch.pick(2, "swap")) { post(va, *vq.pre); post(vq, *va.pre); }
    T.pred(*matchEq(*ibin(IOp::Ult, *i1, *cst(T.r(), 8, 2)), 1));
    p = va.output, s = vs.output;
  }
  else
  {
    O * sm = s;
    auto [a, w] = element(*p, k1);
    if (via == 3) { Gam G(*isZero(*f.x), 2); auto ea = G.in(*a), ep = G.in(*f.p); a = G.out({ ea[0], ep[1] }); }
    O * j = joinS({ s, f.mem });
    store(*a, *(w == 16 ? zext(*f.x, 16) : f.x), j);
    s = j, f.mem = j;
    (void)sm;
  }
  auto [a2, w2] = element(via && ch.pick(2, "direct") ? *base : *p, k2);
  if (via == 0 && ch.pick(2, "barrier")) a2 = barrier(*a2, *f.io);
  O * j = s == f.mem ? s : joinS({ s, f.mem });
  O * v = load(*a2, j, bt(w2));
  f.mem = j;
  if (w2 == 16) v = add(*trunc(*v, 8), *trunc(*ibin(IOp::LShr, *v, *cst(r, 16, 8)), 8));
  unsigned esc = k1 == 0 && ch.pick(2, "escape");
  if (esc) store(*f.q, *gep(*base, { K(r, 0), K(r, 0) }, t), f.mem);
  exportFn(*m, *f.finish({ res, v }), "f");
  return m;
}
// 2: barriers that keep accesses behind calls that may not return
static M barriers(Choices & ch)
{
  auto m = newModule();
  auto * g = importG(*m);
  F4 f(*m);
  O * fg = f.ctx(*g);
  O * res = f.y;
  // a sequence of calls and loads, each load with or without a barrier on some io state
  std::vector<O *> ios{ f.io };
  unsigned n = deep() ? 4 : 3;
  O * io = f.io, * mem = f.mem;
  Gam * outer = nullptr;
  auto seq = [&](O *& x, O *& p, O *& q, O *& gg, O *& io, O *& mem, O *& res, std::vector<O *> ios, unsigned n) {
    for (unsigned i = 0; i < n; i++)
    {
      unsigned k = ch.pick(7, "s");
      if (k == 0) { auto c = call(*gg, { q, x }, *io, *mem); io = c.io, mem = c.mem; ios.push_back(io); }
      else if (k <= 2) res = add(*res, *load(*barrier(*p, *(k == 1 ? io : ios[0])), mem, bt(8)));
      else if (k == 3) res = add(*res, *load(*barrier(*p, *io), mem, bt(8)));
      else if (k == 4) res = add(*res, *trunc(*load(*barrier(*p, *io), mem, bt(16)), 8));
      else if (k == 5) store(*barrier(*p, *io), *x, mem);
      else if (k == 6) res = add(*res, *load(*p, mem, bt(8))); // p is known to be valid here
    }
  };
  unsigned shape = ch.pick(3, "shape");
  if (shape == 0) seq(f.x, f.p, f.q, fg, io, mem, res, { f.io }, n);
  else if (shape == 1)
  {
    Gam G(*isZero(*f.x), 2);
    auto ex = G.in(*f.x), ep = G.in(*f.p), eq = G.in(*f.q), ei = G.in(*io), em = G.in(*mem), eg = G.in(*fg), er = G.in(*res);
    seq(ex[1], ep[1], eq[1], eg[1], ei[1], em[1], er[1], { ei[1] }, 2);
    io = G.out(ei), mem = G.out(em), res = G.out(er);
    seq(f.x, f.p, f.q, fg, io, mem, res, { f.io }, n - 2);
  }
  else
  {
    seq(f.x, f.p, f.q, fg, io, mem, res, { f.io }, 1);
    The T(*f.r);
    auto vi = T.var(*cst(*f.r, 8, 0)), vx = T.var(*f.x), vp = T.var(*f.p), vq = T.var(*f.q), vg = T.var(*fg), vio = T.var(*io), vm = T.var(*mem), vr = T.var(*res);
    O * i = vio.pre, * s = vm.pre, * rr = vr.pre;
    seq(vx.pre, vp.pre, vq.pre, vg.pre, i, s, rr, { vio.pre }, n - 1);
    O * i1 = add(*vi.pre, 1);
    post(vi, *i1), post(vio, *i), post(vm, *s), post(vr, *rr);
    if (ch.pick(2, "swap")) { post(vp, *vq.pre); post(vq, *vp.pre); }
    T.pred(*matchEq(*ibin(IOp::Ult, *i1, *cst(T.r(), 8, 2)), 1));
    io = vio.output, mem = vm.output, res = vr.output;
  }
  f.io = io, f.mem = mem;
  exportFn(*m, *f.finish({ res, f.x }), "f");
  return m;
}
// 3: a loop that makes a local object in every iteration
static M localsInLoops(Choices & ch)
{
  auto m = newModule();
  auto * g = importG(*m);
  F4 f(*m);
  R & r = *f.r;
  O * fg = f.ctx(*g);
  auto cell = jl::AllocaOperation::create(ptrT(), cst(r, 32, 1), 8);
  O * cs = cell[1];
  store(*cell[0], *f.p, cs);
  The T(r);
  auto vi = T.var(*cst(r, 8, 0)), vx = T.var(*f.x), vc = T.var(*cell[0]), vcs = T.var(*cs), vm = T.var(*f.mem), vio = T.var(*f.io), vg = T.var(*fg), vl = T.var(*f.p), vr = T.var(*f.y), vn = T.var(*cst(r, 32, 1));
  R & b = T.r();
  auto al = jl::AllocaOperation::create(bt(8), ch.pick(2, "count") ? vn.pre : cst(b, 32, 1), 1);
  O * a = al[0], * as = al[1], * s = vm.pre, * c = vcs.pre, * io = vio.pre, * rr = vr.pre;
  unsigned k = ch.pick(4, "use");
  if (ch.pick(2, "init")) store(*a, *add(*vx.pre, *vi.pre), as);
  if (k == 0) { O * v = load(*a, as, bt(8)); store(*a, *add(*v, 1), as); rr = add(*rr, *load(*a, as, bt(8))); }
  else if (k == 1) // the previous iteration's object is read through a loop variable
  {
    O * j = joinS({ as, s });
    rr = add(*rr, *load(*vl.pre, j, bt(8)));
    s = j, as = j;
    post(vl, *a);
  }
  else if (k == 2) // ... through memory
  {
    O * prev = load(*vc.pre, c, ptrT());
    O * j = joinS({ as, s });
    rr = add(*rr, *load(*prev, j, bt(8)));
    store(*vc.pre, *a, c);
    s = j, as = j;
  }
  else { auto q = callS(*vg.pre, { a, vi.pre }, *io, { &s, &as }); io = q.io; rr = add(*rr, *load(*a, as, bt(8))); }
  post(vm, *(s == as ? s : mergeS({ s, as })));
  post(vcs, *c), post(vio, *io), post(vr, *rr);
  O * i1 = add(*vi.pre, 1);
  post(vi, *i1);
  T.pred(*matchEq(*ibin(IOp::Ult, *i1, *cst(b, 8, 3)), 1));
  f.mem = mergeS({ vm.output, vcs.output }), f.io = vio.output;
  O * last = vr.output;
  if (k == 1) { last = add(*last, *load(*vl.output, f.mem, bt(8))); }
  exportFn(*m, *f.finish({ last, vi.output }), "f");
  return m;
}
// 4: chains of loads and stores over up to three memory states
static M chains(Choices & ch)
{
  auto m = newModule();
  auto * g = importG(*m);
  F4 f(*m);
  R & r = *f.r;
  O * fg = f.ctx(*g);
  auto al = jl::AllocaOperation::create(bt(8), cst(r, 32, 1), 1);
  O * a = al[0], * s1 = al[1], * s0 = f.mem, * res = f.y, * io = f.io;
  store(*a, *f.x, s1);
  auto loadS = [&](O & p, std::vector<O **> st) {
    std::vector<O *> in;
    for (auto s : st) in.push_back(*s);
    auto & n = jl::LoadNonVolatileOperation::CreateNode(p, in, bt(8), 1);
    for (size_t i = 0; i < st.size(); i++) *st[i] = n.output(1 + i);
    res = add(*res, *n.output(0));
  };
  auto storeS = [&](O & p, O & v, std::vector<O **> st) {
    std::vector<O *> in;
    for (auto s : st) in.push_back(*s);
    auto & n = jl::StoreNonVolatileOperation::CreateNode(p, v, in, 1);
    for (size_t i = 0; i < st.size(); i++) *st[i] = n.output(i);
  };
  auto step = [&](O *& x, O *& p, O *& q, O *& aa, O *& gg, O *& io, O *& s0, O *& s1, O *& rs, unsigned k) {
    O * keep = res;
    res = rs;
    switch (k)
    {
    case 0: loadS(*p, { &s0 }); break;
    case 1: loadS(*p, { &s0, &s1 }); break;
    case 2: loadS(*aa, { &s1 }); break;
    case 3: loadS(*aa, { &s1, &s0 }); break;
    case 4: storeS(*q, *x, { &s0 }); break;
    case 5: storeS(*aa, *x, { &s1 }); break;
    case 6: storeS(*p, *res, { &s0, &s1 }); break;
    case 7: io = callS(*gg, { p, x }, *io, { &s0, &s1 }).io; break;
    case 8: { O * j = joinS({ s0, s1 }); s0 = j, s1 = j; break; }
    }
    rs = res, res = keep;
  };
  unsigned shape = ch.pick(3, "shape"), n = deep() ? 4 : 3;
  if (shape == 0)
    for (unsigned i = lite(); i < n + 1; i++) step(f.x, f.p, f.q, a, fg, io, s0, s1, res, ch.pick(i < 2 ? 4 : 9, "s"));
  else if (shape == 1)
  {
    step(f.x, f.p, f.q, a, fg, io, s0, s1, res, ch.pick(4, "s"));
    Gam G(*isZero(*f.x), 2);
    auto ex = G.in(*f.x), ep = G.in(*f.p), eq = G.in(*f.q), ei = G.in(*io), e0 = G.in(*s0), e1 = G.in(*s1), ea = G.in(*a), eg = G.in(*fg), er = G.in(*res);
    step(ex[1], ep[1], eq[1], ea[1], eg[1], ei[1], e0[1], e1[1], er[1], ch.pick(4, "s"));
    step(ex[1], ep[1], eq[1], ea[1], eg[1], ei[1], e0[1], e1[1], er[1], ch.pick(8, "s"));
    io = G.out(ei), s0 = G.out(e0), s1 = G.out(e1), res = G.out(er);
    step(f.x, f.p, f.q, a, fg, io, s0, s1, res, ch.pick(6, "s"));
  }
  else
  {
    The T(r);
    auto vi = T.var(*cst(r, 8, 0)), vx = T.var(*f.x), vp = T.var(*f.p), vq = T.var(*f.q), va = T.var(*a), vg = T.var(*fg), vio = T.var(*io), v0 = T.var(*s0), v1 = T.var(*s1), vr = T.var(*res);
    O * x = vx.pre, * p = vp.pre, * q = vq.pre, * aa = va.pre, * gg = vg.pre, * i = vio.pre, * t0 = v0.pre, * t1 = v1.pre, * rr = vr.pre;
    for (unsigned k = 0; k < n; k++) step(x, p, q, aa, gg, i, t0, t1, rr, ch.pick(k ? 6 : 4, "s"));
    O * i1 = add(*vi.pre, 1);
    post(vi, *i1), post(vio, *i), post(v0, *t0), post(v1, *t1), post(vr, *rr);
    T.pred(*matchEq(*ibin(IOp::Ult, *i1, *cst(T.r(), 8, 2)), 1));
    io = vio.output, s0 = v0.output, s1 = v1.output, res = vr.output;
    step(f.x, f.p, f.q, a, fg, io, s0, s1, res, ch.pick(6, "s"));
  }
  f.io = io;
  f.mem = s0 == s1 ? s0 : mergeS({ s0, s1 });
  exportFn(*m, *f.finish({ res, f.x }), "f");
  return m;
}
// 5: a call whose memory is split by object: object ids 0 (everything else), 1 and 2 (two globals); the callee may fold objects into 0
static M splitCalls(Choices & ch)
{
  auto m = newModule();
  auto & root = m->Rvsdg().GetRootRegion();
  auto * g = importG(*m);
  O * d1 = delta(root, "d1", 5, false, jl::Linkage::internalLinkage), * d2 = delta(root, "d2", 9, false, jl::Linkage::internalLinkage);
  static const std::vector<std::vector<jl::MemoryNodeId>> sets{ { 0, 1, 2 }, { 0, 1 }, { 2, 0 }, { 0 }, { 1 }, { 2, 1 }, {} };
  unsigned ck = ch.pick(7, "callee objects");
  auto ids = sets[ck];
  O * h;
  unsigned body = ch.pick(7, "body");
  bool merged = ch.pick(2, "result order");
  {
    F4 c(*m, "h", { bt(8), bt(8) }, jl::Linkage::internalLinkage);
    O * c1 = c.ctx(*d1), * c2 = c.ctx(*d2), * cg = c.ctx(*g);
    std::vector<O *> st(3, nullptr);
    auto & sp = jl::LambdaEntryMemoryStateSplitOperation::CreateNode(*c.mem, ids);
    for (size_t i = 0; i < ids.size(); i++) st[ids[i]] = sp.output(i);
    auto at = [&](unsigned id) -> O *& { return st[id] ? st[id] : st[0]; };
    O * v = c.x, * v2 = c.y;
    bool can1 = at(1), can2 = at(2), can0 = st[0];
    switch (body)
    {
    case 0: break;
    case 1: if (can1) v = load(*c1, at(1), bt(8)); break;
    case 2: if (can1) store(*c1, *c.x, at(1)); break;
    case 3: if (can2) store(*c2, *c.x, at(2)); if (can1) v2 = load(*c1, at(1), bt(8)); break;
    case 4: if (can0) store(*c.p, *c.x, st[0]); break;
    case 5: if (can0) { auto k = call(*cg, { c.p, c.y }, *c.io, *st[0]); v = k.vals[0], c.io = k.io, st[0] = k.mem; } break;
    case 6: // conditionally
      if (can1)
      {
        Gam G(*isZero(*c.x), 2);
        auto ex = G.in(*c.y), e1 = G.in(*c1), em = G.in(*at(1));
        store(*e1[1], *ex[1], em[1]);
        at(1) = G.out(em);
        v2 = c.x, v = c.y;
      }
      break;
    }
    std::vector<O *> out;
    auto oids = ids;
    if (merged) std::reverse(oids.begin(), oids.end());
    for (auto id : oids) out.push_back(st[id]);
    c.mem = jl::LambdaExitMemoryStateMergeOperation::CreateNode(*c.r, out, oids).output(0);
    h = c.finish({ v, v2 });
  }
  F4 f(*m);
  O * fh = f.ctx(*h), * f1 = f.ctx(*d1), * f2 = f.ctx(*d2);
  // the caller may fold objects into 0 as well
  static const std::vector<std::vector<jl::MemoryNodeId>> own{ { 0, 1, 2 }, { 0, 2 }, { 0 } };
  auto fids = own[ch.pick(3, "caller objects")];
  std::vector<O *> st(3, nullptr);
  auto & sp = jl::LambdaEntryMemoryStateSplitOperation::CreateNode(*f.mem, fids);
  for (size_t i = 0; i < fids.size(); i++) st[fids[i]] = sp.output(i);
  auto at = [&](unsigned id) -> O *& { return st[id] ? st[id] : st[0]; };
  store(*f1, *f.y, at(1));
  store(*f2, *f.y, at(2));
  // the call mentions the objects the callee knows, and perhaps more
  std::vector<jl::MemoryNodeId> cids = ch.pick(2, "call objects") ? std::vector<jl::MemoryNodeId>{ 2, 1, 0 } : ids;
  // what the caller folds is part of 0
  bool folded = false;
  std::vector<jl::MemoryNodeId> kept;
  for (auto id : cids)
    if (st[id]) kept.push_back(id);
    else folded = true;
  if (folded && !std::count(kept.begin(), kept.end(), 0)) kept.push_back(0);
  cids = kept;
  std::vector<jl::MemoryNodeId> xids = cids;
  if (ch.pick(2, "order after") ) std::reverse(xids.begin(), xids.end());
  std::vector<O *> in;
  for (auto id : cids) in.push_back(st[id]);
  // a callee that folds an object into 0 needs all of them in the call
  O * vio = f.io;
  O * res, * res2;
  auto & em = jl::CallEntryMemoryStateMergeOperation::CreateNode(*f.r, in, cids);
  auto r = call(*fh, { f.x, f.y, f.p, f.q }, *vio, *em.output(0));
  auto & ex = jl::CallExitMemoryStateSplitOperation::CreateNode(*r.mem, xids);
  for (size_t i = 0; i < xids.size(); i++) st[xids[i]] = ex.output(i);
  f.io = r.io, res = r.vals[0], res2 = r.vals[1];
  O * l1 = load(*f1, at(1), bt(8)), * l2 = load(*f2, at(2), bt(8)), * l0 = load(*f.p, st[0], bt(8));
  if (ch.pick(2, "then store")) store(*f1, *l2, at(1));
  std::vector<O *> end;
  for (auto id : fids) end.push_back(st[id]);
  f.mem = jl::LambdaExitMemoryStateMergeOperation::CreateNode(*f.r, end, fids).output(0);
  exportFn(*m, *f.finish({ add(*res, *l1), add(*res2, *sub(*l2, *l0)) }), "f");
  return m;
}
void harness_main()
{
  unsigned kind = symx_arg(1);
  World w;
  auto args = stdArgs(w);
  M (*fs[])(Choices &) = { choosing, aggregates, barriers, localsInLoops, chains, splitCalls };
  validate(w, fs[kind], [&](jl::LlvmRvsdgModule & m) { runNamed(symx_arg(0), m); }, args);
}
