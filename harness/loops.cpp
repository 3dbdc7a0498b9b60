// Loops in the forms that loop optimisations look for.
// arg1: family: 0 predicate computed by a conditional, 1 "for" loops, 2 multiplications, 3 addresses, 4 nested loops, 5 counted loops over bit strings, 6 loops over arrays
// arg0: pass; arg2: 1 = more
#include "jv_passes.hpp"
#include "jv_progs.hpp"
using namespace jv;
// loop { gamma(p) { ..., predicate or key constant } } with the loop's predicate from the conditional
static M predicates(Choices & ch)
{
  auto m = newModule();
  auto * g = importG(*m);
  F4 f(*m);
  The T(*f.r);
  auto vi = T.var(*cst(*f.r, 8, 0)), vx = T.var(*f.x), vy = T.var(*f.y), vp = T.var(*f.p), vm = T.var(*f.mem), vd = T.var(*f.x), ve = T.var(*f.y), vio = T.var(*f.io), vg = T.var(*f.ctx(*g));
  R & b = T.r();
  O * i1 = add(*vi.pre, 1);
  O * cont = ibin(IOp::Ult, *i1, ch.pick(2, "lim") ? *vy.pre : *cst(b, 8, 3));
  unsigned nalt = 2 + ch.pick(2, "nalt");
  O * pred = nalt == 2 ? ch.pick(2, "inverted") ? matchEq(*cont, 1, 0, 1) : matchEq(*cont, 1) : matchN(*ibin(IOp::And, *i1, *cst(b, 8, 3)), { { 1, 1 }, { 2, 2 } }, 0, 3);
  Gam G(*pred, nalt);
  auto ei = G.in(*i1), ex = G.in(*vx.pre), ey = G.in(*vy.pre), ep = G.in(*vp.pre), em = G.in(*vm.pre), ed = G.in(*vd.pre), ee = G.in(*ve.pre), eio = G.in(*vio.pre), eg = G.in(*vg.pre);
  // what the alternatives give: a predicate, or a key for a match
  unsigned kind = ch.pick(4, "predicate"); // 0 control constants, 1 integer keys, 2 bit string keys, 3 key from a variable in one alternative
  std::vector<O *> c;
  std::vector<unsigned> val;
  for (unsigned i = 0; i < nalt; i++)
  {
    unsigned v = i < 2 ? ch.pick(2, "alternative") : 1;
    R & r = G.br(i);
    if (kind == 0) c.push_back(ctl(r, 2, v));
    else if (kind == 1) c.push_back(cst(r, 8, v ? 5 : 9));
    else if (kind == 2) c.push_back(&rv::BitConstantOperation::create(r, { 8, v ? 5 : 9 }));
    else c.push_back(i ? cst(r, 8, v ? 5 : 9) : ibin(IOp::And, *ei[0], *cst(r, 8, 5)));
  }
  O * o = G.out(c);
  std::vector<O *> oi, ox, om, od, oe, oio;
  unsigned body = ch.pick(3, "body");
  for (unsigned i = 0; i < nalt; i++)
  {
    O * s = em[i], * x = ex[i], * io = eio[i];
    if (body == 1 && i == 1) store(*ep[i], *ex[i], s);
    if (body == 1 && i == 0) x = load(*ep[i], s, bt(8));
    if (body == 2) x = i ? add(*ex[i], *ey[i]) : ed[i];
    if (body == 2 && i == 1) { auto k = call(*eg[i], { ep[i], ex[i] }, *io, *s); io = k.io, s = k.mem; }
    oi.push_back(ei[i]), ox.push_back(x), om.push_back(s), oio.push_back(io);
    od.push_back(i == 0 ? ex[i] : ed[i]); // leaves with the value of the exit alternative
    oe.push_back(i == 0 ? ee[i] : ex[i]);
  }
  post(vi, *G.out(oi)), post(vx, *G.out(ox)), post(vm, *G.out(om)), post(vio, *G.out(oio));
  unsigned u = ch.pick(3, "used"); // which of the two selected variables are used in and after the loop
  if (u != 0) post(vd, *G.out(od));
  if (u != 1) post(ve, *G.out(oe));
  if (kind == 0) T.pred(*o);
  else T.pred(*(ch.pick(2, "mapping") ? matchEq(*o, 5) : matchEq(*o, 9, 0, 1)));
  f.io = vio.output, f.mem = vm.output;
  O * res = add(*vx.output, *vi.output);
  O * r2 = u == 0 ? ve.output : u == 1 ? vd.output : add(*vd.output, *ve.output);
  exportFn(*m, *f.finish({ res, r2 }), "f");
  return m;
}
// while (cond) body: loop { gamma(match(cond)) { exit } { body } } repeating on the same match
static M forLoops(Choices & ch)
{
  auto m = newModule();
  auto * g = importG(*m);
  F4 f(*m);
  bool deep = symx_arg(2) == 1;
  The T(*f.r);
  auto vi = T.var(*cst(*f.r, 8, 0)), vx = T.var(*f.x), vy = T.var(*f.y), vp = T.var(*f.p), vm = T.var(*f.mem), va = T.var(*f.x), vb = T.var(*f.y), vd = T.var(*f.x),
       vio = T.var(*f.io), vg = T.var(*f.ctx(*g));
  R & b = T.r();
  // predicate: over the counter; may read memory or use values shared with the body
  unsigned cond = ch.pick(4, "cond");
  O * st = vm.pre, * c;
  O * shared = ibin(IOp::Xor, *vi.pre, *vx.pre);
  if (cond == 0) c = ibin(IOp::Ult, *vi.pre, *cst(b, 8, 2));
  else if (cond == 1) c = ibin(IOp::Ult, *vi.pre, *ibin(IOp::And, *vy.pre, *cst(b, 8, 3)));
  else if (cond == 2) c = ibin(IOp::Ult, *vi.pre, *ibin(IOp::And, *load(*vp.pre, st, bt(8)), *cst(b, 8, 1)));
  else c = ibin(IOp::Ne, *ibin(IOp::And, *shared, *cst(b, 8, 1)), *cst(b, 8, 0));
  O * pred = ch.pick(2, "match") ? matchEq(*c, 1) : matchEq(*c, 0, 0, 1);
  O * only = add(*shared, *vy.pre); // used in the conditional only
  Gam G(*pred, 2);
  auto ei = G.in(*vi.pre), ex = G.in(*vx.pre), ey = G.in(*vy.pre), ep = G.in(*vp.pre), em = G.in(*st), ea = G.in(*va.pre), eb = G.in(*vb.pre), es = G.in(*shared), eo = G.in(*only),
       ed = G.in(*vd.pre), eio = G.in(*vio.pre), eg = G.in(*vg.pre);
  G.in(*vx.pre); // unused
  std::vector<O *> oi, ox, om, oa, ob, od, oio;
  unsigned body = ch.pick(deep ? 5 : 4, "body"), exitOp = ch.pick(3, "exit"), vars = ch.pick(3, "vars");
  for (unsigned i = 0; i < 2; i++)
  {
    O * s = em[i], * x = ex[i], * d = ed[i], * io = eio[i];
    if (i)
    {
      switch (body)
      {
      case 0: x = add(*ex[1], *ey[1]); break;
      case 1: store(*ep[1], *es[1], s); d = eo[1]; break;
      case 2: x = add(*load(*ep[1], s, bt(8)), *ei[1]); break;
      case 3: { auto k = call(*eg[1], { ep[1], ex[1] }, *io, *s); io = k.io, s = k.mem, x = k.vals[0]; break; }
      case 4:
      {
        Gam H(*isZero(*ex[1]), 2);
        auto hx = H.in(*ex[1]), hy = H.in(*ey[1]);
        x = H.out({ hy[0], sub(*hx[1], *hy[1]) });
        break;
      }
      }
      oi.push_back(add(*ei[1], 1));
    }
    else
    {
      if (exitOp == 1) x = sub(*ex[0], *es[0]);
      if (exitOp == 2) { store(*ep[0], *ei[0], s); d = add(*ed[0], *eo[0]); }
      oi.push_back(ei[0]);
    }
    ox.push_back(x), om.push_back(s), od.push_back(d), oio.push_back(io);
    oa.push_back(vars == 1 ? eb[i] : ea[i]), ob.push_back(vars ? ea[i] : eb[i]);
  }
  post(vi, *G.out(oi)), post(vx, *G.out(ox)), post(vm, *G.out(om)), post(vd, *G.out(od)), post(vio, *G.out(oio));
  if (vars) { post(va, *G.out(oa)), post(vb, *G.out(ob)); }
  else if (ch.pick(2, "crossed")) { post(va, *vb.pre), post(vb, *va.pre); } // not routed through the conditional
  T.pred(*pred);
  f.io = vio.output, f.mem = vm.output;
  exportFn(*m, *f.finish({ add(*vx.output, *vi.output), add(*vd.output, *sub(*va.output, *vb.output)) }), "f");
  return m;
}
// i changes by a constant or an invariant; values computed from i by chains of add, sub, mul and shl
static M multiplications(Choices & ch)
{
  auto m = newModule();
  F4 f(*m);
  bool deep = symx_arg(2) == 1;
  R & r = *f.r;
  The T(r);
  static const u64 cs[] = { 3, 0xfe, 0x80 };
  O * k0 = cst(r, 8, cs[ch.pick(2, "k")]);
  auto vn = T.var(*cst(r, 8, 0)), vi = T.var(*f.x), vx = T.var(*f.y), vk = T.var(*k0), vm = T.var(*f.mem), vp = T.var(*f.p), vr = T.var(*f.y), vj = T.var(*f.y);
  R & b = T.r();
  O * kc = cst(b, 8, cs[ch.pick(3, "c")]);
  // induction
  unsigned ind = ch.pick(4, "induction");
  O * i1 = ind == 0 ? add(*vi.pre, 1) : ind == 1 ? add(*vi.pre, *kc) : ind == 2 ? add(*vi.pre, *vk.pre) : sub(*vi.pre, *kc);
  O * iv = ch.pick(2, "iv") ? vi.pre : i1;
  std::vector<O *> v{ iv, vx.pre, kc, vi.pre };
  auto op = [&](const char * n) {
    static const IOp ops[] = { IOp::Mul, IOp::Add, IOp::Sub, IOp::Shl };
    unsigned k = ch.pick(deep ? 4 : 3, n);
    if (!deep && k == 2) k = 3;
    return ops[k];
  };
  // a linear combination
  O * a = ibin(IOp::Mul, *v[0], *v[1 + ch.pick(2, "factor")]);
  if (ch.pick(2, "flip")) a = ibin(IOp::Mul, *v[2], *v[0]);
  O * w = a;
  IOp o1 = op("op1");
  w = o1 == IOp::Shl ? ibin(o1, *a, *cst(b, 8, 2)) : ibin(o1, *a, *v[ch.pick(deep ? 4 : 3, "rhs")]);
  if (deep)
  {
    IOp o2 = op("op2");
    w = o2 == IOp::Shl ? ibin(o2, *w, *cst(b, 8, 1)) : ch.pick(2, "swap") ? ibin(o2, *v[1], *w) : ibin(o2, *w, *v[2]);
  }
  O * s = vm.pre;
  unsigned use = ch.pick(3, "use");
  if (use == 0) post(vr, *ibin(IOp::Xor, *vr.pre, *w));
  else if (use == 1) { store(*vp.pre, *w, s); post(vr, *a); }
  else { post(vr, *w); post(vj, *add(*vj.pre, *a)); }
  post(vm, *s);
  post(vi, *i1);
  O * n1 = add(*vn.pre, 1);
  post(vn, *n1);
  T.pred(*matchEq(*ibin(IOp::Ult, *n1, *cst(b, 8, 3)), 1));
  f.mem = vm.output;
  exportFn(*m, *f.finish({ vr.output, add(*vj.output, *vi.output) }), "f");
  return m;
}
// addresses p + i * k, over several index widths and element types; p may itself advance
static M addresses(Choices & ch)
{
  auto m = newModule();
  F4 f(*m);
  bool deep = symx_arg(2) == 1;
  R & r = *f.r;
  static const unsigned ws[] = { 64, 8, 32 };
  unsigned w = ws[ch.pick(3, "width")];
  unsigned start = ch.pick(3, "start"); // 0: 0, 1: the parameter, 2: last representable value
  O * i0 = start == 0 ? cst(r, w, 0) : start == 1 ? (w == 8 ? f.x : ch.pick(2, "sext") ? sext(*f.x, w) : zext(*f.x, w)) : cst(r, w, maskOf(w) >> 1);
  The T(r);
  auto vn = T.var(*cst(r, 8, 0)), vi = T.var(*i0), vp = T.var(*f.p), vm = T.var(*f.mem), vr = T.var(*f.y), vj = T.var(*f.p);
  R & b = T.r();
  unsigned step = ch.pick(3, "step");
  O * i1 = step == 0 ? add(*vi.pre, 1) : step == 1 ? sub(*vi.pre, *cst(b, w, 1)) : add(*vi.pre, *cst(b, w, 2));
  O * ix = ch.pick(2, "iv") ? i1 : vi.pre;
  unsigned shape = ch.pick(4, "index");
  if (shape == 1) ix = ibin(IOp::And, *ix, *cst(b, w, 3));
  if (shape == 2 && w != 64) ix = sext(*ix, 64);
  if (shape == 3 && w != 64) ix = zext(*ix, 64);
  O * a;
  unsigned ty = ch.pick(deep ? 4 : 3, "type");
  if (ty == 0) a = gep(*vp.pre, { ix }, bt(8));
  else if (ty == 1) a = gep(*vp.pre, { ix }, bt(16));
  else if (ty == 2) a = gep(*vp.pre, { cst(b, 64, 0), ix }, jl::ArrayType::Create(bt(8), 4));
  else a = gep(*vp.pre, { ix, cst(b, 32, 1) }, jl::StructType::CreateLiteral({ bt(8), bt(8) }, false));
  O * s = vm.pre;
  unsigned use = ch.pick(3, "use");
  if (use == 0) post(vr, *add(*vr.pre, *load(*a, s, bt(8))));
  else if (use == 1) { store(*a, *vn.pre, s); }
  else { post(vj, *a); post(vr, *add(*vr.pre, *load(*vj.pre, s, bt(8)))); }
  post(vm, *s);
  post(vi, *i1);
  O * n1 = add(*vn.pre, 1);
  post(vn, *n1);
  T.pred(*matchEq(*ibin(IOp::Ult, *n1, *cst(b, 8, 3)), 1));
  f.mem = vm.output;
  exportFn(*m, *f.finish({ vr.output, vn.output }), "f");
  return m;
}
// two nested loops; the inner one computes from both counters
static M nested(Choices & ch)
{
  auto m = newModule();
  F4 f(*m);
  R & r = *f.r;
  The T(r);
  static const u64 cs[] = { 3, 0x80, 0xff };
  O * kc0 = cst(r, 8, cs[ch.pick(symx_arg(2) == 1 ? 3 : 2, "c")]);
  auto vi = T.var(*cst(r, 8, 0)), vx = T.var(*f.x), vr = T.var(*f.y), vm = T.var(*f.mem), vp = T.var(*f.p), vk = T.var(*kc0), vj0 = T.var(*f.x);
  R & b = T.r();
  The U(b);
  unsigned init = ch.pick(4, "init");
  O * j0 = init == 0 ? cst(b, 8, 0) : init == 1 ? vi.pre : init == 2 ? vj0.pre : ibin(IOp::Mul, *vi.pre, *vk.pre);
  auto uj = U.var(*j0), un = U.var(*cst(b, 8, 0)), ui = U.var(*vi.pre), ux = U.var(*vx.pre), ur = U.var(*vr.pre), um = U.var(*vm.pre), up = U.var(*vp.pre), uk = U.var(*vk.pre);
  R & c = U.r();
  unsigned step = ch.pick(3, "step");
  O * j1 = step == 0 ? add(*uj.pre, 1) : step == 1 ? add(*uj.pre, *ui.pre) : add(*uj.pre, *uk.pre);
  unsigned val = ch.pick(5, "value");
  O * v;
  switch (val)
  {
  case 0: v = ibin(IOp::Mul, *uj.pre, *uk.pre); break;
  case 1: v = add(*ibin(IOp::Mul, *ui.pre, *cst(c, 8, 4)), *uj.pre); break;
  case 2: v = ibin(IOp::Mul, *add(*ui.pre, *uj.pre), *cst(c, 8, 3)); break;
  case 3: v = ibin(IOp::Mul, *ui.pre, *uj.pre); break;
  default: v = sub(*ibin(IOp::Mul, *j1, *ux.pre), *ui.pre);
  }
  O * s = um.pre;
  if (ch.pick(2, "use")) { O * a = gep(*up.pre, { ibin(IOp::And, *v, *cst(c, 8, 3)) }, bt(8)); post(ur, *add(*ur.pre, *load(*a, s, bt(8)))); }
  else post(ur, *ibin(IOp::Xor, *ur.pre, *v));
  post(um, *s), post(uj, *j1);
  O * n1 = add(*un.pre, 1);
  post(un, *n1);
  U.pred(*matchEq(*ibin(IOp::Ult, *n1, *cst(c, 8, 2)), 1));
  post(vr, *ur.output), post(vm, *um.output);
  if (ch.pick(2, "carry")) post(vj0, *uj.output);
  O * i1 = add(*vi.pre, 1);
  post(vi, *i1);
  T.pred(*matchEq(*ibin(IOp::Ult, *i1, *cst(b, 8, 2)), 1));
  f.mem = vm.output;
  exportFn(*m, *f.finish({ vr.output, vj0.output }), "f");
  return m;
}
// counted loops over bit strings: (i op= step) cmp end
static M counted(Choices & ch)
{
  auto m = newModule();
  F4 f(*m);
  R & r = *f.r;
  unsigned form = symx_arg(2); // 0: known bounds; 1: bounds known at run time only
  auto k = [&](R & r, u64 v) { return &rv::BitConstantOperation::create(r, { 8, (int64_t)v }); };
  unsigned in = ch.pick(2, "init") * 2, st = 1 + ch.pick(3, "step"), n = form ? 0 : ch.pick(7, "iterations") * st + ch.pick(st, "rest");
  O * init = form ? f.x : k(r, in), * step = k(r, st), * end = form ? f.y : k(r, in + n);
  The T(r);
  auto vi = T.var(*init), vs = T.var(*step), ve = T.var(*end), vx = T.var(*f.x), vy = T.var(*f.y), vm = T.var(*f.mem), vp = T.var(*f.p);
  R & b = T.r();
  O * i1 = rv::bitadd_op::create(8, vi.pre, vs.pre);
  unsigned cmp = ch.pick(4, "cmp");
  O * c = cmp == 0 ? rv::bitult_op::create(8, i1, ve.pre) : cmp == 1 ? rv::bitslt_op::create(8, i1, ve.pre) : cmp == 2 ? rv::bitule_op::create(8, i1, ve.pre) : rv::bitsle_op::create(8, i1, ve.pre);
  O * s = vm.pre;
  if (ch.pick(2, "body")) { O * v = load(*vp.pre, s, bt(8)); store(*vp.pre, *add(*v, *vi.pre), s); post(vx, *vy.pre); post(vy, *vx.pre); }
  else post(vx, *rv::bitxor_op::create(8, vx.pre, i1));
  post(vi, *i1), post(vm, *s);
  T.pred(*matchEq(*c, 1));
  f.mem = vm.output;
  exportFn(*m, *f.finish({ vx.output, vi.output }), "f");
  return m;
}
// a loop that walks over an array, reading and writing the current, the previous and the next element
static M streams(Choices & ch)
{
  auto m = newModule();
  F4 f(*m);
  bool deep = symx_arg(2) == 1;
  R & r = *f.r;
  auto al = jl::AllocaOperation::create(jl::ArrayType::Create(bt(8), 8), cst(r, 32, 1), 1);
  O * st0 = al[1];
  unsigned init = ch.pick(3, "init"); // 0: nothing is written before the loop, 1: the first element, 2: the second element
  if (init == 1) store(*al[0], *f.x, st0);
  if (init == 2) store(*gep(*al[0], { cst(r, 64, 1) }, bt(8)), *f.x, st0);
  The T(r);
  bool ptrIv = ch.pick(2, "pointer induction variable");
  unsigned start = ch.pick(2, "start");
  O * a0 = start ? gep(*al[0], { cst(r, 64, 1) }, bt(8)) : al[0];
  auto vn = T.var(*cst(r, 8, 0)), vi = T.var(*cst(r, 64, start)), vp = T.var(ptrIv ? *a0 : *al[0]), vs = T.var(*st0), vx = T.var(*f.x), vr = T.var(*f.y), vq = T.var(*f.p), vm = T.var(*f.mem);
  R & b = T.r();
  O * s = vs.pre, * s2 = vm.pre;
  O * one = cst(b, 64, 1);
  O * cur = ptrIv ? vp.pre : gep(*vp.pre, { vi.pre }, bt(8));
  O * i1 = add(*vi.pre, 1), * next = ptrIv ? gep(*vp.pre, { one }, bt(8)) : gep(*vp.pre, { i1 }, bt(8));
  O * prev = ptrIv ? gep(*vp.pre, { cst(b, 64, ~(u64)0) }, bt(8)) : gep(*vp.pre, { sub(*vi.pre, *one) }, bt(8));
  O * fix = gep(ptrIv ? *cur : *vp.pre, { cst(b, 64, 0) }, bt(8));
  std::vector<O *> ad{ cur, next, prev, fix };
  O * first = matchEq(*vn.pre, 0); // alternative 1: first iteration
  O * acc = vr.pre;
  unsigned n = 2 + (deep ? ch.pick(2, "more") : 0);
  for (unsigned k = 0; k < n; k++)
  {
    unsigned kind = ch.pick(3, "access");
    O * a = ad[ch.pick(k == 0 || deep ? 4 : 3, "element")];
    if (kind == 0) store(*a, *add(*vn.pre, *vx.pre), s);
    else if (kind == 1) acc = add(*acc, *load(*a, s, bt(8)));
    else
    { // read in all but the first iteration
      Gam G(*first, 2);
      auto ga = G.in(*a), gs = G.in(*s), gr = G.in(*acc);
      O * t = gs[0];
      O * v = add(*gr[0], *load(*ga[0], t, bt(8)));
      acc = G.out({ v, gr[1] }), s = G.out({ t, gs[1] });
    }
  }
  post(vr, *acc), post(vs, *s), post(vm, *s2), post(vi, *i1);
  if (ptrIv) post(vp, *next);
  O * n1 = add(*vn.pre, 1);
  post(vn, *n1);
  T.pred(*matchEq(*ibin(IOp::Ult, *n1, *cst(b, 8, 3)), 1));
  O * so = vs.output;
  unsigned after = ch.pick(3, "after");
  O * a = after == 0 ? al[0] : after == 1 ? gep(*al[0], { cst(r, 64, 1) }, bt(8)) : ptrIv ? gep(*vp.output, { cst(r, 64, ~(u64)0) }, bt(8)) : gep(*al[0], { sub(*vi.output, *cst(r, 64, 1)) }, bt(8));
  f.mem = vm.output;
  O * v = load(*a, so, bt(8));
  exportFn(*m, *f.finish({ vr.output, v }), "f");
  return m;
}
void harness_main()
{
  unsigned kind = symx_arg(1);
  World w;
  w.maxLoop = kind == 5 ? 12 : 5;
  w.maxLoopTrans = 12;
  auto args = stdArgs(w);
  if (kind == 5 && symx_arg(2) == 1)
  {
    u64 x = args[0].v, y = args[1].v;
    symx_assume((x < 100) & (y < 100) & ((y <= x) | (y - x < 12))); // a loop that counts up, without overflow
  }
  M (*fs[])(Choices &) = { predicates, forLoops, multiplications, addresses, nested, counted, streams };
  validate(w, fs[kind], [&](jl::LlvmRvsdgModule & m) { runNamed(symx_arg(0), m); }, args);
}
