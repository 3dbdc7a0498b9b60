// Programs in which pointers travel through memory, calls, conditionals, loops and globals.
// arg0: pass; arg1: family: 0 pointers in memory, 1 calls, 2 recursion, 3 copies and heap, 4 loops over pointers, 5 globals and exports, 6 offsets; arg2: 1 = more
#include "jv_passes.hpp"
#include "jv_progs.hpp"
#include <jlm/llvm/ir/operators/StdLibIntrinsicOperations.hpp>
using namespace jv;
static O * one(R & r) { return cst(r, 32, 1); }
static O * alloc(R & r, Ty t, O *& mem)
{
  auto o = jl::AllocaOperation::create(t, one(r), 1);
  mem = mergeS({ o[1], mem });
  return o[0];
}
static O * visible(O * o, const std::string & name, jl::Linkage lk)
{
  if (lk != jl::Linkage::internalLinkage) rv::GraphExport::Create(*o, name);
  return o;
}
static O * global(R & root, const std::string & name, u64 v, jl::Linkage lk = jl::Linkage::internalLinkage, bool constant = false) { return visible(delta(root, name, v, constant, lk), name, lk); }
static O * globalPtr(R & root, const std::string & name, O * to, jl::Linkage lk = jl::Linkage::internalLinkage, bool constant = false)
{
  auto d = rv::DeltaNode::Create(&root, jl::LlvmDeltaOperation::Create(ptrT(), name, lk, "", constant, 8));
  if (!to) return visible(&d->finalize(nullPtr(*d->subregion())), name, lk);
  O * in = d->AddContextVar(*to).inner;
  if (dynamic_cast<const rv::FunctionType *>(to->Type().get()))
    in = rv::CreateOpNode<jl::FunctionToPointerOperation>({ in }, std::dynamic_pointer_cast<const rv::FunctionType>(to->Type())).output(0);
  return visible(&d->finalize(in), name, lk);
}
static O * fnPtr(O & f) { return rv::CreateOpNode<jl::FunctionToPointerOperation>({ &f }, std::dynamic_pointer_cast<const rv::FunctionType>(f.Type())).output(0); }
static O * ptrFn(O & p, const std::shared_ptr<const rv::FunctionType> & t) { return rv::CreateOpNode<jl::PointerToFunctionOperation>({ &p }, t).output(0); }
static void exportAs(jl::LlvmRvsdgModule & m, O & o, const char * n) { exportFn(m, o, n); }

// two cells that hold pointers to locals, a global or the environment; a conditional update; an access through a cell
static M cells(Choices & ch)
{
  auto m = newModule();
  R & root = m->Rvsdg().GetRootRegion();
  bool deep = symx_arg(2);
  auto * g = importG(*m);
  O * gl = global(root, "gl", 7, ch.pick(2, "exported") ? jl::Linkage::externalLinkage : jl::Linkage::internalLinkage);
  F4 f(*m);
  R & r = *f.r;
  O * cg = f.ctx(*g), * cgl = f.ctx(*gl);
  O * s = f.mem;
  O * a = alloc(r, bt(8), s), * b = alloc(r, bt(8), s), * cell = alloc(r, ptrT(), s);
  store(*a, *f.x, s), store(*b, *f.y, s);
  std::vector<O *> targets{ a, b, cgl, f.p };
  unsigned where = ch.pick(2, "cell"); // a local cell, or one in the environment
  O * c = where ? f.q : cell;
  store(*c, *targets[ch.pick(4, "target")], s);
  unsigned upd = ch.pick(4, "update");
  if (upd == 1 || upd == 2)
  {
    O * t = targets[ch.pick(3, "target")];
    Gam G(*isZero(*f.x), 2);
    auto gs = G.in(*s), gc = G.in(*c), gt = G.in(*t);
    O * s1 = gs[1];
    if (upd == 1) store(*gc[1], *gt[1], s1);
    else { O * q = load(*gc[1], s1, ptrT()); store(*q, *cst(G.br(1), 8, 9), s1); }
    s = G.out({ gs[0], s1 });
  }
  if (upd == 3)
  {
    auto k = call(*cg, { targets[ch.pick(4, "argument")], f.x }, *f.io, *s);
    f.io = k.io, s = k.mem;
  }
  O * t = load(*c, s, ptrT());
  if (deep && ch.pick(2, "copied")) { O * c2 = alloc(r, ptrT(), s); store(*c2, *t, s); t = load(*c2, s, ptrT()); }
  unsigned use = ch.pick(3, "use");
  O * v = f.x;
  t = barrier(*t, *f.io);
  if (use == 0) store(*t, *f.y, s);
  else if (use == 1) v = load(*t, s, bt(8));
  else { auto k = call(*cg, { t, f.y }, *f.io, *s); f.io = k.io, s = k.mem, v = k.vals[0]; }
  O * w = add(*load(*a, s, bt(8)), *sub(*load(*b, s, bt(8)), *load(*cgl, s, bt(8))));
  f.mem = s;
  exportAs(*m, *f.finish({ v, w }), "f");
  return m;
}
// functions that take, store, load and return pointers, called directly, through a pointer, or through a chosen pointer
static M calls(Choices & ch)
{
  auto m = newModule();
  R & root = m->Rvsdg().GetRootRegion();
  bool deep = symx_arg(2);
  auto * g = importG(*m);
  O * gp = globalPtr(root, "gp", nullptr);
  Tys at{ ptrT(), ptrT(), bt(8) }, rt{ ptrT(), bt(8) };
  auto body = [&](const char * name, unsigned kind) {
    Fn h(root, name, at, rt, jl::Linkage::internalLinkage);
    O * hgp = h.ctx(*gp), * hg = h.ctx(*g);
    O * A = h.args[0], * B = h.args[1], * X = h.args[2], * s = h.mem, * ret = A, * v = X;
    switch (kind)
    {
    case 0: store(*A, *X, s); ret = B; break;
    case 1: v = load(*B, s, bt(8)); break;
    case 2: store(*hgp, *A, s); break; // the pointer escapes into a global
    case 3: { O * t = load(*hgp, s, ptrT()); store(*t, *X, s); ret = B; break; }
    case 4: ret = select(*ibin(IOp::Eq, *X, *cst(*h.r, 8, 0)), *A, *B); break;
    case 5: { O * l = alloc(*h.r, bt(8), s); store(*l, *X, s); auto k = call(*hg, { l, X }, *h.io, *s); h.io = k.io, s = k.mem; v = add(*k.vals[0], *load(*l, s, bt(8))); break; }
    default: { O * l = alloc(*h.r, ptrT(), s); store(*l, *B, s); O * t = load(*l, s, ptrT()); store(*t, *X, s); break; }
    }
    h.mem = s;
    return h.finish({ ret, v });
  };
  unsigned k1 = ch.pick(7, "callee"), how = ch.pick(3, "call"); // 0 direct, 1 through a global, 2 chosen at run time
  O * h1 = body("h1", k1);
  O * h2 = how == 2 ? body("h2", deep ? ch.pick(3, "other") * 2 : 0) : nullptr;
  auto ft = std::dynamic_pointer_cast<const rv::FunctionType>(h1->Type());
  O * fp = how == 1 ? globalPtr(root, "fp", h1, ch.pick(2, "fp exported") ? jl::Linkage::externalLinkage : jl::Linkage::internalLinkage) : nullptr;
  F4 f(*m);
  R & r = *f.r;
  O * s = f.mem;
  O * a = alloc(r, bt(8), s), * b = alloc(r, bt(8), s);
  store(*a, *f.x, s), store(*b, *f.y, s);
  O * cgp = f.ctx(*gp);
  store(*cgp, *b, s);
  O * callee;
  if (how == 0) callee = f.ctx(*h1);
  else if (how == 1) callee = ptrFn(*load(*f.ctx(*fp), s, ptrT()), ft);
  else callee = ptrFn(*select(*ibin(IOp::Eq, *f.y, *cst(r, 8, 0)), *fnPtr(*f.ctx(*h1)), *fnPtr(*f.ctx(*h2))), ft);
  O * args[] = { a, b, f.p };
  unsigned p1 = ch.pick(3, "first"), p2 = ch.pick(3, "second");
  auto k = call(*callee, { args[p1], args[p2], f.x }, *f.io, *s);
  f.io = k.io, s = k.mem;
  O * t = barrier(*k.vals[0], *f.io);
  unsigned then = ch.pick(3, "then");
  if (then == 0) store(*t, *f.y, s);
  else if (then == 1) { O * t2 = load(*cgp, s, ptrT()); store(*t2, *cst(r, 8, 3), s); }
  else { auto k2 = call(*callee, { b, a, f.y }, *f.io, *s); f.io = k2.io, s = k2.mem; }
  O * w = add(*load(*a, s, bt(8)), *ibin(IOp::Xor, *load(*b, s, bt(8)), *load(*t, s, bt(8))));
  f.mem = s;
  exportAs(*m, *f.finish({ k.vals[1], w }), "f");
  return m;
}
// mutually recursive functions that exchange pointers
static M recursion(Choices & ch)
{
  auto m = newModule();
  R & root = m->Rvsdg().GetRootRegion();
  O * gp = globalPtr(root, "gp", nullptr);
  Tys at{ ptrT(), ptrT(), bt(8) }, rt{ ptrT(), bt(8) };
  auto ft = Fn::mkType(at, rt);
  rv::PhiBuilder pb;
  pb.begin(&root);
  bool two = ch.pick(2, "two functions");
  auto v1 = pb.AddFixVar(ft);
  auto v2 = two ? pb.AddFixVar(ft) : v1;
  auto cgp = pb.AddContextVar(*gp);
  unsigned ownAlloca = ch.pick(2, "local");
  auto fn = [&](const char * name, O & next, unsigned kind) {
    Fn h(*pb.subregion(), name, at, rt, jl::Linkage::internalLinkage);
    O * hn = h.ctx(next), * hgp = h.ctx(*cgp.inner);
    O * s = h.mem;
    O * l = h.args[0];
    if (ownAlloca) { l = alloc(*h.r, bt(8), s); store(*l, *h.args[2], s); }
    Gam G(*isZero(*h.args[2]), 2);
    auto A = G.in(*h.args[0]), B = G.in(*h.args[1]), X = G.in(*h.args[2]), S = G.in(*s), I = G.in(*h.io), N = G.in(*hn), P = G.in(*hgp), L = G.in(*l);
    // recursion ends
    O * s0 = S[0], * s1 = S[1];
    // recurses
    if (kind == 0) store(*A[1], *X[1], s1);
    if (kind == 1) store(*P[1], *B[1], s1);
    if (kind == 2) { O * t = load(*P[1], s1, ptrT()); store(*t, *X[1], s1); }
    O * nx = sub(*X[1], *cst(G.br(1), 8, 1));
    auto k = call(*N[1], { B[1], ownAlloca ? L[1] : A[1], nx }, *I[1], *s1);
    O * v = add(*k.vals[1], *load(*L[1], k.mem, bt(8)));
    O * s2 = k.mem;
    (void)s2;
    h.io = G.out({ I[0], k.io });
    h.mem = G.out({ s0, k.mem });
    O * ret = G.out({ A[0], ownAlloca ? B[1] : k.vals[0] });
    O * rv_ = G.out({ X[0], v });
    return h.finish({ ret, rv_ });
  };
  unsigned k1 = ch.pick(3, "body"), k2 = two ? ch.pick(3, "body") : 0;
  O * l1 = fn("r1", *v2.recref, k1);
  v1.result->divert_to(l1);
  if (two) v2.result->divert_to(fn("r2", *v1.recref, k2));
  O * r1 = pb.end()->output(0);
  F4 f(*m);
  R & r = *f.r;
  O * s = f.mem;
  O * a = alloc(r, bt(8), s), * b = alloc(r, bt(8), s);
  store(*a, *f.x, s), store(*b, *f.y, s);
  O * c = f.ctx(*gp);
  store(*c, *a, s);
  O * args[] = { a, b, f.p };
  auto k = call(*f.ctx(*r1), { args[ch.pick(3, "first")], args[ch.pick(2, "second")], ibin(IOp::And, *f.x, *cst(r, 8, 3)) }, *f.io, *s);
  f.io = k.io, s = k.mem;
  O * v = k.vals[1];
  if (ch.pick(2, "then")) { O * t = barrier(*k.vals[0], *f.io); store(*t, *f.y, s); }
  O * w = add(*load(*a, s, bt(8)), *ibin(IOp::Xor, *load(*b, s, bt(8)), *load(*f.p, s, bt(8))));
  f.mem = s;
  exportAs(*m, *f.finish({ v, w }), "f");
  return m;
}
// heap cells, copies of memory that holds pointers, frees
static M copies(Choices & ch)
{
  auto m = newModule();
  R & root = m->Rvsdg().GetRootRegion();
  bool deep = symx_arg(2);
  auto * g = importG(*m);
  O * gl = global(root, "gl", 7);
  O * gp = globalPtr(root, "gp", gl, jl::Linkage::internalLinkage, deep && ch.pick(2, "constant"));
  F4 f(*m);
  R & r = *f.r;
  O * s = f.mem;
  O * cg = f.ctx(*g), * cgl = f.ctx(*gl), * cgp = f.ctx(*gp);
  auto mal = [&](u64 n) {
    auto & nd = jl::MallocOperation::createNode(*cst(r, 64, n), *f.io);
    f.io = nd.output(1);
    s = mergeS({ nd.output(2), s });
    return nd.output(0);
  };
  O * a = alloc(r, bt(8), s);
  O * b = ch.pick(2, "heap") ? mal(1) : alloc(r, bt(8), s);
  store(*a, *f.x, s), store(*b, *f.y, s);
  O * c1 = alloc(r, ptrT(), s), * c2 = mal(8);
  O * targets[] = { a, b, cgl, f.p };
  store(*c1, *targets[ch.pick(4, "first")], s);
  store(*c2, *targets[deep ? ch.pick(3, "second") : 1], s);
  O * cs[] = { c1, c2, cgp, f.q };
  unsigned from = ch.pick(3, "from"), to = 0;
  { static const unsigned dst[3][2] = { { 1, 3 }, { 0, 3 }, { 0, 1 } }; to = dst[from][ch.pick(2, "to")]; }
  if (deep && ch.pick(2, "variable size"))
  {
    s = jl::MemCpyNonVolatileOperation::createNode(*cs[to], *cs[from], *zext(*ibin(IOp::And, *f.x, *cst(r, 8, 8)), 64), { s }).output(0);
  }
  else s = jl::MemCpyNonVolatileOperation::createNode(*cs[to], *cs[from], *cst(r, 64, 8), { s }).output(0);
  if (ch.pick(2, "call")) { auto k = call(*cg, { cs[to], f.x }, *f.io, *s); f.io = k.io, s = k.mem; }
  O * t = barrier(*load(*cs[to], s, ptrT()), *f.io);
  O * v = f.x;
  unsigned use = ch.pick(3, "use");
  if (use == 0) store(*t, *f.y, s);
  else if (use == 1) v = load(*t, s, bt(8));
  else { store(*t, *f.x, s); auto fr = jl::FreeOperation::Create(c2, { s }, f.io); s = fr[0]; f.io = fr[1]; }
  O * w = add(*load(*a, s, bt(8)), *sub(*load(*b, s, bt(8)), *load(*cgl, s, bt(8))));
  f.mem = s;
  exportAs(*m, *f.finish({ v, w }), "f");
  return m;
}
// pointers that change in loops
static M ploops(Choices & ch)
{
  auto m = newModule();
  R & root = m->Rvsdg().GetRootRegion();
  O * gp = globalPtr(root, "gp", nullptr);
  F4 f(*m);
  R & r = *f.r;
  O * s = f.mem;
  O * cgp = f.ctx(*gp);
  O * a = alloc(r, bt(8), s), * b = alloc(r, bt(8), s), * cell = alloc(r, ptrT(), s);
  store(*a, *f.x, s), store(*b, *f.y, s), store(*cell, *b, s), store(*cgp, *f.p, s);
  O * ptrs[] = { a, b, f.p };
  The T(r);
  auto vi = T.var(*cst(r, 8, 0)), v1 = T.var(*ptrs[ch.pick(3, "first")]), v2 = T.var(*ptrs[ch.pick(3, "second")]), vc = T.var(*cell), vg = T.var(*cgp), va = T.var(*a), vx = T.var(*f.x), vr = T.var(*f.y), vs = T.var(*s);
  R & q = T.r();
  s = vs.pre;
  O * r1 = vr.pre;
  unsigned body = ch.pick(5, "body");
  if (body == 0) store(*v1.pre, *vi.pre, s);                                // write through a pointer that changes
  else if (body == 1) store(*vg.pre, *v1.pre, s);                           // it escapes
  else if (body == 2) store(*vc.pre, *v1.pre, s);
  else if (body == 3) { O * t = load(*vc.pre, s, ptrT()); store(*vc.pre, *v2.pre, s); store(*t, *vi.pre, s); }
  else { O * l = alloc(q, bt(8), s); store(*l, *vi.pre, s); r1 = add(*r1, *load(*v1.pre, s, bt(8))); store(*vc.pre, *l, s); r1 = add(*r1, *load(*l, s, bt(8))); }
  unsigned rot = ch.pick(5, "rotation");
  if (rot == 1) { post(v1, *v2.pre), post(v2, *v1.pre); }
  else if (rot == 2) post(v1, *va.pre);
  else if (rot == 3) post(v1, *load(*vc.pre, s, ptrT()));
  else if (rot == 4) post(v2, *select(*ibin(IOp::Eq, *vi.pre, *vx.pre), *v1.pre, *v2.pre));
  post(vr, *r1), post(vs, *s);
  O * i1 = add(*vi.pre, 1);
  post(vi, *i1);
  T.pred(*matchEq(*ibin(IOp::Ult, *i1, *cst(q, 8, 3)), 1));
  s = vs.output;
  O * v = vr.output;
  O * end = body == 4 ? v1.output : v2.output;
  unsigned use = ch.pick(4, "use");
  bool again = ch.pick(2, "written again");
  if (again)
  {
    if (use == 0 && ch.pick(2, "unknown write")) store(*f.q, *f.p, s);
    store(*a, *f.y, s);
  }
  if (use == 0) { O * t = load(*cgp, s, ptrT()); store(*t, *cst(r, 8, 5), s); }
  else if (use == 1 && body != 4) { O * t = load(*cell, s, ptrT()); store(*t, *cst(r, 8, 6), s); }
  else if (use == 2) store(*end, *f.y, s);
  else v = add(*v, *load(*(rot ? v1 : v2).output, s, bt(8)));
  O * w = load(*a, s, bt(8));
  if (!again) w = add(*w, *ibin(IOp::Xor, *load(*b, s, bt(8)), *load(*f.p, s, bt(8))));
  f.mem = s;
  exportAs(*m, *f.finish({ v, w }), "f");
  return m;
}
// pointers into objects at offsets that are only partly known
static M offsets(Choices & ch)
{
  auto m = newModule();
  R & root = m->Rvsdg().GetRootRegion();
  bool wide = ch.pick(2, "object");
  Ty w16 = bt(16), w64 = bt(64);
  O * gl = global(root, "gl", 7);
  F4 f(*m);
  R & r = *f.r;
  O * s = f.mem;
  O * cgl = f.ctx(*gl);
  O * a = alloc(r, wide ? w64 : w16, s), * b = alloc(r, w64, s);
  auto at = [&](O & base, int64_t o) { return o ? gep(base, { cst(r, 64, o) }, bt(8)) : &base; };
  store(*a, wide ? *zext(*f.x, 64) : *zext(*f.x, 16), s), store(*b, *zext(*f.y, 64), s);
  store(*f.q, *at(*a, ch.pick(2, "stored at")), s); // the environment now knows the object
  store(*f.p, *f.x, s);
  O * t = load(*f.q, s, ptrT());
  static const int64_t os[] = { 0, -1, 1, 4 };
  O * u = at(*t, os[ch.pick(3, "offset")]);
  unsigned other = ch.pick(4, "other");
  O * v = other == 0 ? at(*b, os[ch.pick(4, "offset")]) : other == 1 ? at(*b, 1) : other == 2 ? cgl : f.p;
  if (other == 1) v = gep(*v, { zext(*trunc(*f.y, 1), 64) }, bt(8));
  O * c = ibin(IOp::Eq, *f.x, *f.y);
  O * k = u;
  if (other != 3 || ch.pick(2, "selects")) k = ch.pick(2, "order") ? select(*c, *u, *v) : select(*c, *v, *u);
  unsigned size = ch.pick(2, "size") ? 16 : 8;
  O * third = at(*a, ch.pick(2, "third"));
  O * first = load(*third, s, bt(8));
  store(*k, size == 8 ? *cst(r, 8, 5) : *zext(*f.y, 16), s);
  O * w = load(*third, s, bt(8));
  O * z = load(*b, s, bt(8));
  f.mem = s;
  exportAs(*m, *f.finish({ add(*first, *z), w }), "f");
  return m;
}
// globals of all linkages, pointers between them, functions the environment may call
static M globals(Choices & ch)
{
  auto m = newModule();
  R & root = m->Rvsdg().GetRootRegion();
  auto * g = importG(*m);
  unsigned exported = ch.pick(3, "exported");
  auto lk = [&](const char * n) { return (exported & 1 && n[0] == 'x') || (exported & 2 && n[0] == 'p') ? jl::Linkage::externalLinkage : jl::Linkage::internalLinkage; };
  O * x1 = global(root, "x1", 1, lk("x1")), * x2 = global(root, "x2", 2);
  O * imp = importGlobal(*m, "imp", bt(8));
  O * pts[] = { x1, x2, imp };
  O * p1 = globalPtr(root, "p1", pts[ch.pick(3, "p1 points to")], lk("p1")), * p2 = globalPtr(root, "p2", ch.pick(2, "p2 points to") ? p1 : nullptr);
  // a function the environment can call, if it is exported or its address escapes
  F4 f(*m);
  R & r = *f.r;
  O * s = f.mem;
  O * c1 = f.ctx(*x1), * c2 = f.ctx(*x2), * ci = f.ctx(*imp), * cp1 = f.ctx(*p1), * cp2 = f.ctx(*p2), * cg = f.ctx(*g);
  store(*c1, *f.x, s), store(*c2, *f.y, s);
  O * args[] = { f.p, cp1, cp2, c2 };
  unsigned first = ch.pick(3, "first");
  if (first == 1) { auto k = call(*cg, { args[ch.pick(4, "argument")], f.x }, *f.io, *s); f.io = k.io, s = k.mem; }
  if (first == 2) { store(*cp2, *c2, s); if (ch.pick(2, "to environment")) store(*f.q, *cp2, s); }
  O * t = load(*cp1, s, ptrT());
  t = barrier(*t, *f.io);
  O * v = f.x;
  if (ch.pick(2, "use")) store(*t, *cst(r, 8, 9), s);
  else v = load(*t, s, bt(8));
  if (symx_arg(2) && ch.pick(2, "call")) { auto k = call(*cg, { f.p, f.y }, *f.io, *s); f.io = k.io, s = k.mem; }
  O * w = add(*load(*c1, s, bt(8)), *ibin(IOp::Xor, *load(*c2, s, bt(8)), *load(*ci, s, bt(8))));
  f.mem = s;
  exportAs(*m, *f.finish({ v, w }), "f");
  return m;
}
void harness_main()
{
  World w;
  w.maxLoop = 4;
  w.maxLoopTrans = 12;
  auto args = stdArgs(w, 8);
  if (symx_arg(1) == 5) w.addExt("imp", 1);
  M (*fs[])(Choices &) = { cells, calls, recursion, copies, ploops, globals, offsets };
  validate(w, fs[symx_arg(1)], [&](jl::LlvmRvsdgModule & m) { runNamed(symx_arg(0), m); }, args);
}
