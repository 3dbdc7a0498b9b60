// symx: symbolic executor for LLVM bitcode (C++), fork-based path exploration, Z3 (QF_BV) as decision procedure.
#include "engine.hpp"
#include <cxxabi.h>
#include <cmath>
#include <csignal>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <algorithm>
#include <functional>
#include <set>
#include <map>

Engine * E;
extern FnInfo * fnAt(u64 addr);
extern u64 codeAddr(FnInfo * f);

static const u64 HEAP_BASE = 0x100000000000ull;
static const u64 HEAP_SIZE = 24ull << 30;
static const u64 STACK_SIZE = 1ull << 30; // first part of the region
static const u64 HEAP_END = HEAP_BASE + HEAP_SIZE;
static const u64 SHADOW_BASE = 0x200000000000ull;
static const u64 CODE_LO = 0x500000000000ull, CODE_HI = 0x500100000000ull;

static inline u8 * shadowOf(u64 a) { return (u8 *)(SHADOW_BASE + ((a - HEAP_BASE) >> 4)); }
static inline bool inHeap(u64 a) { return a - HEAP_BASE < HEAP_SIZE; }

static u64 nowUs()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1000000ull + t.tv_nsec / 1000;
}

// ---------------------------------------------------------------- symbolic shadow memory
struct SymPage { Expr * b[4096]; u32 n; };
static u32 symFilter[1 << 16];
static std::unordered_map<u64, SymPage *> symPages;

static inline SymPage * symPageAt(u64 a)
{
  if (!symFilter[(a >> 12) & 0xffff]) return nullptr;
  auto it = symPages.find(a >> 12);
  return it == symPages.end() ? nullptr : it->second;
}
static inline bool maybeSym(u64 a, u64 n)
{
  return symFilter[(a >> 12) & 0xffff] || symFilter[((a + n - 1) >> 12) & 0xffff];
}
static Expr * symGet(u64 a)
{
  auto p = symPageAt(a);
  return p ? p->b[a & 4095] : nullptr;
}
static void symSet(u64 a, Expr * e)
{
  auto p = symPageAt(a);
  if (!p)
  {
    if (!e) return;
    p = (SymPage *)calloc(1, sizeof(SymPage));
    symPages[a >> 12] = p;
    symFilter[(a >> 12) & 0xffff]++;
  }
  if (p->b[a & 4095] && !e) p->n--;
  if (!p->b[a & 4095] && e) p->n++;
  p->b[a & 4095] = e;
  if (p->n == 0)
  {
    symPages.erase(a >> 12);
    symFilter[(a >> 12) & 0xffff]--;
    free(p);
  }
}
static void symClear(u64 a, u64 n)
{
  while (n)
  {
    auto p = symPageAt(a);
    u64 k = std::min(n, 4096 - (a & 4095));
    if (p)
      for (u64 i = 0; i < k; i++)
      {
        if (p->b[(a + i) & 4095]) { bool last = p->n == 1; symSet(a + i, nullptr); if (last) break; }
      }
    a += k;
    n -= k;
  }
}
bool Engine::hasSym(u64 a, u64 n)
{
  while (n)
  {
    auto p = symPageAt(a);
    u64 k = std::min(n, 4096 - (a & 4095));
    if (p)
      for (u64 i = 0; i < k; i++) if (p->b[(a + i) & 4095]) return true;
    a += k;
    n -= k;
  }
  return false;
}

// ---------------------------------------------------------------- heap
u64 Engine::heapAlloc(u64 n, u64 align)
{
  if (align < 16) align = 16;
  u64 p = (heapTop + 16 + align - 1) & ~(align - 1); // >=16 byte redzone
  u64 r = (n + 15) & ~15ull;
  if (r == 0) r = 16;
  if (p + r + 64 >= HEAP_END) unsupported("heap exhausted");
  heapTop = p + r;
  u8 * s = shadowOf(p);
  u64 g = n / 16;
  memset(s, 16, g);
  if (n % 16) s[g] = (u8)(n % 16);
  return p;
}
void Engine::heapFree(u64 p, const char * what)
{
  if (!p) return;
  if (!inHeap(p)) { free((void *)p); return; }
  u8 * s = shadowOf(p);
  if (*s == 0xfd) violationEnd("memory", std::string("double free via ") + what);
  if (*s == 0 || (p & 15)) violationEnd("memory", std::string("invalid free via ") + what);
  u64 n = 0;
  while (s[n] >= 1 && s[n] <= 16) n++;
  if (symPages.size()) symClear(p, n * 16);
  memset(s, 0xfd, n);
}
bool Engine::accessOk(u64 a, u64 n)
{
  if (inHeap(a))
  {
    u8 * s = shadowOf(a);
    u64 o = a & 15;
    if (o + n <= 16) return *s <= 16 && o + n <= *s;
    if (*s != 16) return false;
    u64 rest = o + n - 16;
    s++;
    while (rest > 16) { if (*s != 16) return false; rest -= 16; s++; }
    return *s <= 16 && rest <= *s;
  }
  if (a < 65536) return false;
  if (a >= CODE_LO && a < CODE_HI) return false;
  return true;
}
void Engine::checkAccess(u64 a, u64 n, bool wr)
{
  if (__builtin_expect(!accessOk(a, n), 0))
  {
    char b[200];
    const char * why = "invalid address";
    if (inHeap(a)) why = *shadowOf(a) == 0xfd ? "use after free" : "out of bounds";
    snprintf(b, sizeof b, "%s of %llu bytes at 0x%llx (%s)", wr ? "write" : "read", (unsigned long long)n, (unsigned long long)a, why);
    violationEnd("memory", b);
  }
}

// interposed for native code that deletes memory obtained by interpreted code
void operator delete(void * p) noexcept
{
  if (inHeap((u64)p)) { if (E) E->heapFree((u64)p, "native delete"); return; }
  free(p);
}
void operator delete(void * p, size_t) noexcept { operator delete(p); }
void operator delete[](void * p) noexcept { operator delete(p); }
void operator delete[](void * p, size_t) noexcept { operator delete(p); }
void * operator new(size_t n)
{
  void * p = malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
void * operator new[](size_t n) { return operator new(n); }

// ---------------------------------------------------------------- memory access
static inline u64 rd(u64 a, unsigned n)
{
  switch (n)
  {
  case 1: return *(u8 *)a;
  case 2: { u16 v; memcpy(&v, (void *)a, 2); return v; }
  case 4: { u32 v; memcpy(&v, (void *)a, 4); return v; }
  case 8: { u64 v; memcpy(&v, (void *)a, 8); return v; }
  default: { u64 v = 0; memcpy(&v, (void *)a, n); return v; }
  }
}
Expr * Engine::loadByte(u64 a)
{
  Expr * e = symGet(a);
  return e ? e : mkC(*(u8 *)a, 8);
}
Val Engine::loadConc(u64 a, unsigned w)
{
  unsigned n = (w + 7) / 8;
  if (w <= 64 && !maybeSym(a, n)) return Val{ rd(a, n) & mask64(w), nullptr };
  if (w <= 64 && !hasSym(a, n)) return Val{ rd(a, n) & mask64(w), nullptr };
  Expr * r = loadByte(a + n - 1);
  for (int i = (int)n - 2; i >= 0; i--) r = mkConcat(r, loadByte(a + i));
  r = mkExtract(r, 0, w);
  if (w > 64) return Val{ 0, r };
  return fromE(r);
}
void Engine::storeConc(u64 a, Val v, unsigned w)
{
  unsigned n = (w + 7) / 8;
  if (!v.e)
  {
    if (maybeSym(a, n)) symClear(a, n);
    switch (n)
    {
    case 1: *(u8 *)a = (u8)v.c; break;
    case 2: { u16 x = (u16)v.c; memcpy((void *)a, &x, 2); break; }
    case 4: { u32 x = (u32)v.c; memcpy((void *)a, &x, 4); break; }
    case 8: memcpy((void *)a, &v.c, 8); break;
    default: memcpy((void *)a, &v.c, n);
    }
    return;
  }
  Expr * e = mkZExt(v.e, n * 8);
  for (unsigned i = 0; i < n; i++)
  {
    Expr * b = mkExtract(e, i * 8, 8);
    if (isC(b))
    {
      symSet(a + i, nullptr);
      *(u8 *)(a + i) = (u8)b->val;
    }
    else symSet(a + i, b);
  }
}

static bool iteLeaves(Expr * e, std::vector<u64> & out, int & budget)
{
  if (--budget < 0) return false;
  if (isC(e)) { out.push_back((u64)e->val); return true; }
  if (e->k == K::Ite) return iteLeaves(e->b, out, budget) && iteLeaves(e->c, out, budget);
  if (e->k == K::Add && isC(e->b) && e->a->k == K::Ite)
  {
    std::vector<u64> t;
    if (!iteLeaves(e->a, t, budget)) return false;
    for (auto x : t) out.push_back(x + (u64)e->b->val);
    return true;
  }
  return false;
}

// candidates are an over-approximation: one outside the heap that is not even mapped is kept only if it is possible
void Engine::dropUnmapped(Expr * e, std::vector<u64> & out)
{
  std::vector<u64> r;
  for (u64 a : out)
  {
    if (!inHeap(a) && a >= 65536 && !(a >= CODE_LO && a < CODE_HI) && msync((void *)(a & ~4095ull), 1, MS_ASYNC) != 0)
    {
      std::vector<u128> m;
      if (checkSat(mkEq(e, mkC(a, 64)), m) == 0) continue;
    }
    r.push_back(a);
  }
  out = r;
}

void Engine::resolveAddrs(Expr * e, std::vector<u64> & out)
{
  sh->resolve++;
  int budget = 400;
  if (iteLeaves(e, out, budget))
  {
    std::sort(out.begin(), out.end());
    out.erase(std::unique(out.begin(), out.end()), out.end());
    dropUnmapped(e, out);
    return;
  }
  out.clear();
  u64 base = 0;
  Expr * x = e;
  if (e->k == K::Add && isC(e->b)) { base = (u64)e->b->val; x = e->a; }
  u64 unk = ~(u64)(x->kz | x->ko);
  unsigned nb = __builtin_popcountll(unk);
  if (nb <= 9)
  {
    for (u64 i = 0; i < (1ull << nb); i++)
    {
      u64 v = (u64)x->ko;
      u64 t = i;
      for (unsigned b = 0; b < 64; b++)
        if ((unk >> b) & 1)
        {
          if (t & 1) v |= 1ull << b;
          t >>= 1;
        }
      out.push_back(base + v);
    }
    dropUnmapped(e, out);
    return;
  }
  // solver enumeration
  Expr * block = mkTrue();
  for (int i = 0; i < 600; i++)
  {
    std::vector<u128> m;
    int r = checkSat(block, m);
    if (r == 0) return;
    if (r < 0) unsupported("solver timeout while resolving a symbolic address");
    epoch++;
    u64 v = (u64)evalExpr(e, m, epoch);
    epoch++;
    out.push_back(v);
    block = mkAnd(block, mkNot(mkEq(e, mkC(v, 64))));
  }
  unsupported("symbolic address with too many targets: " + exprStr(e, 3));
}

void Engine::load(Val & out, Val addr, unsigned w)
{
  unsigned n = (w + 7) / 8;
  if (!addr.e)
  {
    checkAccess(addr.c, n, false);
    out = loadConc(addr.c, w);
    return;
  }
  std::vector<u64> as;
  resolveAddrs(addr.e, as);
  std::vector<u64> good;
  for (u64 a : as)
  {
    if (accessOk(a, n)) { good.push_back(a); continue; }
    Expr * c = mkEq(addr.e, mkC(a, 64));
    if (decide(c)) checkAccess(a, n, false);
  }
  if (good.empty()) unsupported("symbolic load without targets");
  if (good.size() == 1) { out = loadConc(good[0], w); return; }
  Expr * r = toE(loadConc(good.back(), w), w);
  for (int i = (int)good.size() - 2; i >= 0; i--)
    r = mkIte(mkEq(addr.e, mkC(good[i], 64)), toE(loadConc(good[i], w), w), r);
  out = fromE(r);
}
void Engine::store(Val addr, Val v, unsigned w)
{
  unsigned n = (w + 7) / 8;
  if (!addr.e)
  {
    checkAccess(addr.c, n, true);
    storeConc(addr.c, v, w);
    return;
  }
  std::vector<u64> as;
  resolveAddrs(addr.e, as);
  std::vector<u64> good;
  for (u64 a : as)
  {
    if (accessOk(a, n)) { good.push_back(a); continue; }
    if (decide(mkEq(addr.e, mkC(a, 64)))) checkAccess(a, n, true);
  }
  if (good.size() == 1) { storeConc(good[0], v, w); return; }
  Expr * nv = toE(v, w);
  std::vector<Expr *> res;
  for (u64 a : good) res.push_back(mkIte(mkEq(addr.e, mkC(a, 64)), nv, toE(loadConc(a, w), w)));
  // overlapping candidate targets are written bytewise in sequence; distinct addresses of one access width
  std::sort(good.begin(), good.end());
  for (size_t i = 1; i < good.size(); i++)
    if (good[i] - good[i - 1] < n)
    {
      // overlapping: fork on the address instead
      u64 a = concretize(addr, 64);
      checkAccess(a, n, true);
      storeConc(a, v, w);
      return;
    }
  for (u64 a : good) storeConc(a, fromE(mkIte(mkEq(addr.e, mkC(a, 64)), nv, toE(loadConc(a, w), w))), w);
}
void Engine::concretizeMem(u64 a, u64 n)
{
  for (u64 i = 0; i < n; i++)
    if (Expr * e = symGet(a + i))
    {
      u64 v = concretize(Val{ 0, e }, 8);
      symSet(a + i, nullptr);
      *(u8 *)(a + i) = (u8)v;
      sh->natConc++;
    }
}
std::string Engine::cstr(u64 p)
{
  std::string s;
  for (;; p++)
  {
    if (!accessOk(p, 1)) checkAccess(p, 1, false);
    u8 c = *(u8 *)p;
    if (Expr * e = symGet(p)) c = (u8)concretize(Val{ 0, e }, 8);
    if (!c) return s;
    s += (char)c;
  }
}

// ---------------------------------------------------------------- solver
static Z3_context zctx;
static std::unordered_map<u64, std::pair<int, std::vector<std::pair<u32, u128>>>> qcache;
static std::vector<u32> ufParent;
static std::unordered_map<u32, std::vector<Expr *>> groups;
static u32 ufFind(u32 x)
{
  while (ufParent[x] != x) { ufParent[x] = ufParent[ufParent[x]]; x = ufParent[x]; }
  return x;
}
void Engine::addPC(Expr * c)
{
  if (isC(c)) return;
  if (c->k == K::And && c->w == 1)
  {
    addPC(c->a);
    addPC(c->b);
    return;
  }
  pc.push_back(c);
  auto & v = varsOf(c);
  if (v.empty()) return;
  u32 r = ufFind(v[0]);
  for (u32 x : v)
  {
    u32 q = ufFind(x);
    if (q == r) continue;
    auto & gr = groups[r];
    auto it = groups.find(q);
    if (it != groups.end())
    {
      auto tmp = std::move(it->second);
      groups.erase(it);
      auto & gr2 = groups[r];
      gr2.insert(gr2.end(), tmp.begin(), tmp.end());
    }
    (void)gr;
    ufParent[q] = r;
  }
  auto & g = groups[r];
  if (std::find(g.begin(), g.end(), c) == g.end()) g.push_back(c);
}

// 1 sat, 0 unsat, -1 unknown
int Engine::checkSat(Expr * extra, std::vector<u128> & m)
{
  if (isC(extra))
  {
    if (!extra->val) return 0;
    m = model;
    return 1;
  }
  sh->queries++;
  std::vector<Expr *> cs;
  std::set<u32> roots;
  for (u32 v : varsOf(extra)) roots.insert(ufFind(v));
  for (u32 r : roots)
  {
    auto it = groups.find(r);
    if (it != groups.end()) cs.insert(cs.end(), it->second.begin(), it->second.end());
  }
  std::sort(cs.begin(), cs.end(), [](Expr * a, Expr * b) { return a->id < b->id; });
  u64 h = Pool::mix(77, extra->hash);
  u64 h2 = extra->hash * 31;
  for (auto c : cs) { h = Pool::mix(h, c->hash); h2 = h2 * 1000003 + c->hash; }
  h = Pool::mix(h, h2);
  auto it = qcache.find(h);
  if (it != qcache.end())
  {
    sh->cacheHits++;
    if (it->second.first == 1)
    {
      m = model;
      for (auto & p : it->second.second) m[p.first] = p.second;
    }
    return it->second.first;
  }
  u64 t0 = nowUs();
  // small queries: plain SMT core; otherwise the bit-vector tactic
  Z3_solver s = nullptr;
  Z3_params p = nullptr;
  Z3_lbool r = Z3_L_UNDEF;
  bool hard = extra->hard;
  for (auto c : cs) hard |= c->hard;
  for (int round = hard; round < 2 && r == Z3_L_UNDEF; round++)
  {
    if (s)
    {
      Z3_params_dec_ref(zctx, p);
      Z3_solver_dec_ref(zctx, s);
    }
    s = round == 0 ? Z3_mk_simple_solver(zctx) : Z3_mk_solver_for_logic(zctx, Z3_mk_string_symbol(zctx, "QF_BV"));
    Z3_solver_inc_ref(zctx, s);
    p = Z3_mk_params(zctx);
    Z3_params_inc_ref(zctx, p);
    if (round == 0) Z3_params_set_uint(zctx, p, Z3_mk_string_symbol(zctx, "rlimit"), 200000);
    else Z3_params_set_uint(zctx, p, Z3_mk_string_symbol(zctx, "timeout"), queryTimeoutMs);
    Z3_solver_set_params(zctx, s, p);
    for (auto c : cs) Z3_solver_assert(zctx, s, toZ3Bool(zctx, c));
    Z3_solver_assert(zctx, s, toZ3Bool(zctx, extra));
    r = Z3_solver_check(zctx, s);
  }
  int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  std::vector<std::pair<u32, u128>> asg;
  if (res == 1)
  {
    sh->sat++;
    Z3_model zm = Z3_solver_get_model(zctx, s);
    Z3_model_inc_ref(zctx, zm);
    std::set<u32> vs;
    for (u32 v : varsOf(extra)) vs.insert(v);
    for (auto c : cs) for (u32 v : varsOf(c)) vs.insert(v);
    m = model;
    for (u32 v : vs)
    {
      Expr * ve = mkVar(v, vars[v].w);
      Z3_ast val;
      u128 x = 0;
      if (Z3_model_eval(zctx, zm, toZ3BV(zctx, ve), true, &val))
      {
        Z3_inc_ref(zctx, val);
        if (vars[v].w <= 64)
        {
          uint64_t u = 0;
          Z3_get_numeral_uint64(zctx, val, &u);
          x = u;
        }
        else
        {
          const char * sn = Z3_get_numeral_string(zctx, val);
          for (; *sn; sn++) x = x * 10 + (*sn - '0');
        }
        Z3_dec_ref(zctx, val);
      }
      m[v] = x;
      asg.push_back({ v, x });
    }
    Z3_model_dec_ref(zctx, zm);
    // self check of the translation: the model must satisfy the constraints in our own semantics
    epoch++;
    bool ok = evalExpr(extra, m, epoch) == 1;
    for (auto c : cs) ok = ok && evalExpr(c, m, epoch) == 1;
    epoch++;
    if (!ok) unsupported("solver model does not satisfy the constraints (encoding error)");
  }
  else if (res == 0) sh->unsat++;
  else sh->unknown++;
  Z3_params_dec_ref(zctx, p);
  Z3_solver_dec_ref(zctx, s);
  u64 dt = nowUs() - t0;
  sh->solverUs += dt;
  if (dt > sh->maxQueryUs) sh->maxQueryUs = dt;
  if (res >= 0) qcache[h] = { res, asg };
  return res;
}

static void checkStop()
{
  if (E->sh->stop) E->finish();
}

bool Engine::decide(Expr * c)
{
  if (isC(c)) return c->val != 0;
  sh->decisions++;
  checkStop();
  bool v = evalM(c) != 0;
  Expr * other = v ? mkNot(c) : c;
  std::vector<u128> m;
  int r = checkSat(other, m);
  if (r == 0) return v;
  if (r < 0) unsupported("solver timeout on a branch condition");
  Expr * mine = v ? c : mkNot(c);
  if (forkState())
  {
    setModel(m);
    addPC(other);
    return !v;
  }
  addPC(mine);
  return v;
}
void Engine::assume(Expr * c)
{
  if (isC(c))
  {
    if (!c->val) endPath("infeasible");
    return;
  }
  if (evalM(c))
  {
    addPC(c);
    return;
  }
  std::vector<u128> m;
  int r = checkSat(c, m);
  if (r == 0) endPath("infeasible");
  if (r < 0) unsupported("solver timeout on an assumption");
  setModel(m);
  addPC(c);
}
u64 Engine::concretize(Val v, unsigned w)
{
  if (!v.e) return v.c;
  if (v.e->k == K::Const) return (u64)v.e->val;
  for (;;)
  {
    u64 x = (u64)evalM(v.e);
    if (decide(mkEq(v.e, mkC(x, v.e->w)))) return x;
  }
}
Expr * Engine::freshVar(unsigned w, const char * name)
{
  u32 i = vars.size();
  vars.push_back(VarInfo{ name, w, false, 0 });
  model.push_back(0);
  ufParent.push_back(i);
  return mkVar(i, w);
}
u64 Engine::choose(u64 n, const char * name)
{
  if (n == 0) unsupported("choose(0)");
  u32 i = vars.size();
  if (concreteMode)
  {
    u64 v = replayPos < replayVals.size() ? replayVals[replayPos++] : 0;
    vars.push_back(VarInfo{ name, 64, true, v % n });
    model.push_back(v % n);
    ufParent.push_back(i);
    return v % n;
  }
  vars.push_back(VarInfo{ name, 64, true, 0 });
  model.push_back(0);
  ufParent.push_back(i);
  sh->choices++;
  u64 lo = 0, hi = n; // this process explores [lo,hi)
  while (hi - lo > 1)
  {
    checkStop();
    u64 mid = (lo + hi) / 2;
    if (forkState()) lo = mid;
    else hi = mid;
  }
  vars[i].cval = lo;
  model[i] = lo;
  return lo;
}

// ---------------------------------------------------------------- processes
static void lockSh() { if (pthread_mutex_lock(&E->sh->mx) == EOWNERDEAD) pthread_mutex_consistent(&E->sh->mx); }
static void unlockSh() { pthread_mutex_unlock(&E->sh->mx); }
static void releaseToken()
{
  auto sh = E->sh;
  lockSh();
  if (sh->nwait > 0)
  {
    int i = sh->stack[--sh->nwait];
    sem_post(&sh->w[i].sem);
  }
  else sh->tokens++;
  unlockSh();
}
static void lostWorker(int status)
{
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return;
  auto sh = E->sh;
  lockSh();
  if (sh->nerr < 16 && !sh->stop)
    snprintf(sh->err[sh->nerr++], 2000, "worker process ended abnormally (status 0x%x)", status);
  unlockSh();
  sh->errors++;
  sh->live--;
  releaseToken();
}
static void reap()
{
  int st;
  while (waitpid(-1, &st, WNOHANG) > 0) lostWorker(st);
}
static u64 flushedInsts = 0;
static void flushCounters()
{
  E->sh->insts += E->instCount - flushedInsts;
  flushedInsts = E->instCount;
}
bool Engine::forkState()
{
  if (concreteMode) unsupported("fork in replay mode");
  reap();
  flushCounters();
  sh->live++;
  sh->forks++;
  pid_t p = fork();
  if (p < 0)
  {
    sh->live--;
    unsupported("fork failed");
  }
  if (p == 0)
  {
    lockSh();
    if (sh->tokens > 0)
    {
      sh->tokens--;
      unlockSh();
    }
    else
    {
      if (sh->nfree == 0) { unlockSh(); fprintf(stderr, "symx: too many waiters\n"); _exit(3); }
      int i = sh->freeList[--sh->nfree];
      sh->stack[sh->nwait++] = i;
      unlockSh();
      while (sem_wait(&sh->w[i].sem) != 0) {}
      lockSh();
      sh->freeList[sh->nfree++] = i;
      unlockSh();
      if (sh->stop) finish();
    }
    return true;
  }
  return false;
}
void Engine::finish()
{
  flushCounters();
  reap();
  releaseToken();
  sh->live--;
  _exit(0);
}
static std::vector<Expr *> obsExprs; // pending symbolic observations: folded at path end
static std::vector<std::pair<u64, Expr *>> observations;

static u64 foldObs()
{
  u64 h = 1469598103934665603ull;
  for (auto & o : observations)
  {
    u64 v = o.second ? (u64)E->evalM(o.second) : o.first;
    h = (h ^ v) * 1099511628211ull;
  }
  return h;
}

void Engine::endPath(const char * why)
{
  if (!strcmp(why, "infeasible")) sh->infeasible++;
  else
  {
    u64 n = ++sh->paths;
    // deterministic-ish reservoir of path samples
    u64 h = n * 0x9e3779b97f4a7c15ull >> 33;
    lockSh();
    int slot = -1;
    if (sh->nsample < MAXSAMPLE) slot = sh->nsample++;
    else if (h % n < MAXSAMPLE) slot = h % MAXSAMPLE;
    if (slot >= 0)
    {
      std::string s = inputsStr();
      if (s.size() < sizeof(sh->sample[0].inputs))
      {
        memcpy(sh->sample[slot].inputs, s.c_str(), s.size() + 1);
        sh->sample[slot].obs = foldObs();
      }
      else sh->sample[slot].inputs[0] = 0;
    }
    unlockSh();
    if (concreteMode)
    {
      printf("OBS %016llx\n", (unsigned long long)foldObs());
      fflush(stdout);
    }
    if (n >= maxPaths) sh->stop = 1;
  }
  finish();
}
std::string Engine::inputsStr()
{
  std::string s;
  epoch++;
  for (size_t i = 0; i < vars.size(); i++)
  {
    char b[200];
    u128 v = vars[i].choice ? vars[i].cval : model[i];
    std::string nm = vars[i].name; // one word per name
    for (char & c : nm) if (c == ' ') c = '_';
    snprintf(b, sizeof b, "%s %u %llx\n", nm.c_str(), vars[i].choice ? 0 : vars[i].w, (unsigned long long)v);
    s += b;
  }
  return s;
}
std::string Engine::backtrace()
{
  std::string s;
  int n = 0;
  for (int i = (int)frames.size() - 1; i >= 0 && n < 14; i--, n++)
  {
    int st;
    char * d = abi::__cxa_demangle(frames[i].f->name.c_str(), 0, 0, &st);
    std::string nm = d ? d : frames[i].f->name;
    if (nm.size() > 180) nm = nm.substr(0, 180) + "...";
    s += "  " + nm + "\n";
    free(d);
  }
  return s;
}
void Engine::violation(const char * kind, const std::string & msg)
{
  lockSh();
  if (sh->nviol < MAXVIOL)
  {
    auto & v = sh->viol[sh->nviol];
    snprintf(v.kind, sizeof v.kind, "%s", kind);
    snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
    snprintf(v.bt, sizeof v.bt, "%s", backtrace().c_str());
    std::string in = inputsStr();
    snprintf(v.inputs, sizeof v.inputs, "%s", in.c_str());
    sh->nviol++;
  }
  unlockSh();
}
static int g_maxViol = 1;
void Engine::violationEnd(const char * kind, const std::string & msg)
{
  violation(kind, msg);
  sh->paths++;
  if (sh->nviol >= g_maxViol) sh->stop = 1;
  finish();
}
void Engine::unsupported(const std::string & msg)
{
  lockSh();
  if (sh->nerr < 16)
    snprintf(sh->err[sh->nerr++], 2000, "%s\n%s", msg.c_str(), backtrace().c_str());
  unlockSh();
  sh->errors++;
  finish();
}

// ---------------------------------------------------------------- builtins
static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 dbits(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static float asF(u64 v) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
static u64 fbits(float f) { u32 v; memcpy(&v, &f, 4); return v; }

static void copyMem(Engine & en, u64 d, u64 s, u64 n)
{
  if (!n) return;
  en.checkAccess(s, n, false);
  en.checkAccess(d, n, true);
  bool ss = false, ds = false;
  for (u64 a = s & ~4095ull; a < s + n && !ss; a += 4096) ss = symFilter[(a >> 12) & 0xffff];
  if (!ss) ss = symFilter[((s + n - 1) >> 12) & 0xffff];
  for (u64 a = d & ~4095ull; a < d + n && !ds; a += 4096) ds = symFilter[(a >> 12) & 0xffff];
  if (!ss && !ds) { memmove((void *)d, (void *)s, n); return; }
  std::vector<Expr *> tmp(n);
  for (u64 i = 0; i < n; i++) tmp[i] = symGet(s + i);
  memmove((void *)d, (void *)s, n);
  for (u64 i = 0; i < n; i++) symSet(d + i, tmp[i]);
}

#define BARGS Engine &en, CallInfo &ci, Val *R, Val *args, u32 nargs, Val *ret
static u64 A(Engine & en, Val v) { return en.concPtr(v); }

static void b_memcpy(BARGS)
{
  u64 d = A(en, args[0]), s = A(en, args[1]), n = A(en, args[2]);
  copyMem(en, d, s, n);
  if (ci.nret) ret[0] = Val{ d, nullptr };
}
static void b_memset(BARGS)
{
  u64 d = A(en, args[0]), n = A(en, args[2]);
  if (n)
  {
    en.checkAccess(d, n, true);
    if (args[1].e)
    {
      Expr * b = mkExtract(args[1].e, 0, 8);
      for (u64 i = 0; i < n; i++) en.storeConc(d + i, Engine::fromE(b), 8);
    }
    else
    {
      if (!symPages.empty()) symClear(d, n);
      memset((void *)d, (int)args[1].c, n);
    }
  }
  if (ci.nret) ret[0] = Val{ d, nullptr };
}
static Expr * cmpExpr(Engine & en, u64 a, u64 b, u64 n)
{
  // lexicographic comparison result, -1 / 0 / 1 (32 bit)
  Expr * r = mkC(0, 32);
  for (i64 i = (i64)n - 1; i >= 0; i--)
  {
    Expr * x = en.loadByte(a + i), * y = en.loadByte(b + i);
    Expr * lt = mkCmp(K::Ult, x, y);
    r = mkIte(mkEq(x, y), r, mkIte(lt, mkC(~(u128)0, 32), mkC(1, 32)));
  }
  return r;
}
static void b_memcmp(BARGS)
{
  u64 a = A(en, args[0]), b = A(en, args[1]), n = A(en, args[2]);
  if (!n) { ret[0] = Val{ 0, nullptr }; return; }
  en.checkAccess(a, n, false);
  en.checkAccess(b, n, false);
  if (symPages.empty() || (!en.hasSym(a, n) && !en.hasSym(b, n)))
  {
    int r = memcmp((void *)a, (void *)b, n);
    ret[0] = Val{ (u64)(u32)(r < 0 ? -1 : r > 0), nullptr };
    return;
  }
  if (ci.name == "bcmp")
  {
    Expr * ne = mkFalse();
    for (u64 i = 0; i < n; i++) ne = mkOr(ne, mkNot(mkEq(en.loadByte(a + i), en.loadByte(b + i))));
    ret[0] = Engine::fromE(mkZExt(ne, 32));
    return;
  }
  ret[0] = Engine::fromE(cmpExpr(en, a, b, n));
}
static u64 symStrlen(Engine & en, u64 p, u64 mx = ~0ull)
{
  u64 n = 0;
  for (; n < mx; n++)
  {
    en.checkAccess(p + n, 1, false);
    Expr * e = symGet(p + n);
    if (!e) { if (!*(u8 *)(p + n)) break; }
    else if (en.decide(mkEq(e, mkC(0, 8)))) break;
  }
  return n;
}
static void b_strlen(BARGS) { ret[0] = Val{ symStrlen(en, A(en, args[0])), nullptr }; }
static void b_strcmp(BARGS)
{
  u64 a = A(en, args[0]), b = A(en, args[1]);
  u64 mx = ci.name == "strncmp" ? A(en, args[2]) : ~0ull;
  for (u64 i = 0; i < mx; i++)
  {
    Expr * x = en.loadByte(a + i), * y = en.loadByte(b + i);
    if (!en.decide(mkEq(x, y)))
    {
      ret[0] = Engine::fromE(mkIte(mkCmp(K::Ult, x, y), mkC(~(u128)0, 32), mkC(1, 32)));
      return;
    }
    if (en.decide(mkEq(x, mkC(0, 8)))) break;
  }
  ret[0] = Val{ 0, nullptr };
}
static void b_memchr(BARGS)
{
  u64 a = A(en, args[0]), n = A(en, args[2]);
  Expr * c = mkExtract(en.toE(args[1], 32), 0, 8);
  for (u64 i = 0; i < n; i++)
  {
    en.checkAccess(a + i, 1, false);
    if (en.decide(mkEq(en.loadByte(a + i), c))) { ret[0] = Val{ a + i, nullptr }; return; }
  }
  ret[0] = Val{ 0, nullptr };
}
static void b_new(BARGS)
{
  u64 n = A(en, args[0]);
  u64 al = ci.name.find("St11align_val_t") != std::string::npos ? A(en, args[1]) : 16;
  if (n > (1ull << 32)) { 
    void * fn = dlsym(RTLD_DEFAULT, "_ZSt17__throw_bad_allocv");
    CallInfo t; en.callNative(t, fn, nullptr, 0, nullptr); return; }
  ret[0] = Val{ en.heapAlloc(n, al), nullptr };
}
static void b_delete(BARGS) { en.heapFree(A(en, args[0]), "operator delete"); }
static void b_malloc(BARGS) { ret[0] = Val{ (u64)malloc(A(en, args[0])), nullptr }; }
static void b_free(BARGS)
{
  u64 p = A(en, args[0]);
  if (inHeap(p)) en.heapFree(p, "free");
  else free((void *)p);
}
static void b_nop(BARGS)
{
  for (u32 i = 0; i < ci.nret; i++) ret[i] = Val{ 0, nullptr };
}
static void b_assert_fail(BARGS)
{
  std::string m = en.cstr(A(en, args[0])) + " at " + en.cstr(A(en, args[1])) + ":" + std::to_string(A(en, args[2]));
  en.violationEnd("assert", "assertion failed: " + m);
}
static void b_abort(BARGS) { en.violationEnd("abort", ci.name + " called"); }
static void b_exit(BARGS) { en.violationEnd("exit", "exit called"); }

// exceptions
static std::unordered_map<u64, Exc> excByPtr; // adjusted pointer -> exception
static std::vector<u64> caught;
static void b_alloc_exc(BARGS) { ret[0] = Val{ en.heapAlloc(A(en, args[0])), nullptr }; }
static void b_throw(BARGS) { en.throwExc(A(en, args[0]), A(en, args[1])); }
static void b_begin_catch(BARGS)
{
  u64 p = A(en, args[0]);
  caught.push_back(p);
  ret[0] = Val{ p, nullptr };
}
static void b_end_catch(BARGS)
{
  if (!caught.empty()) caught.pop_back();
}
static void b_rethrow(BARGS)
{
  if (caught.empty()) en.violationEnd("abort", "rethrow without exception");
  auto x = excByPtr[caught.back()];
  en.throwExc(x.obj, x.ti);
}
static void b_typeid_for(BARGS) { ret[0] = Val{ (u64)(u32)((A(en, args[0]) >> 4) & 0x7fffffff), nullptr }; }
static void b_guard_acquire(BARGS)
{
  u64 p = A(en, args[0]);
  ret[0] = Val{ *(u8 *)p ? 0ull : 1ull, nullptr };
}
static void b_guard_release(BARGS) { *(u8 *)A(en, args[0]) = 1; }

// symx API
static void s_make(BARGS)
{
  u64 p = A(en, args[0]), n = A(en, args[1]);
  std::string nm = en.cstr(A(en, args[2]));
  en.checkAccess(p, n, true);
  for (u64 i = 0; i < n; i++)
  {
    if (en.concreteMode)
    {
      u64 v = en.replayPos < en.replayVals.size() ? en.replayVals[en.replayPos++] : 0;
      en.vars.push_back(VarInfo{ nm, 8, false, v });
      en.model.push_back(v);
      ufParent.push_back(0);
      *(u8 *)(p + i) = (u8)v;
    }
    else
      symSet(p + i, en.freshVar(8, nm.c_str()));
  }
}
static void s_var(BARGS)
{
  u64 w = A(en, args[0]);
  std::string nm = en.cstr(A(en, args[1]));
  if (en.concreteMode)
  {
    u64 v = (en.replayPos < en.replayVals.size() ? en.replayVals[en.replayPos++] : 0) & mask64(w);
    en.vars.push_back(VarInfo{ nm, (unsigned)w, false, v });
    en.model.push_back(v);
    ufParent.push_back(0);
    ret[0] = Val{ v, nullptr };
    return;
  }
  ret[0] = Engine::fromE(mkZExt(en.freshVar(w, nm.c_str()), 64));
}
static void s_choose(BARGS) { ret[0] = Val{ en.choose(A(en, args[0]), en.cstr(A(en, args[1])).c_str()), nullptr }; }
static void s_assume(BARGS)
{
  Expr * c = mkExtract(en.toE(args[0], ci.argw[0] & 127), 0, 1);
  en.assume(c);
}
static void s_assert(BARGS)
{
  Expr * c = mkExtract(en.toE(args[0], ci.argw[0] & 127), 0, 1);
  en.sh->asserts++;
  if (isC(c))
  {
    en.sh->assertsConst++;
    if (!c->val) en.violationEnd("property", en.cstr(A(en, args[1])));
    return;
  }
  en.sh->assertQ++;
  Expr * n = mkNot(c);
  if (en.evalM(n)) en.violationEnd("property", en.cstr(A(en, args[1])));
  std::vector<u128> m;
  int r = en.checkSat(n, m);
  if (r < 0) en.unsupported("solver timeout on assertion: " + en.cstr(A(en, args[1])));
  if (r == 1)
  {
    en.setModel(m);
    en.violationEnd("property", en.cstr(A(en, args[1])));
  }
}
static void s_concretize(BARGS) { ret[0] = Val{ en.concretize(args[0], 64), nullptr }; }
static void s_is_sym(BARGS) { ret[0] = Val{ args[0].e ? 1ull : 0ull, nullptr }; }
static void s_reach(BARGS)
{
  std::string n = en.cstr(A(en, args[0]));
  auto sh = en.sh;
  for (int i = 0; i < sh->nreach; i++)
    if (!strcmp(sh->reach[i].name, n.c_str())) { sh->reach[i].n++; return; }
  lockSh();
  int i;
  for (i = 0; i < sh->nreach; i++)
    if (!strcmp(sh->reach[i].name, n.c_str())) break;
  if (i == sh->nreach && sh->nreach < MAXREACH)
  {
    snprintf(sh->reach[i].name, 64, "%s", n.c_str());
    sh->nreach++;
  }
  if (i < MAXREACH) sh->reach[i].n++;
  unlockSh();
}
static void s_ite(BARGS)
{
  Expr * c = mkExtract(en.toE(args[0], ci.argw[0] & 127), 0, 1);
  ret[0] = Engine::fromE(mkIte(c, en.toE(args[1], 64), en.toE(args[2], 64)));
}
static void s_end(BARGS) { en.endPath("end"); }
static void s_reject(BARGS) { en.endPath("infeasible"); }
static bool g_verbose = false;
static void s_print(BARGS)
{
  if (!g_verbose) return;
  std::string n = en.cstr(A(en, args[0]));
  fprintf(stderr, "[%d] %s %s\n", getpid(), n.c_str(), args[1].e ? exprStr(args[1].e, 5).c_str() : std::to_string(args[1].c).c_str());
}
static void s_observe(BARGS) { observations.push_back({ args[0].c, args[0].e }); }
static void s_arg(BARGS)
{
  u64 i = A(en, args[0]);
  ret[0] = Val{ i < en.hargs.size() ? (u64)strtoll(en.hargs[i].c_str(), 0, 0) : 0, nullptr };
}
static void s_symbolic_engine(BARGS) { ret[0] = Val{ 1, nullptr }; }
static void s_fail(BARGS) { en.sh->asserts++; en.violationEnd("property", en.cstr(A(en, args[0]))); }

static void s_error(BARGS) { en.unsupported("harness: " + en.cstr(A(en, args[0]))); }

static const std::unordered_map<std::string, Builtin> & builtins()
{
  static std::unordered_map<std::string, Builtin> m = {
    { "memcpy", b_memcpy }, { "memmove", b_memcpy }, { "memset", b_memset }, { "memcmp", b_memcmp }, { "bcmp", b_memcmp },
    { "strlen", b_strlen }, { "strcmp", b_strcmp }, { "strncmp", b_strcmp }, { "memchr", b_memchr },
    { "_Znwm", b_new }, { "_Znam", b_new }, { "_ZnwmRKSt9nothrow_t", b_new }, { "_ZnwmSt11align_val_t", b_new },
    { "_ZnamSt11align_val_t", b_new }, { "_ZnamRKSt9nothrow_t", b_new },
    { "_ZdlPv", b_delete }, { "_ZdaPv", b_delete }, { "_ZdlPvm", b_delete }, { "_ZdaPvm", b_delete },
    { "_ZdlPvSt11align_val_t", b_delete }, { "_ZdlPvmSt11align_val_t", b_delete }, { "_ZdaPvSt11align_val_t", b_delete },
    { "_ZdlPvRKSt9nothrow_t", b_delete }, { "_ZdaPvRKSt9nothrow_t", b_delete },
    { "malloc", b_malloc }, { "free", b_free },
    { "__cxa_atexit", b_nop }, { "atexit", b_nop }, { "__cxa_thread_atexit", b_nop },
    { "__assert_fail", b_assert_fail }, { "abort", b_abort }, { "_ZSt9terminatev", b_abort }, { "__cxa_pure_virtual", b_abort },
    { "__clang_call_terminate", b_abort }, { "llvm.trap", b_abort }, { "exit", b_exit }, { "_exit", b_exit },
    { "__cxa_allocate_exception", b_alloc_exc }, { "__cxa_free_exception", b_nop }, { "__cxa_throw", b_throw },
    { "__cxa_begin_catch", b_begin_catch }, { "__cxa_end_catch", b_end_catch }, { "__cxa_rethrow", b_rethrow },
    { "llvm.eh.typeid.for", b_typeid_for }, { "llvm.eh.typeid.for.p0", b_typeid_for },
    { "__cxa_guard_acquire", b_guard_acquire }, { "__cxa_guard_release", b_guard_release }, { "__cxa_guard_abort", b_nop },
    { "symx_make", s_make }, { "symx_var", s_var }, { "symx_choose", s_choose }, { "symx_assume", s_assume },
    { "symx_assert", s_assert }, { "symx_concretize", s_concretize }, { "symx_is_symbolic", s_is_sym }, { "symx_reach", s_reach },
    { "symx_ite", s_ite }, { "symx_end", s_end }, { "symx_reject", s_reject }, { "symx_print", s_print },
    { "symx_observe", s_observe }, { "symx_arg", s_arg }, { "symx_engine", s_symbolic_engine }, { "symx_fail", s_fail }, { "symx_error", s_error },
  };
  return m;
}
Builtin findBuiltin(const std::string & name)
{
  auto & m = builtins();
  auto it = m.find(name);
  if (it != m.end()) return it->second;
  if (name.compare(0, 12, "llvm.memcpy.") == 0 || name.compare(0, 13, "llvm.memmove.") == 0) return b_memcpy;
  if (name.compare(0, 12, "llvm.memset.") == 0) return b_memset;
  return nullptr;
}

// natives that never look at payload bytes of the nodes they are handed
static bool nativeNoScan(const std::string & n)
{
  static const char * pre[] = { "_ZSt29_Rb_tree_insert_and_rebalance", "_ZSt28_Rb_tree_rebalance_for_erase", "_ZSt18_Rb_tree_increment",
    "_ZSt18_Rb_tree_decrement", "_ZNSt8__detail15_List_node_base", "__dynamic_cast", "_ZNKSt8__detail20_Prime_rehash_policy", "_ZNSt6chrono" };
  for (auto p : pre)
    if (n.compare(0, strlen(p), p) == 0) return true;
  return false;
}

struct R2 { u64 a, b; };
typedef R2 (*NFn)(u64, u64, u64, u64, u64, u64, double, double, double, double, double, double, double, double, u64, u64, u64, u64, u64,
    u64, u64, u64, ...);
typedef double (*NFnD)(u64, u64, u64, u64, u64, u64, double, double, double, double, double, double, double, double, u64, u64, u64, u64,
    u64, u64, u64, u64, ...);

void Engine::callNative(CallInfo & ci, void * fn, Val * args, u32 nargs, Val * ret)
{
  u64 iv[6] = { 0 }, st[8] = { 0 };
  double dv[8] = { 0 };
  unsigned ni = 0, nd = 0, ns = 0;
  bool scan = !nativeNoScan(ci.name);
  if (!ci.byval.empty()) unsupported("native call with byval argument: " + ci.name);
  for (u32 i = 0; i < nargs; i++)
  {
    u64 v = args[i].e ? concretize(args[i], ci.argw[i] & 127) : args[i].c;
    if (ci.argw[i] & 0x80)
    {
      if (nd < 8) memcpy(&dv[nd++], &v, 8);
      else unsupported("too many fp args");
    }
    else
    {
      if (scan && !symPages.empty() && inHeap(v))
      {
        // concretise symbolic bytes of the object handed to native code (all feasible values are explored)
        u8 * s = shadowOf(v);
        u64 n = 0;
        if (*s >= 1 && *s <= 16)
        {
          while (n < 4096 && s[n / 16] >= 1 && s[n / 16] <= 16) n += 16;
          if (n && hasSym(v, n - (v & 15))) concretizeMem(v, n - (v & 15));
        }
      }
      if (ni < 6) iv[ni++] = v;
      else if (ns < 8) st[ns++] = v;
      else unsupported("too many args: " + ci.name);
    }
  }
  u64 exObj = 0, exTi = 0;
  bool threw = false;
  R2 r{ 0, 0 };
  double dr = 0;
  bool fp = ci.nret && (ci.retw[0] & 0x80);
  try
  {
    if (fp)
      dr = ((NFnD)fn)(iv[0], iv[1], iv[2], iv[3], iv[4], iv[5], dv[0], dv[1], dv[2], dv[3], dv[4], dv[5], dv[6], dv[7], st[0], st[1], st[2],
          st[3], st[4], st[5], st[6], st[7]);
    else
      r = ((NFn)fn)(iv[0], iv[1], iv[2], iv[3], iv[4], iv[5], dv[0], dv[1], dv[2], dv[3], dv[4], dv[5], dv[6], dv[7], st[0], st[1], st[2],
          st[3], st[4], st[5], st[6], st[7]);
  }
  catch (...)
  {
    auto * t = abi::__cxa_current_exception_type();
    auto ep = new std::exception_ptr(std::current_exception());
    exObj = *(u64 *)ep;
    exTi = (u64)t;
    threw = true;
  }
  if (threw)
  {
    throwExc(exObj, exTi);
    return;
  }
  if (ci.nret)
  {
    if (fp)
    {
      u64 b = dbits(dr);
      ret[0] = Val{ (ci.retw[0] & 127) == 32 ? (b & 0xffffffff) : b, nullptr };
    }
    else
    {
      ret[0] = Val{ r.a & mask64(ci.retw[0] & 127), nullptr };
      if (ci.nret > 1) ret[1] = Val{ r.b & mask64(ci.retw[1] & 127), nullptr };
    }
  }
}

// ---------------------------------------------------------------- frames & control
void Engine::pushFrame(FnInfo * f, const Val * args, u32 nargs, const CallInfo * ci)
{
  if (!f->decoded) decode(f);
  if (!f->entered)
  {
    f->entered = true;
    sh->entered[f->id] = 1;
  }
  if (frames.size() > 20000 || regTop + f->nslots + 16 > regEnd) violationEnd("stack", "stack overflow (unbounded recursion)");
  Frame fr;
  fr.f = f;
  fr.R = regTop;
  fr.pc = 0;
  fr.sp = sp;
  regTop += f->nslots;
  memset((void *)fr.R, 0, sizeof(Val) * f->nslots);
  u32 n = std::min(nargs, f->nargs);
  for (u32 i = 0; i < n; i++) fr.R[i] = args[i];
  frames.push_back(fr);
  if (ci && !ci->byval.empty())
    for (auto & b : ci->byval)
    {
      u64 p = (sp + 16 + 15) & ~15ull;
      u64 sz = (b.second + 15) & ~15ull;
      memset(shadowOf(p), 16, sz / 16);
      sp = p + sz;
      copyMem(*this, p, concPtr(args[b.first]), b.second);
      fr.R[b.first] = Val{ p, nullptr };
    }
}
void Engine::popFrame()
{
  Frame & fr = frames.back();
  if (sp != fr.sp)
  {
    if (!symPages.empty()) symClear(fr.sp, sp - fr.sp);
    memset(shadowOf(fr.sp), 0, (sp - fr.sp) / 16 + 1);
    sp = fr.sp;
  }
  regTop = fr.R;
  frames.pop_back();
}
void Engine::takeEdge(Frame & fr, u32 ei)
{
  FnInfo * f = fr.f;
  Edge & e = f->edges[ei];
  Val * R = fr.R;
  if (e.nmv)
  {
    Move * m = &f->moves[e.mv];
    if (e.nmv == 1)
      R[m->dst] = m->src >= 0 ? R[m->src] : f->consts[~m->src];
    else
    {
      Val tmp[64];
      std::vector<Val> big;
      Val * t = tmp;
      if (e.nmv > 64) { big.resize(e.nmv); t = big.data(); }
      for (u32 i = 0; i < e.nmv; i++) t[i] = m[i].src >= 0 ? R[m[i].src] : f->consts[~m[i].src];
      for (u32 i = 0; i < e.nmv; i++) R[m[i].dst] = t[i];
    }
  }
  fr.pc = f->blocks[e.toBlock].start;
}

static size_t g_baseDepth = 0;
void Engine::throwExc(u64 obj, u64 ti)
{
  auto thrown = (std::type_info *)ti;
  // find handler
  for (int i = (int)frames.size() - 1; i >= (int)g_baseDepth; i--)
  {
    Frame & fr = frames[i];
    Inst & in = fr.f->code[fr.pc];
    // the frame is at its call instruction (or RESUME)
    if (in.op != O_CALL) continue;
    CallInfo & ci = *fr.f->calls[in.x];
    if (!ci.invoke) continue;
    Edge & ed = fr.f->edges[ci.unwindEdge];
    Block & b = fr.f->blocks[ed.toBlock];
    // find LPAD in block
    u32 p = b.start;
    while (p < b.end && fr.f->code[p].op != O_LPAD) p++;
    if (p == b.end) continue;
    LpadInfo & lp = fr.f->lpads[fr.f->code[p].x];
    u64 adj = obj;
    u64 sel = 0;
    bool match = false;
    for (auto & c : lp.clauses)
    {
      if (c.first != 0) continue;
      if (c.second == 0) { match = true; sel = 0x7fffffff; break; }
      void * ptr = (void *)obj;
      if (((std::type_info *)c.second)->__do_catch(thrown, &ptr, 1))
      {
        match = true;
        adj = (u64)ptr;
        sel = (c.second >> 4) & 0x7fffffff;
        break;
      }
    }
    if (match || lp.cleanup)
    {
      // only unwind if somebody catches eventually; otherwise report as uncaught
      if (!match)
      {
        bool any = false;
        for (int j = i - 1; j >= (int)g_baseDepth && !any; j--)
        {
          Inst & jn = frames[j].f->code[frames[j].pc];
          if (jn.op != O_CALL) continue;
          CallInfo & cj = *frames[j].f->calls[jn.x];
          if (!cj.invoke) continue;
          Block & bj = frames[j].f->blocks[frames[j].f->edges[cj.unwindEdge].toBlock];
          u32 q = bj.start;
          while (q < bj.end && frames[j].f->code[q].op != O_LPAD) q++;
          if (q == bj.end) continue;
          for (auto & c : frames[j].f->lpads[frames[j].f->code[q].x].clauses)
          {
            void * ptr = (void *)obj;
            if (c.first == 0 && (c.second == 0 || ((std::type_info *)c.second)->__do_catch(thrown, &ptr, 1))) any = true;
          }
        }
        if (!any) break;
      }
      while ((int)frames.size() - 1 > i) popFrame();
      excByPtr[adj] = Exc{ obj, ti };
      Frame & f2 = frames[i];
      takeEdge(f2, ci.unwindEdge);
      Inst & lpi = f2.f->code[p];
      f2.R[lpi.d] = Val{ adj, nullptr };
      f2.R[lpi.d + 1] = Val{ sel, nullptr };
      return;
    }
  }
  std::string what;
  {
    void * ptr = (void *)obj;
    if (typeid(std::exception).__do_catch(thrown, &ptr, 1))
    {
      // runtime_error/logic_error layout: vptr, __cow_string pointer
      for (auto t : { &typeid(std::runtime_error), &typeid(std::logic_error) })
      {
        void * q = (void *)obj;
        if (t->__do_catch(thrown, &q, 1)) { const char * s = *(const char **)((u64)q + 8); if (s) what = s; }
      }
    }
  }
  int stt;
  char * d = abi::__cxa_demangle(thrown->name(), 0, 0, &stt);
  violationEnd("exception", std::string("uncaught exception ") + (d ? d : thrown->name()) + ": " + what.substr(0, 400));
}

void Engine::call(FnInfo * f, const std::vector<Val> & args, std::vector<Val> * ret)
{
  size_t depth = frames.size();
  size_t old = g_baseDepth;
  g_baseDepth = depth;
  pushFrame(f, args.data(), args.size(), nullptr);
  run(depth);
  g_baseDepth = old;
}

// ---------------------------------------------------------------- instruction semantics
Val Engine::binSym(K k, Val a, Val b, unsigned w)
{
  Expr * x = toE(a, w), * y = toE(b, w);
  Expr * r = mkBin(k, x, y);
  if (w > 64) return Val{ 0, r };
  return fromE(r);
}
static Expr * icmpE(unsigned pred, Expr * a, Expr * b)
{
  using namespace llvm;
  switch (pred)
  {
  case CmpInst::ICMP_EQ: return mkEq(a, b);
  case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
  case CmpInst::ICMP_ULT: return mkCmp(K::Ult, a, b);
  case CmpInst::ICMP_ULE: return mkCmp(K::Ule, a, b);
  case CmpInst::ICMP_UGT: return mkCmp(K::Ult, b, a);
  case CmpInst::ICMP_UGE: return mkCmp(K::Ule, b, a);
  case CmpInst::ICMP_SLT: return mkCmp(K::Slt, a, b);
  case CmpInst::ICMP_SLE: return mkCmp(K::Sle, a, b);
  case CmpInst::ICMP_SGT: return mkCmp(K::Slt, b, a);
  case CmpInst::ICMP_SGE: return mkCmp(K::Sle, b, a);
  }
  abort();
}
static bool icmpC(unsigned pred, u64 a, u64 b, unsigned w)
{
  using namespace llvm;
  switch (pred)
  {
  case CmpInst::ICMP_EQ: return a == b;
  case CmpInst::ICMP_NE: return a != b;
  case CmpInst::ICMP_ULT: return a < b;
  case CmpInst::ICMP_ULE: return a <= b;
  case CmpInst::ICMP_UGT: return a > b;
  case CmpInst::ICMP_UGE: return a >= b;
  case CmpInst::ICMP_SLT: return sx64(a, w) < sx64(b, w);
  case CmpInst::ICMP_SLE: return sx64(a, w) <= sx64(b, w);
  case CmpInst::ICMP_SGT: return sx64(a, w) > sx64(b, w);
  case CmpInst::ICMP_SGE: return sx64(a, w) >= sx64(b, w);
  }
  abort();
}
static Val V(u64 c) { return Val{ c, nullptr }; }

static bool fcmpC(unsigned p, double a, double b)
{
  using namespace llvm;
  bool un = std::isnan(a) || std::isnan(b);
  switch (p)
  {
  case CmpInst::FCMP_FALSE: return false;
  case CmpInst::FCMP_TRUE: return true;
  case CmpInst::FCMP_ORD: return !un;
  case CmpInst::FCMP_UNO: return un;
  case CmpInst::FCMP_OEQ: return !un && a == b;
  case CmpInst::FCMP_OGT: return !un && a > b;
  case CmpInst::FCMP_OGE: return !un && a >= b;
  case CmpInst::FCMP_OLT: return !un && a < b;
  case CmpInst::FCMP_OLE: return !un && a <= b;
  case CmpInst::FCMP_ONE: return !un && a != b;
  case CmpInst::FCMP_UEQ: return un || a == b;
  case CmpInst::FCMP_UGT: return un || a > b;
  case CmpInst::FCMP_UGE: return un || a >= b;
  case CmpInst::FCMP_ULT: return un || a < b;
  case CmpInst::FCMP_ULE: return un || a <= b;
  case CmpInst::FCMP_UNE: return un || a != b;
  }
  return false;
}

// Executes a pure (no memory, no control) instruction. Returns false if the op is not pure.
// conc(): forks are allowed only when mayFork.
static bool pureOp(Engine & en, FnInfo * f, Inst & in, Val * R, bool mayFork)
{
#define RD(r) ((r) >= 0 ? R[r] : f->consts[~(r)])
  unsigned w = in.w;
  switch (in.op)
  {
  case O_NOP: return true;
  case O_MOV: R[in.d] = RD(in.a); return true;
  case O_ADD: case O_SUB: case O_AND: case O_OR: case O_XOR: case O_BIN:
  {
    Val a = RD(in.a), b = RD(in.b);
    K k = (K)in.c;
    if (k >= K::UDiv && k <= K::SRem)
    {
      // division by zero
      Expr * z = mkEq(en.toE(b, w), mkC(0, w));
      if (!mayFork)
      {
        if (!isC(z, 0)) return false;
      }
      else if (en.decide(z)) en.violationEnd("divzero", "division by zero");
    }
    if (!a.e && !b.e && w <= 64) R[in.d] = V((u64)foldBin(k, a.c, b.c, w));
    else R[in.d] = en.binSym(k, a, b, w);
    return true;
  }
  case O_EQ: case O_NE: case O_ULT: case O_SLT: case O_ICMP:
  {
    Val a = RD(in.a), b = RD(in.b);
    if (!a.e && !b.e) R[in.d] = V(icmpC(in.c, a.c, b.c, w));
    else R[in.d] = Engine::fromE(icmpE(in.c, en.toE(a, w), en.toE(b, w)));
    return true;
  }
  case O_SELECT:
  {
    Val c = RD(in.a);
    if (!c.e) { R[in.d] = c.c ? RD(in.b) : RD(in.c); return true; }
    Val x = RD(in.b), y = RD(in.c);
    if (x.e == y.e && x.c == y.c) { R[in.d] = x; return true; }
    Expr * r = mkIte(c.e, en.toE(x, w), en.toE(y, w));
    R[in.d] = w > 64 ? Val{ 0, r } : Engine::fromE(r);
    return true;
  }
  case O_ZEXT: case O_SEXT: case O_TRUNCATE:
  {
    Val a = RD(in.a);
    if (!a.e && w <= 64)
    {
      if (in.op == O_ZEXT) R[in.d] = a;
      else if (in.op == O_SEXT) R[in.d] = V((u64)sx64(a.c, in.w2) & mask64(w));
      else R[in.d] = V(a.c & mask64(w));
      return true;
    }
    Expr * x = en.toE(a, in.w2);
    Expr * r = in.op == O_ZEXT ? mkZExt(x, w) : in.op == O_SEXT ? mkSExt(x, w) : mkExtract(x, 0, w);
    R[in.d] = w > 64 ? Val{ 0, r } : Engine::fromE(r);
    return true;
  }
  case O_GEP:
  {
    Val b = RD(in.a);
    u64 off = in.imm;
    Expr * e = nullptr;
    for (auto & g : f->geps[in.x])
    {
      Val i = RD(g.ref);
      if (!i.e) off += (u64)sx64(i.c, g.w) * g.scale;
      else
      {
        Expr * t = mkBin(K::Mul, mkSExt(i.e, 64), mkC(g.scale, 64));
        e = e ? mkBin(K::Add, e, t) : t;
      }
    }
    if (!b.e && !e) { R[in.d] = V(b.c + off); return true; }
    Expr * r = mkBin(K::Add, en.toE(b, 64), mkC(off, 64));
    if (e) r = mkBin(K::Add, r, e);
    R[in.d] = Engine::fromE(r);
    return true;
  }
  case O_UMIN: case O_UMAX: case O_SMIN: case O_SMAX:
  {
    Expr * a = en.toE(RD(in.a), w), * b = en.toE(RD(in.b), w);
    K k = in.op == O_UMIN || in.op == O_UMAX ? K::Ult : K::Slt;
    bool mn = in.op == O_UMIN || in.op == O_SMIN;
    Expr * r = mkIte(mkCmp(k, a, b), mn ? a : b, mn ? b : a);
    R[in.d] = w > 64 ? Val{ 0, r } : Engine::fromE(r);
    return true;
  }
  case O_ABS:
  {
    Expr * a = en.toE(RD(in.a), w);
    R[in.d] = Engine::fromE(mkIte(mkCmp(K::Slt, a, mkC(0, w)), mkBin(K::Sub, mkC(0, w), a), a));
    return true;
  }
  case O_CTPOP: case O_CTLZ: case O_CTTZ: case O_BSWAP: case O_BITREV:
  {
    Val a = RD(in.a);
    Expr * x = en.toE(a, w);
    Expr * r;
    if (in.op == O_BSWAP)
    {
      r = mkExtract(x, 0, 8);
      for (unsigned i = 1; i < w / 8; i++) r = mkConcat(r, mkExtract(x, i * 8, 8));
    }
    else if (in.op == O_BITREV)
    {
      r = mkExtract(x, 0, 1);
      for (unsigned i = 1; i < w; i++) r = mkConcat(r, mkExtract(x, i, 1));
    }
    else if (in.op == O_CTPOP)
    {
      r = mkC(0, w);
      for (unsigned i = 0; i < w; i++) r = mkBin(K::Add, r, mkZExt(mkExtract(x, i, 1), w));
    }
    else if (in.op == O_CTLZ)
    {
      r = mkC(w, w);
      for (unsigned i = 0; i < w; i++) r = mkIte(mkEq(mkExtract(x, i, 1), mkTrue()), mkC(w - 1 - i, w), r);
    }
    else
    {
      r = mkC(w, w);
      for (int i = (int)w - 1; i >= 0; i--) r = mkIte(mkEq(mkExtract(x, i, 1), mkTrue()), mkC(i, w), r);
    }
    R[in.d] = w > 64 ? Val{ 0, r } : Engine::fromE(r);
    return true;
  }
  case O_FSHL: case O_FSHR:
  {
    Expr * a = en.toE(RD(in.a), w), * b = en.toE(RD(in.b), w), * c = en.toE(RD(in.c), w);
    if (w > 64) return false;
    Expr * m = mkBin(K::URem, c, mkC(w, w));
    Expr * inv = mkBin(K::Sub, mkC(w, w), m);
    Expr * r;
    // shift by w yields 0 in our semantics
    if (in.op == O_FSHL) r = mkOr(mkBin(K::Shl, a, m), mkBin(K::LShr, b, inv));
    else r = mkOr(mkBin(K::Shl, a, inv), mkBin(K::LShr, b, m));
    R[in.d] = Engine::fromE(r);
    return true;
  }
  case O_OVF:
  {
    if (w > 64) return false;
    Expr * a = en.toE(RD(in.a), w), * b = en.toE(RD(in.b), w);
    bool sg = in.c & 1;
    int k = in.c / 2;
    unsigned w2 = k == 2 ? 2 * w : w + 1;
    Expr * A2 = sg ? mkSExt(a, w2) : mkZExt(a, w2), * B2 = sg ? mkSExt(b, w2) : mkZExt(b, w2);
    K op = k == 0 ? K::Add : k == 1 ? K::Sub : K::Mul;
    Expr * full = mkBin(op, A2, B2);
    Expr * lo = mkBin(op, a, b);
    R[in.d] = Engine::fromE(lo);
    R[in.d + 1] = Engine::fromE(mkNot(mkEq(full, sg ? mkSExt(lo, w2) : mkZExt(lo, w2))));
    return true;
  }
  case O_SAT:
  {
    if (w > 64) return false;
    Expr * a = en.toE(RD(in.a), w), * b = en.toE(RD(in.b), w);
    bool sg = in.c & 1;
    K op = in.c < 2 ? K::Add : K::Sub;
    Expr * A2 = sg ? mkSExt(a, w + 1) : mkZExt(a, w + 1), * B2 = sg ? mkSExt(b, w + 1) : mkZExt(b, w + 1);
    Expr * full = mkBin(op, A2, B2);
    Expr * lo = mkBin(op, a, b);
    Expr * ov = mkNot(mkEq(full, sg ? mkSExt(lo, w + 1) : mkZExt(lo, w + 1)));
    Expr * sat;
    if (!sg) sat = op == K::Add ? mkC(~(u128)0, w) : mkC(0, w);
    else sat = mkIte(mkExtract(full, w, 1), mkC((u128)1 << (w - 1), w), mkC(maskw(w - 1), w));
    R[in.d] = Engine::fromE(mkIte(ov, sat, lo));
    return true;
  }
  case O_FBIN:
  {
    Val a = RD(in.a), b = RD(in.b);
    if (a.e || b.e)
    {
      if (!mayFork) return false;
      a = V(en.concretize(a, w));
      b = V(en.concretize(b, w));
    }
    using llvm::Instruction;
    auto doit = [&](auto x, auto y) -> decltype(x)
    {
      switch (in.c)
      {
      case Instruction::FAdd: return x + y;
      case Instruction::FSub: return x - y;
      case Instruction::FMul: return x * y;
      case Instruction::FDiv: return x / y;
      default: return fmod(x, y);
      }
    };
    R[in.d] = V(w == 32 ? fbits(doit(asF(a.c), asF(b.c))) : dbits(doit(asD(a.c), asD(b.c))));
    return true;
  }
  case O_FCMP:
  {
    Val a = RD(in.a), b = RD(in.b);
    if (a.e || b.e)
    {
      if (!mayFork) return false;
      a = V(en.concretize(a, w));
      b = V(en.concretize(b, w));
    }
    R[in.d] = V(w == 32 ? fcmpC(in.c, asF(a.c), asF(b.c)) : fcmpC(in.c, asD(a.c), asD(b.c)));
    return true;
  }
  case O_FNEG: case O_FUN1: case O_FPTOUI: case O_FPTOSI: case O_UITOFP: case O_SITOFP: case O_FPEXT: case O_FPTRUNC:
  {
    Val a = RD(in.a);
    if (a.e)
    {
      if (!mayFork) return false;
      a = V(en.concretize(a, in.w2 ? in.w2 : w));
    }
    double x = (in.op == O_UITOFP) ? (double)a.c
             : (in.op == O_SITOFP) ? (double)sx64(a.c, in.w2)
             : ((in.w2 ? in.w2 : w) == 32) ? (double)asF(a.c)
                                           : asD(a.c);
    if (in.op == O_UITOFP && w == 32) { R[in.d] = V(fbits((float)a.c)); return true; }
    if (in.op == O_SITOFP && w == 32) { R[in.d] = V(fbits((float)sx64(a.c, in.w2))); return true; }
    double y = x;
    if (in.op == O_FNEG) y = -x;
    if (in.op == O_FUN1)
      switch (in.c)
      {
      case 0: y = fabs(x); break;
      case 1: y = floor(x); break;
      case 2: y = ceil(x); break;
      case 3: y = sqrt(x); break;
      case 4: y = trunc(x); break;
      case 5: y = rint(x); break;
      case 6: y = round(x); break;
      case 7: y = log2(x); break;
      case 8: y = log(x); break;
      case 9: y = exp(x); break;
      default: y = log10(x); break;
      }
    if (in.op == O_FPTOUI) { R[in.d] = V((x < 0 ? (u64)(i64)x : (u64)x) & mask64(w)); return true; }
    if (in.op == O_FPTOSI) { R[in.d] = V((u64)(i64)x & mask64(w)); return true; }
    R[in.d] = V(w == 32 ? fbits((float)y) : dbits(y));
    return true;
  }
  case O_FUN2:
  {
    Val a = RD(in.a), b = RD(in.b);
    if (a.e || b.e)
    {
      if (!mayFork) return false;
      a = V(en.concretize(a, w));
      b = V(en.concretize(b, w));
    }
    double x = w == 32 ? asF(a.c) : asD(a.c), y = w == 32 ? asF(b.c) : asD(b.c);
    double r = in.c == 0 ? pow(x, y) : in.c == 1 ? fmin(x, y) : in.c == 2 ? fmax(x, y) : copysign(x, y);
    R[in.d] = V(w == 32 ? fbits((float)r) : dbits(r));
    return true;
  }
  default: return false;
  }
}

// ---------------------------------------------------------------- merging of side-effect-light regions
struct MergeCtx
{
  struct Undo { u64 a; u8 c; Expr * e; };
  std::vector<Undo> undo;
  int budget = 1500;
  int depth = 0;
  bool structural = false;
};

static inline bool looksPtr(u64 v) { return v - HEAP_BASE < HEAP_SIZE; }

static bool mergeVal(Engine & en, Expr * g, Val nv, Val & acc, bool first, unsigned w)
{
  if (first) { acc = nv; return true; }
  if (nv.e == acc.e && nv.c == acc.c) return true;
  if (!nv.e && !acc.e && w == 64 && (looksPtr(nv.c) || looksPtr(acc.c))) return false;
  Expr * r = mkIte(g, en.toE(nv, w), en.toE(acc, w));
  acc = w > 64 ? Val{ 0, r } : Engine::fromE(r);
  return true;
}

bool Engine::mergeRegion(FnInfo * f, Val * R, u32 startBlock, const std::vector<std::pair<u32, Expr *>> & outs, i32 stop, MergeCtx & mc,
    std::vector<Val> * ret)
{
  // region discovery (DFS, acyclic)
  std::vector<u32> order;
  std::unordered_map<u32, int> state;
  bool bad = false;
  std::function<void(u32)> dfs = [&](u32 b)
  {
    if (bad || (i32)b == stop) return;
    int & s = state[b];
    if (s == 2) return;
    if (s == 1 || b == startBlock) { bad = true; return; }
    s = 1;
    if (state.size() > 60) { bad = true; return; }
    Block & bl = f->blocks[b];
    Inst & t = f->code[bl.end - 1];
    switch (t.op)
    {
    case O_BR: dfs(f->edges[t.imm].toBlock); break;
    case O_CBR: dfs(f->edges[t.x].toBlock); dfs(f->edges[t.imm].toBlock); break;
    case O_SWITCH:
      for (auto & c : f->switches[t.x].cases) dfs(f->edges[c.second].toBlock);
      dfs(f->edges[f->switches[t.x].defEdge].toBlock);
      break;
    case O_RET: if (stop != -1) bad = true; break;
    case O_CALL: // invoke as terminator
      if (f->calls[t.x]->invoke) dfs(f->edges[f->calls[t.x]->normalEdge].toBlock);
      else bad = true;
      break;
    case O_UNREACHABLE: break; // handled dynamically
    default: bad = true;
    }
    state[b] = 2;
    order.push_back(b);
  };
  for (auto & o : outs) dfs(f->edges[o.first].toBlock);
  if (bad) { mc.structural = true; return false; }
  std::reverse(order.begin(), order.end());
  std::unordered_map<u32, std::vector<std::pair<u32, Expr *>>> pend;
  auto push = [&](u32 edge, Expr * g)
  {
    if (isC(g, 0)) return;
    pend[f->edges[edge].toBlock].push_back({ edge, g });
  };
  for (auto & o : outs) push(o.first, o.second);
  bool haveRet = false;

  auto phis = [&](u32 b, std::vector<std::pair<u32, Expr *>> & in) -> bool
  {
    u32 n = f->edges[in[0].first].nmv;
    std::vector<Val> acc(n);
    for (u32 i = 0; i < n; i++)
      for (size_t k = 0; k < in.size(); k++)
      {
        Move & m = f->moves[f->edges[in[k].first].mv + i];
        Val v = RD(m.src);
        if (!mergeVal(*this, in[k].second, v, acc[i], k == 0, m.w)) return false;
      }
    for (u32 i = 0; i < n; i++) R[f->moves[f->edges[in[0].first].mv + i].dst] = acc[i];
    return true;
  };

  for (u32 b : order)
  {
    auto it = pend.find(b);
    if (it == pend.end()) continue;
    auto in = it->second;
    Expr * g = mkFalse();
    for (auto & x : in) g = mkOr(g, x.second);
    if (!phis(b, in)) return false;
    Block & bl = f->blocks[b];
    for (u32 p = bl.start; p < bl.end; p++)
    {
      Inst & in2 = f->code[p];
      if (--mc.budget < 0) return false;
      instCount++;
      if (pureOp(*this, f, in2, R, false)) continue;
      switch (in2.op)
      {
      case O_LOAD:
      {
        Val a = RD(in2.a);
        if (a.e) return false;
        u64 ad = a.c + in2.imm;
        if (!inHeap(ad) || !accessOk(ad, (in2.w + 7) / 8)) return false;
        R[in2.d] = loadConc(ad, in2.w);
        break;
      }
      case O_STORE:
      {
        Val a = RD(in2.a);
        if (a.e) return false;
        u64 ad = a.c + in2.imm;
        unsigned n = (in2.w + 7) / 8;
        if (!inHeap(ad) || !accessOk(ad, n)) return false;
        Val nv = RD(in2.b);
        Val ov = loadConc(ad, in2.w);
        if (nv.c == ov.c && nv.e == ov.e) break;
        if (!nv.e && !ov.e && in2.w == 64 && (looksPtr(nv.c) || looksPtr(ov.c))) return false;
        for (unsigned i = 0; i < n; i++) mc.undo.push_back({ ad + i, *(u8 *)(ad + i), symGet(ad + i) });
        Expr * r = mkIte(g, toE(nv, in2.w), toE(ov, in2.w));
        storeConc(ad, in2.w > 64 ? Val{ 0, r } : fromE(r), in2.w);
        break;
      }
      case O_BR: push((u32)in2.imm, g); break;
      case O_CBR:
      {
        Val c = RD(in2.a);
        if (!c.e) push(c.c ? in2.x : (u32)in2.imm, g);
        else
        {
          push(in2.x, mkAnd(g, c.e));
          push((u32)in2.imm, mkAnd(g, mkNot(c.e)));
        }
        break;
      }
      case O_SWITCH:
      {
        Val c = RD(in2.a);
        auto & si = f->switches[in2.x];
        if (!c.e)
        {
          u32 e = si.defEdge;
          for (auto & k : si.cases) if (k.first == c.c) { e = k.second; break; }
          push(e, g);
        }
        else
        {
          Expr * rest = g;
          std::map<u32, Expr *> per;
          for (auto & k : si.cases)
          {
            Expr * q = mkEq(c.e, mkC(k.first, in2.w));
            auto & pe = per[k.second];
            Expr * qq = mkAnd(g, q);
            pe = pe ? mkOr(pe, qq) : qq;
            rest = mkAnd(rest, mkNot(q));
          }
          for (auto & pe : per) push(pe.first, pe.second);
          push(si.defEdge, rest);
        }
        break;
      }
      case O_RET:
      {
        auto & l = f->rets[in2.x];
        if (!ret) return false;
        if (!haveRet)
        {
          ret->clear();
          for (auto r : l) ret->push_back(RD(r));
          haveRet = true;
        }
        else
        {
          // widths of return values: derive from LLVM type lazily (all <= 64 assumed unless Expr)
          for (size_t i = 0; i < l.size(); i++)
          {
            Val nv = RD(l[i]);
            unsigned w = nv.e ? nv.e->w : (*ret)[i].e ? (*ret)[i].e->w : 64;
            if (nv.e == (*ret)[i].e && nv.c == (*ret)[i].c) continue;
            if (!nv.e && !(*ret)[i].e)
            {
              auto t = f->F->getReturnType();
              if (l.size() == 1 && t->isIntegerTy()) w = t->getIntegerBitWidth();
              else if (l.size() != 1) return false;
            }
            if (!mergeVal(*this, g, nv, (*ret)[i], false, w)) return false;
          }
        }
        break;
      }
      case O_CALL:
      {
        CallInfo & ci = *f->calls[in2.x];
        if (ci.indirect || ci.builtin || !ci.target || mc.depth >= 4 || !ci.byval.empty()) return false;
        FnInfo * t = ci.target;
        if (!t->decoded) decode(t);
        if (t->code.size() > 400) return false;
        Val * R2 = regTop;
        if (regTop + t->nslots + 16 > regEnd) return false;
        regTop += t->nslots;
        memset((void *)R2, 0, sizeof(Val) * t->nslots);
        for (u32 i = 0; i < ci.args.size() && i < t->nargs; i++) R2[i] = RD(ci.args[i]);
        std::vector<Val> rv;
        // pseudo edge into the entry block
        mc.depth++;
        bool ok = true;
        {
          // entry block has no phis; create a one-off edge
          static const u32 NOEDGE = ~0u;
          (void)NOEDGE;
          Edge e{ 0xffffffff, 0, 0, 0 };
          t->edges.push_back(e);
          u32 ei = t->edges.size() - 1;
          ok = mergeRegion(t, R2, 0xffffffff, { { ei, g } }, -1, mc, &rv);
          t->edges.pop_back();
        }
        mc.depth--;
        regTop = R2;
        if (!ok) return false;
        if (!t->entered) { t->entered = true; sh->entered[t->id] = 1; }
        if (rv.size() < ci.nret) return false;
        for (u32 i = 0; i < ci.nret; i++) R[ci.dst + i] = rv[i];
        if (ci.invoke) push(ci.normalEdge, g);
        break;
      }
      default:
        return false;
      }
    }
  }
  if (stop >= 0)
  {
    auto it = pend.find((u32)stop);
    if (it == pend.end()) return false;
    if (!phis((u32)stop, it->second)) return false;
  }
  else if (!haveRet) return false;
  return true;
}

bool Engine::tryMerge(Frame & fr, u32 block, const std::vector<std::pair<u32, Expr *>> & outs)
{
  if (noMerge) return false;
  FnInfo * f = fr.f;
  computePdom(f);
  i32 stop = f->blocks[block].ipdom;
  if (stop < 0) return false;
  auto & mf = f->mergeFail[block];
  if (mf > 30) return false;
  MergeCtx mc;
  bool ok = mergeRegion(f, fr.R, block, outs, stop, mc, nullptr);
  if (!ok)
  {
    for (int i = (int)mc.undo.size() - 1; i >= 0; i--)
    {
      symSet(mc.undo[i].a, mc.undo[i].e);
      *(u8 *)mc.undo[i].a = mc.undo[i].c;
    }
    mf += mc.structural ? 100 : 1;
    return false;
  }
  sh->merges++;
  fr.pc = f->blocks[stop].start;
  return true;
}

// ---------------------------------------------------------------- main loop
void Engine::run(size_t depth)
{
  Val argbuf[64], retbuf[16];
  while (frames.size() > depth)
  {
  again:
    Frame * fr = &frames.back();
    FnInfo * f = fr->f;
    Val * R = fr->R;
    Inst * code = f->code.data();
    const Val * CS = f->consts.data();
#undef RD
#define RD(r) ((r) >= 0 ? R[r] : CS[~(r)])
    u32 pc = fr->pc;
    for (;;)
    {
      Inst & in = code[pc];
      instCount++;
#ifdef SYMX_TRACE
      fprintf(stderr, "%s pc=%u op=%u\n", f->name.c_str(), pc, in.op);
#endif
      switch (in.op)
      {
      case O_MOV: R[in.d] = RD(in.a); pc++; continue;
#define FASTBIN(OPN, EXPR)                                \
  case OPN:                                               \
  {                                                       \
    Val a = RD(in.a), b = RD(in.b);                       \
    if (__builtin_expect(!a.e && !b.e, 1))                \
    {                                                     \
      R[in.d] = Val{ (EXPR)&in.imm, nullptr };            \
      pc++;                                               \
      continue;                                           \
    }                                                     \
    R[in.d] = binSym((K)in.c, a, b, in.w);                \
    pc++;                                                 \
    continue;                                             \
  }
        FASTBIN(O_ADD, a.c + b.c)
        FASTBIN(O_SUB, a.c - b.c)
        FASTBIN(O_AND, a.c & b.c)
        FASTBIN(O_OR, a.c | b.c)
        FASTBIN(O_XOR, a.c ^ b.c)
#define FASTCMP(OPN, EXPR)                                                               \
  case OPN:                                                                              \
  {                                                                                      \
    Val a = RD(in.a), b = RD(in.b);                                                      \
    if (__builtin_expect(!a.e && !b.e, 1)) R[in.d] = Val{ (u64)(EXPR), nullptr };        \
    else R[in.d] = fromE(icmpE(in.c, toE(a, in.w), toE(b, in.w)));                       \
    pc++;                                                                                \
    continue;                                                                            \
  }
        FASTCMP(O_EQ, a.c == b.c)
        FASTCMP(O_NE, a.c != b.c)
        FASTCMP(O_ULT, a.c < b.c)
        FASTCMP(O_SLT, sx64(a.c, in.w) < sx64(b.c, in.w))
      case O_LOAD:
      {
        Val a = RD(in.a);
        if (__builtin_expect(!a.e, 1))
        {
          u64 ad = a.c + in.imm;
          unsigned n = (in.w + 7) / 8;
          if (__builtin_expect(!accessOk(ad, n), 0)) { fr->pc = pc; checkAccess(ad, n, false); }
          if (__builtin_expect(in.w <= 64 && !maybeSym(ad, n), 1)) R[in.d] = Val{ rd(ad, n) & mask64(in.w), nullptr };
          else R[in.d] = loadConc(ad, in.w);
        }
        else
        {
          fr->pc = pc;
          Val ad = in.imm ? fromE(mkBin(K::Add, a.e, mkC(in.imm, 64))) : a;
          Val o;
          load(o, ad, in.w);
          R[in.d] = o;
        }
        pc++;
        continue;
      }
      case O_STORE:
      {
        Val a = RD(in.a);
        fr->pc = pc;
        if (a.e && in.imm) a = fromE(mkBin(K::Add, a.e, mkC(in.imm, 64)));
        else a.c += in.imm;
        store(a, RD(in.b), in.w);
        pc++;
        continue;
      }
      case O_GEP:
      {
        Val b = RD(in.a);
        if (__builtin_expect(!b.e, 1))
        {
          if (in.b == 0) { R[in.d] = Val{ b.c + in.imm, nullptr }; pc++; continue; }
          if (in.b == 1)
          {
            GepIdx & g = f->geps[in.x][0];
            Val i = RD(g.ref);
            if (!i.e)
            {
              R[in.d] = Val{ b.c + in.imm + (u64)sx64(i.c, g.w) * g.scale, nullptr };
              pc++;
              continue;
            }
          }
        }
        pureOp(*this, f, in, R, true);
        pc++;
        continue;
      }
      case O_BR:
        fr->pc = pc;
        takeEdge(*fr, (u32)in.imm);
        pc = fr->pc;
        continue;
      case O_CBR:
      {
        Val c = RD(in.a);
        fr->pc = pc;
        if (__builtin_expect(!c.e, 1))
        {
          takeEdge(*fr, c.c ? in.x : (u32)in.imm);
          pc = fr->pc;
          continue;
        }
        if (instCount > instLimit) violationEnd("limit", "instruction limit exceeded (possible non-termination)");
        if (tryMerge(*fr, f->pcBlock[pc], { { in.x, c.e }, { (u32)in.imm, mkNot(c.e) } }))
        {
          pc = fr->pc;
          continue;
        }
        takeEdge(*fr, decide(c.e) ? in.x : (u32)in.imm);
        pc = fr->pc;
        continue;
      }
      case O_SWITCH:
      {
        Val c = RD(in.a);
        auto & si = f->switches[in.x];
        fr->pc = pc;
        if (!c.e)
        {
          u32 e = si.defEdge;
          for (auto & k : si.cases) if (k.first == c.c) { e = k.second; break; }
          takeEdge(*fr, e);
          pc = fr->pc;
          continue;
        }
        std::vector<std::pair<u32, Expr *>> outs;
        std::map<u32, Expr *> per;
        Expr * rest = mkTrue();
        for (auto & k : si.cases)
        {
          Expr * q = mkEq(c.e, mkC(k.first, in.w));
          auto & pe = per[k.second];
          pe = pe ? mkOr(pe, q) : q;
          rest = mkAnd(rest, mkNot(q));
        }
        for (auto & pe : per) outs.push_back({ pe.first, pe.second });
        outs.push_back({ si.defEdge, rest });
        if (tryMerge(*fr, f->pcBlock[pc], outs))
        {
          pc = fr->pc;
          continue;
        }
        u32 tgt = si.defEdge;
        for (size_t i = 0; i + 1 < outs.size(); i++)
          if (decide(outs[i].second)) { tgt = outs[i].first; break; }
        takeEdge(*fr, tgt);
        pc = fr->pc;
        continue;
      }
      case O_ALLOCA:
      {
        fr->pc = pc;
        u64 cnt = concPtr(RD(in.a));
        u64 n = cnt * in.imm;
        u64 p = (sp + 16 + in.x - 1) & ~(u64)(in.x - 1);
        u64 r = (n + 15) & ~15ull;
        if (p + r >= HEAP_BASE + STACK_SIZE) violationEnd("stack", "stack overflow");
        memset(shadowOf(p), 16, n / 16);
        if (n % 16) *shadowOf(p + n) = n % 16;
        sp = p + r;
        if (!symPages.empty() && n) symClear(p, n);
        R[in.d] = Val{ p, nullptr };
        pc++;
        continue;
      }
      case O_CALL:
      {
        CallInfo & ci = *f->calls[in.x];
        fr->pc = pc;
        u32 na = ci.args.size();
        Val * args = argbuf;
        std::vector<Val> big;
        if (na > 64) { big.resize(na); args = big.data(); }
        for (u32 i = 0; i < na; i++) args[i] = RD(ci.args[i]);
        FnInfo * t = ci.target;
        void * nat = ci.native;
        Builtin bi = ci.builtin;
        if (ci.indirect)
        {
          u64 a = concPtr(RD(ci.callee));
          t = fnAt(a);
          if (!t)
          {
            if (a < 65536) violationEnd("memory", "call through null function pointer");
            nat = (void *)a;
          }
          else
          {
            bi = findBuiltin(t->name);
            if (t->F->isDeclaration() && !t->F->isMaterializable() && !bi)
              unsupported("call to undefined function " + t->name);
          }
        }
        if (bi)
        {
          size_t depth0 = frames.size();
          CallInfo * cip = &ci;
          CallInfo tmp;
          if (ci.indirect) { tmp = ci; tmp.name = t->name; cip = &tmp; }
          Val * rb = retbuf;
          Frame * before = &frames.back();
          u32 pcBefore = before->pc;
          bi(*this, *cip, R, args, na, rb);
          if (frames.size() != depth0 || frames.back().pc != pcBefore) goto again; // an exception was thrown
          for (u32 i = 0; i < ci.nret; i++) R[ci.dst + i] = rb[i];
          if (ci.invoke) { takeEdge(*fr, ci.normalEdge); pc = fr->pc; }
          else pc++;
          continue;
        }
        if (t)
        {
          if (instCount > instLimit) violationEnd("limit", "instruction limit exceeded (possible non-termination)");
          pushFrame(t, args, na, &ci);
          goto again;
        }
        if (ci.noresolve) unsupported("call to undefined function " + ci.name);
        {
          size_t depth0 = frames.size();
          u32 pcBefore = pc;
          callNative(ci, nat, args, na, retbuf);
          if (frames.size() != depth0 || frames.back().pc != pcBefore) goto again;
          for (u32 i = 0; i < ci.nret; i++) R[ci.dst + i] = retbuf[i];
          if (ci.invoke) { takeEdge(*fr, ci.normalEdge); pc = fr->pc; }
          else pc++;
          continue;
        }
      }
      case O_RET:
      {
        auto & l = f->rets[in.x];
        u32 n = l.size();
        Val * rb = retbuf;
        std::vector<Val> big;
        if (n > 16) { big.resize(n); rb = big.data(); }
        for (u32 i = 0; i < n; i++) rb[i] = RD(l[i]);
        popFrame();
        if (frames.size() == depth) return;
        Frame & cf = frames.back();
        CallInfo & ci = *cf.f->calls[cf.f->code[cf.pc].x];
        for (u32 i = 0; i < ci.nret; i++) cf.R[ci.dst + i] = rb[i];
        if (ci.invoke) takeEdge(cf, ci.normalEdge);
        else cf.pc++;
        goto again;
      }
      case O_UNREACHABLE: fr->pc = pc; violationEnd("unreachable", "unreachable executed in " + f->name);
      case O_LPAD: pc++; continue; // values were set by throwExc
      case O_RESUME:
      {
        fr->pc = pc;
        u64 p = concPtr(RD(in.a));
        auto x = excByPtr[p];
        popFrame();
        throwExc(x.obj, x.ti);
        goto again;
      }
      case O_RMW:
      {
        fr->pc = pc;
        Val a = RD(in.a), v = RD(in.b), o;
        load(o, a, in.w);
        using llvm::AtomicRMWInst;
        K k = K::Add;
        bool xchg = false;
        switch (in.c)
        {
        case AtomicRMWInst::Xchg: xchg = true; break;
        case AtomicRMWInst::Add: k = K::Add; break;
        case AtomicRMWInst::Sub: k = K::Sub; break;
        case AtomicRMWInst::And: k = K::And; break;
        case AtomicRMWInst::Or: k = K::Or; break;
        case AtomicRMWInst::Xor: k = K::Xor; break;
        default: unsupported("atomicrmw");
        }
        store(a, xchg ? v : binSym(k, o, v, in.w), in.w);
        R[in.d] = o;
        pc++;
        continue;
      }
      case O_CMPXCHG:
      {
        fr->pc = pc;
        Val a = RD(in.a), cmp = RD(in.b), nv = RD(in.c), o;
        load(o, a, in.w);
        bool eq = decide(mkEq(toE(o, in.w), toE(cmp, in.w)));
        if (eq) store(a, nv, in.w);
        R[in.d] = o;
        R[in.d + 1] = Val{ eq, nullptr };
        pc++;
        continue;
      }
      case O_UNSUPPORTED: fr->pc = pc; unsupported("unsupported instruction: " + f->strs[in.x]);
      default:
        fr->pc = pc;
        if (!pureOp(*this, f, in, R, true)) unsupported("cannot execute op " + std::to_string(in.op));
        pc++;
        continue;
      }
    }
  }
}

// ---------------------------------------------------------------- startup
void Engine::runCtors()
{
  for (auto & m : mods)
  {
    auto g = m->getNamedGlobal("llvm.global_ctors");
    if (!g || !g->hasInitializer()) continue;
    auto arr = llvm::dyn_cast<llvm::ConstantArray>(g->getInitializer());
    if (!arr) continue;
    std::vector<std::pair<u64, FnInfo *>> l;
    for (auto & op : arr->operands())
    {
      auto s = llvm::cast<llvm::ConstantStruct>(op);
      auto F = llvm::dyn_cast<llvm::Function>(s->getOperand(1)->stripPointerCasts());
      if (!F) continue;
      auto r = llvm::dyn_cast<llvm::Function>(resolve(F));
      if (r != F && !F->hasLocalLinkage()) continue; // COMDAT ctor kept in another module only
      l.push_back({ llvm::cast<llvm::ConstantInt>(s->getOperand(0))->getZExtValue(), fnFor(F) });
    }
    std::stable_sort(l.begin(), l.end(), [](auto & a, auto & b) { return a.first < b.first; });
    for (auto & x : l) call(x.second, {});
  }
}

#include <execinfo.h>
static void onSegv(int sig, siginfo_t * si, void *)
{
  char b[100];
  if (getenv("SYMX_BT"))
  {
    void * bt[60];
    int n = backtrace(bt, 60);
    backtrace_symbols_fd(bt, n, 2);
    signal(sig, SIG_DFL);
  }
  snprintf(b, sizeof b, "signal %d at address %p", sig, si->si_addr);
  E->violationEnd("segv", b);
}

static std::string jsonEsc(const std::string & s)
{
  std::string o;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

static void initShared(Shared * sh, int jobs)
{
  pthread_mutexattr_t a;
  pthread_mutexattr_init(&a);
  pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED);
  pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST);
  pthread_mutex_init(&sh->mx, &a);
  sh->tokens = jobs - 1; // the first worker holds one
  sh->nwait = 0;
  sh->nfree = 0;
  for (int i = MAXWAIT - 1; i >= 0; i--)
  {
    sem_init(&sh->w[i].sem, 1, 0);
    sh->freeList[sh->nfree++] = i;
  }
  sh->live = 0;
  sh->stop = 0;
}

// explores from the current state; returns when all workers are gone
static bool explore(FnInfo * entry, double deadline, bool quiet, u64 maxPaths, double & wall)
{
  auto & en = *E;
  auto sh = en.sh;
  u64 t0 = nowUs();
  sh->live = 1;
  en.maxPaths = maxPaths;
  pid_t p = fork();
  if (p == 0)
  {
    setpgid(0, 0);
    if (quiet)
    {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 1);
      dup2(fd, 2);
    }
    stack_t ss{};
    ss.ss_size = 1 << 20;
    ss.ss_sp = malloc(ss.ss_size);
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = onSegv;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) sigaction(s, &sa, nullptr);
    en.call(entry, {});
    en.endPath("end");
  }
  setpgid(p, p);
  bool complete = true;
  u64 stopAt = 0;
  for (;;)
  {
    int st;
    while (waitpid(-1, &st, WNOHANG) > 0) lostWorker(st);
    if (sh->live <= 0) break;
    double el = (nowUs() - t0) / 1e6;
    if (el > deadline && !sh->stop) { sh->stop = 1; complete = false; }
    if (sh->stop)
    {
      if (!stopAt) stopAt = nowUs();
      if (nowUs() - stopAt > 300000) break;
    }
    usleep(2000);
  }
  kill(-p, SIGKILL);
  while (waitpid(-1, nullptr, 0) > 0) {}
  wall = (nowUs() - t0) / 1e6;
  if (sh->stop && sh->nviol == 0 && maxPaths == ~0ull) complete = false;
  return complete;
}

int main(int argc, char ** argv)
{
  if (!getenv("SYMX_REEXEC"))
  {
    setenv("SYMX_REEXEC", "1", 1);
    personality(ADDR_NO_RANDOMIZE);
    rlimit rl{ 1ul << 30, RLIM_INFINITY };
    getrlimit(RLIMIT_STACK, &rl);
    rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ul << 30) : std::min<u64>(rl.rlim_max, 1ul << 30);
    setrlimit(RLIMIT_STACK, &rl);
    execv("/proc/self/exe", argv);
  }
  Engine & en = *(E = new Engine);
  std::vector<std::string> files;
  double deadline = 600;
  std::string out, replay, entry = "harness_main";
  bool scout = true;
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    auto next = [&]() { return std::string(argv[++i]); };
    if (a == "-j") en.jobs = atoi(next().c_str());
    else if (a == "-deadline") deadline = atof(next().c_str());
    else if (a == "-qt") en.queryTimeoutMs = atoi(next().c_str());
    else if (a == "-max-viol") g_maxViol = atoi(next().c_str());
    else if (a == "-inst-limit") en.instLimit = strtoull(next().c_str(), 0, 0);
    else if (a == "-out") out = next();
    else if (a == "-replay") replay = next();
    else if (a == "-entry") entry = next();
    else if (a == "-arg") en.hargs.push_back(next());
    else if (a == "-v") g_verbose = true;
    else if (a == "-no-merge") en.noMerge = true;
    else if (a == "-no-scout") scout = false;
    else if (a == "-files")
    {
      FILE * f = fopen(next().c_str(), "r");
      char b[4096];
      while (fgets(b, sizeof b, f)) { std::string s = b; while (!s.empty() && s.back() == '\n') s.pop_back(); if (!s.empty()) files.push_back(s); }
      fclose(f);
    }
    else files.push_back(a);
  }
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  u64 t0 = nowUs();
  if (mmap((void *)HEAP_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0)
          != (void *)HEAP_BASE
      || mmap((void *)SHADOW_BASE, HEAP_SIZE / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
             -1, 0)
             != (void *)SHADOW_BASE)
  {
    perror("symx: mmap");
    return 2;
  }
  en.sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  initShared(en.sh, en.jobs);
  en.regBase = (Val *)mmap(nullptr, sizeof(Val) * (8 << 20), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  en.regTop = en.regBase;
  en.regEnd = en.regBase + (8 << 20);
  en.sp = HEAP_BASE + 4096;
  en.heapTop = HEAP_BASE + STACK_SIZE;
  en.frames.reserve(21000);
  Z3_config cfg = Z3_mk_config();
  zctx = Z3_mk_context_rc(cfg);
  Z3_set_error_handler(zctx, [](Z3_context c, Z3_error_code e) { E->unsupported(std::string("z3 error: ") + Z3_get_error_msg(c, e)); });

  if (!replay.empty())
  {
    en.concreteMode = true;
    FILE * f = fopen(replay.c_str(), "r");
    if (!f) { perror("replay"); return 2; }
    char nm[300];
    unsigned w;
    unsigned long long v;
    while (fscanf(f, "%299s %u %llx", nm, &w, &v) == 3) en.replayVals.push_back(v);
    fclose(f);
  }

  en.load(files);
  // stable function ids
  {
    std::vector<std::string> names;
    for (auto & m : en.mods)
      for (auto & F : *m)
        if (!F.isDeclaration() && !F.hasAvailableExternallyLinkage())
        {
          auto r = llvm::dyn_cast<llvm::Function>(en.resolve(&F));
          if (r == &F) en.fnFor(&F);
        }
  }
  u64 t1 = nowUs();
  llvm::Function * H = nullptr;
  {
    auto it = en.defs.find(entry);
    if (it != en.defs.end()) H = llvm::dyn_cast<llvm::Function>(it->second);
  }
  if (!H) { fprintf(stderr, "symx: no entry %s\n", entry.c_str()); return 2; }
  {
    // constructors run concretely in this process; violations here are engine errors
    en.sh->live = 1;
    en.runCtors();
  }
  FnInfo * hf = en.fnFor(H);
  u64 t2 = nowUs();
  double wall = 0;
  if (!replay.empty())
  {
    explore(hf, deadline, !g_verbose, ~0ull, wall);
  }
  else
  {
    bool * ent0 = new bool[en.fns.size()];
    (void)ent0;
    if (scout)
    {
      // scout: a few paths, to learn which functions are needed; decode them once in the parent
      double w2;
      explore(hf, 8, true, 24, w2);
      for (size_t i = 0; i < en.fns.size(); i++)
        if (en.sh->entered[i]) en.decode(en.fns[i]);
      auto keep = en.sh;
      en.sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      munmap(keep, sizeof(Shared));
      initShared(en.sh, en.jobs);
      flushedInsts = en.instCount;
    }
  }
  u64 t3 = nowUs();
  bool complete = true;
  if (replay.empty()) complete = explore(hf, deadline, !g_verbose, ~0ull, wall);
  auto sh = en.sh;
  FILE * o = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(o, "{\n");
  fprintf(o, " \"complete\": %s,\n", complete && sh->nerr == 0 && sh->errors == 0 ? "true" : "false");
  fprintf(o, " \"deadline_hit\": %s,\n", complete ? "false" : "true");
#define CNT(n) fprintf(o, " \"" #n "\": %llu,\n", (unsigned long long)sh->n)
  CNT(paths); CNT(infeasible); CNT(errors); CNT(forks); CNT(decisions); CNT(choices); CNT(queries); CNT(sat); CNT(unsat); CNT(unknown);
  CNT(cacheHits); CNT(insts); CNT(asserts); CNT(assertsConst); CNT(assertQ); CNT(merges); CNT(natConc); CNT(resolve);
  fprintf(o, " \"solver_s\": %.3f,\n \"max_query_s\": %.3f,\n \"wall_s\": %.3f,\n \"load_s\": %.3f,\n \"ctor_s\": %.3f,\n \"scout_s\": %.3f,\n",
      sh->solverUs / 1e6, sh->maxQueryUs / 1e6, wall, (t1 - t0) / 1e6, (t2 - t1) / 1e6, (t3 - t2) / 1e6);
  fprintf(o, " \"reach\": {");
  for (int i = 0; i < sh->nreach; i++) fprintf(o, "%s\"%s\": %llu", i ? ", " : "", jsonEsc(sh->reach[i].name).c_str(), (unsigned long long)sh->reach[i].n);
  fprintf(o, "},\n \"violations\": [");
  for (int i = 0; i < sh->nviol; i++)
    fprintf(o, "%s\n  {\"kind\": \"%s\", \"msg\": \"%s\", \"bt\": \"%s\", \"inputs\": \"%s\"}", i ? "," : "", sh->viol[i].kind, jsonEsc(sh->viol[i].msg).c_str(),
        jsonEsc(sh->viol[i].bt).c_str(), jsonEsc(sh->viol[i].inputs).c_str());
  fprintf(o, "],\n \"error_msgs\": [");
  for (int i = 0; i < sh->nerr; i++) fprintf(o, "%s\n  \"%s\"", i ? "," : "", jsonEsc(sh->err[i]).c_str());
  fprintf(o, "],\n \"samples\": [");
  for (int i = 0, k = 0; i < sh->nsample; i++)
    if (sh->sample[i].inputs[0] || sh->paths == 1)
      fprintf(o, "%s\n  {\"obs\": \"%016llx\", \"inputs\": \"%s\"}", k++ ? "," : "", (unsigned long long)sh->sample[i].obs, jsonEsc(sh->sample[i].inputs).c_str());
  fprintf(o, "],\n \"functions\": [");
  bool first = true;
  for (size_t i = 0; i < en.fns.size(); i++)
    if (sh->entered[i])
    {
      fprintf(o, "%s\n  \"%s\"", first ? "" : ",", jsonEsc(en.fns[i]->name).c_str());
      first = false;
    }
  fprintf(o, "]\n}\n");
  if (o != stdout) fclose(o);
  if (sh->nviol) return 1;
  if (!complete || sh->nerr || sh->errors) return 2;
  return 0;
}
