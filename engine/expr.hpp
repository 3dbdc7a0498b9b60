// Hash-consed bit-vector expressions (width 1..128) with eager simplification.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <z3.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint32_t u32;
typedef int32_t i32;
typedef uint16_t u16;
typedef uint8_t u8;

enum class K : u8
{
  Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
  Eq, Ult, Ule, Slt, Sle, Ite, ZExt, SExt, Extract, Concat
};

struct Expr
{
  K k;
  u8 w;
  u32 id;
  u64 hash;
  Expr *a, *b, *c;
  u128 val; // Const: value; Var: index; Extract: low bit
  u128 kz, ko; // known zero / known one masks
  Z3_ast z3;
  u32 evalEpoch;
  u32 hard; // contains a multiplication or division of two unknowns
  u32 depth;
  u128 evalVal;
  std::vector<u32> * vars; // sorted set of variables (lazily)
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i128 sx(u128 v, unsigned w)
{
  if (w >= 128) return (i128)v;
  u128 s = (u128)1 << (w - 1);
  return (i128)(((v & maskw(w)) ^ s) - s);
}
static inline i64 sx64(u64 v, unsigned w)
{
  if (w >= 64) return (i64)v;
  return (i64)(v << (64 - w)) >> (64 - w);
}

struct Pool
{
  std::vector<Expr *> table;
  size_t count = 0;
  u32 nextId = 0;
  char * arena = nullptr;
  size_t arenaLeft = 0;
  Pool() { table.resize(1 << 16, nullptr); }
  Expr * alloc()
  {
    if (arenaLeft < sizeof(Expr))
    {
      arenaLeft = 1 << 20;
      arena = (char *)aligned_alloc(16, arenaLeft);
    }
    Expr * e = (Expr *)arena;
    arena += (sizeof(Expr) + 15) & ~15ul;
    arenaLeft -= (sizeof(Expr) + 15) & ~15ul;
    return e;
  }
  static u64 mix(u64 h, u64 v)
  {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdull;
  }
  void grow()
  {
    std::vector<Expr *> n(table.size() * 2, nullptr);
    size_t m = n.size() - 1;
    for (auto e : table)
      if (e)
      {
        size_t i = e->hash & m;
        while (n[i]) i = (i + 1) & m;
        n[i] = e;
      }
    table.swap(n);
  }
  Expr * get(K k, unsigned w, Expr * a, Expr * b, Expr * c, u128 val)
  {
    u64 h = mix(mix(mix(mix(mix((u64)k * 131 + w, (u64)a), (u64)b), (u64)c), (u64)val), (u64)(val >> 64));
    h ^= h >> 29;
    size_t m = table.size() - 1;
    size_t i = h & m;
    while (table[i])
    {
      Expr * e = table[i];
      if (e->hash == h && e->k == k && e->w == w && e->a == a && e->b == b && e->c == c && e->val == val)
        return e;
      i = (i + 1) & m;
    }
    if (count * 2 > table.size())
    {
      grow();
      m = table.size() - 1;
      i = h & m;
      while (table[i]) i = (i + 1) & m;
    }
    Expr * e = alloc();
    memset((void *)e, 0, sizeof(Expr));
    e->k = k; e->w = w; e->a = a; e->b = b; e->c = c; e->val = val; e->hash = h; e->id = nextId++;
    u32 d = 0;
    if (a && a->depth > d) d = a->depth;
    if (b && b->depth > d) d = b->depth;
    if (c && c->depth > d) d = c->depth;
    e->depth = d + 1;
    e->hard = (a && a->hard) || (b && b->hard) || (c && c->hard)
        || ((k == K::UDiv || k == K::URem || k == K::SDiv || k == K::SRem) && w > 4)
        || (k == K::Mul && a->k != K::Const && b->k != K::Const && w > 4);
    table[i] = e;
    count++;
    known(e);
    return e;
  }
  void known(Expr * e)
  {
    u128 m = maskw(e->w);
    switch (e->k)
    {
    case K::Const: e->ko = e->val; e->kz = ~e->val & m; break;
    case K::And: e->ko = e->a->ko & e->b->ko; e->kz = e->a->kz | e->b->kz; break;
    case K::Or: e->ko = e->a->ko | e->b->ko; e->kz = e->a->kz & e->b->kz; break;
    case K::Xor:
      e->ko = (e->a->ko & e->b->kz) | (e->a->kz & e->b->ko);
      e->kz = (e->a->kz & e->b->kz) | (e->a->ko & e->b->ko);
      break;
    case K::Ite: e->ko = e->b->ko & e->c->ko; e->kz = e->b->kz & e->c->kz; break;
    case K::ZExt: e->ko = e->a->ko; e->kz = e->a->kz | (m & ~maskw(e->a->w)); break;
    case K::SExt:
    {
      u128 top = m & ~maskw(e->a->w);
      u128 s = (u128)1 << (e->a->w - 1);
      e->ko = e->a->ko; e->kz = e->a->kz;
      if (e->a->kz & s) e->kz |= top;
      if (e->a->ko & s) e->ko |= top;
      break;
    }
    case K::Extract: e->ko = (e->a->ko >> (unsigned)e->val) & m; e->kz = (e->a->kz >> (unsigned)e->val) & m; break;
    case K::Concat:
      e->ko = (e->a->ko << e->b->w) | e->b->ko;
      e->kz = (e->a->kz << e->b->w) | e->b->kz;
      break;
    case K::Shl:
      if (e->b->k == K::Const && e->b->val < e->w)
      {
        unsigned s = (unsigned)e->b->val;
        e->ko = (e->a->ko << s) & m; e->kz = ((e->a->kz << s) | maskw(s)) & m;
        if (s == 0) e->kz = e->a->kz;
      }
      break;
    case K::LShr:
      if (e->b->k == K::Const && e->b->val < e->w)
      {
        unsigned s = (unsigned)e->b->val;
        e->ko = e->a->ko >> s; e->kz = (e->a->kz >> s) | (m & ~(m >> s));
      }
      break;
    case K::Add:
    {
      // upper bound on leading zeros
      u128 ma = ~e->a->kz & m, mb = ~e->b->kz & m;
      u128 mx = ma + mb;
      if (mx >= ma && mx <= m) // no overflow possible: result <= mx
      {
        unsigned bits = 0;
        while (bits < e->w && (mx >> bits)) bits++;
        e->kz = m & ~maskw(bits);
      }
      // trailing known bits
      u128 ka = e->a->kz | e->a->ko, kb = e->b->kz | e->b->ko;
      unsigned t = 0;
      while (t < e->w && ((ka & kb) >> t & 1)) t++;
      if (t)
      {
        u128 s = (e->a->ko + e->b->ko) & maskw(t);
        e->ko |= s; e->kz |= ~s & maskw(t);
      }
      break;
    }
    case K::URem:
      if (e->b->k == K::Const && e->b->val)
      {
        unsigned bits = 0; u128 mx = e->b->val - 1;
        while (bits < e->w && (mx >> bits)) bits++;
        e->kz = m & ~maskw(bits);
      }
      break;
    case K::UDiv:
    {
      // result <= a unless b==0 (all ones)
      if (e->b->k == K::Const && e->b->val)
      {
        u128 mx = (~e->a->kz & m) / e->b->val;
        unsigned bits = 0;
        while (bits < e->w && (mx >> bits)) bits++;
        e->kz = m & ~maskw(bits);
      }
      break;
    }
    default: break;
    }
  }
};

extern Pool pool;

static inline Expr * mkC(u128 v, unsigned w) { return pool.get(K::Const, w, 0, 0, 0, v & maskw(w)); }
static inline bool isC(Expr * e) { return e->k == K::Const; }
static inline bool isC(Expr * e, u128 v) { return e->k == K::Const && e->val == (v & maskw(e->w)); }
static inline Expr * mkTrue() { return mkC(1, 1); }
static inline Expr * mkFalse() { return mkC(0, 1); }
static inline Expr * mkVar(u32 idx, unsigned w) { return pool.get(K::Var, w, 0, 0, 0, idx); }

Expr * mkIte(Expr * c, Expr * a, Expr * b);
Expr * mkBin(K k, Expr * a, Expr * b);
Expr * mkZExt(Expr * a, unsigned w);
Expr * mkSExt(Expr * a, unsigned w);
Expr * mkExtract(Expr * a, unsigned lo, unsigned w);
Expr * mkConcat(Expr * hi, Expr * lo);
Expr * mkEq(Expr * a, Expr * b);
Expr * mkCmp(K k, Expr * a, Expr * b);
static inline Expr * mkNot(Expr * a) { return mkBin(K::Xor, a, mkC(~(u128)0, a->w)); }
static inline Expr * mkAnd(Expr * a, Expr * b) { return mkBin(K::And, a, b); }
static inline Expr * mkOr(Expr * a, Expr * b) { return mkBin(K::Or, a, b); }
u128 foldBin(K k, u128 a, u128 b, unsigned w);
u128 evalExpr(Expr * e, const std::vector<u128> & model, u32 epoch);
const std::vector<u32> & varsOf(Expr * e);
std::string exprStr(Expr * e, int depth = 6);
Z3_ast toZ3Bool(Z3_context ctx, Expr * e);
Z3_ast toZ3BV(Z3_context ctx, Expr * e);
