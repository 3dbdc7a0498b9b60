#include "expr.hpp"
#include <algorithm>

Pool pool;

u128 foldBin(K k, u128 a, u128 b, unsigned w)
{
  u128 m = maskw(w);
  switch (k)
  {
  case K::Add: return (a + b) & m;
  case K::Sub: return (a - b) & m;
  case K::Mul: return (a * b) & m;
  case K::UDiv: return b == 0 ? m : a / b;
  case K::URem: return b == 0 ? a : a % b;
  case K::SDiv:
  {
    i128 x = sx(a, w), y = sx(b, w);
    if (y == 0) return x < 0 ? 1 : m;
    if (y == -1) return (u128)(0 - (u128)x) & m;
    return (u128)(x / y) & m;
  }
  case K::SRem:
  {
    i128 x = sx(a, w), y = sx(b, w);
    if (y == 0) return a;
    if (y == -1) return 0;
    return (u128)(x % y) & m;
  }
  case K::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
  case K::LShr: return b >= w ? 0 : a >> (unsigned)b;
  case K::AShr: return (u128)(sx(a, w) >> (unsigned)(b >= w ? w - 1 : b)) & m;
  case K::And: return a & b;
  case K::Or: return a | b;
  case K::Xor: return a ^ b;
  case K::Eq: return a == b;
  case K::Ult: return a < b;
  case K::Ule: return a <= b;
  case K::Slt: return sx(a, w) < sx(b, w);
  case K::Sle: return sx(a, w) <= sx(b, w);
  default: abort();
  }
}

static inline Expr * raw(K k, unsigned w, Expr * a, Expr * b = 0, Expr * c = 0, u128 v = 0)
{
  return pool.get(k, w, a, b, c, v);
}

static Expr * fin(Expr * e)
{
  // fully known -> constant
  if (e->k != K::Const && (e->kz | e->ko) == maskw(e->w))
    return mkC(e->ko, e->w);
  return e;
}

Expr * mkZExt(Expr * a, unsigned w)
{
  if (w == a->w) return a;
  if (w < a->w) return mkExtract(a, 0, w);
  if (isC(a)) return mkC(a->val, w);
  if (a->k == K::ZExt) return mkZExt(a->a, w);
  if (a->k == K::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  return fin(raw(K::ZExt, w, a));
}

Expr * mkSExt(Expr * a, unsigned w)
{
  if (w == a->w) return a;
  if (w < a->w) return mkExtract(a, 0, w);
  if (isC(a)) return mkC((u128)sx(a->val, a->w), w);
  if (a->k == K::SExt) return mkSExt(a->a, w);
  u128 s = (u128)1 << (a->w - 1);
  if (a->kz & s) return mkZExt(a, w);
  if (a->k == K::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return fin(raw(K::SExt, w, a));
}

// bits needed to hold the value, unsigned and signed
static unsigned sigBits(Expr * e)
{
  unsigned n = e->w;
  while (n > 1 && ((e->kz >> (n - 1)) & 1)) n--;
  return n;
}
static unsigned signedBits(Expr * e, int depth)
{
  unsigned n = sigBits(e);
  n = n < e->w ? n + 1 : n;
  if (e->k == K::SExt) n = std::min(n, signedBits(e->a, depth));
  else if (e->k == K::Const)
  {
    unsigned k = e->w;
    while (k > 1 && (((e->val >> (k - 1)) & 1) == ((e->val >> (k - 2)) & 1))) k--;
    n = std::min(n, k);
  }
  else if (e->k == K::Ite && depth > 0) n = std::min(n, std::max(signedBits(e->b, depth - 1), signedBits(e->c, depth - 1)));
  return n;
}

Expr * mkExtract(Expr * a, unsigned lo, unsigned w)
{
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkC(a->val >> lo, w);
  switch (a->k)
  {
  case K::Extract: return mkExtract(a->a, lo + (unsigned)a->val, w);
  case K::ZExt:
    if (lo >= a->a->w) return mkC(0, w);
    if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
    return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
  case K::SExt:
    if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
    if (lo < a->a->w) return mkSExt(mkExtract(a->a, lo, a->a->w - lo), w);
    return mkSExt(mkExtract(a->a, a->a->w - 1, 1), w);
  case K::Concat:
    if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
    if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
    return mkConcat(mkExtract(a->a, 0, w - (a->b->w - lo)), mkExtract(a->b, lo, a->b->w - lo));
  case K::And: case K::Or: case K::Xor:
    if (isC(a->b) || w == 1) return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    break;
  case K::Ite:
    if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    break;
  case K::Add: case K::Sub: case K::Mul:
    if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  case K::Shl:
    if (isC(a->b))
    {
      unsigned s = (unsigned)a->b->val;
      if (a->b->val >= a->w) return mkC(0, w);
      if (lo >= s) return mkExtract(a->a, lo - s, w);
      if (lo + w <= s) return mkC(0, w);
    }
    break;
  case K::LShr:
    if (isC(a->b))
    {
      if (a->b->val >= a->w) return mkC(0, w);
      unsigned s = (unsigned)a->b->val;
      if (lo + s + w <= a->w) return mkExtract(a->a, lo + s, w);
      if (lo + s >= a->w) return mkC(0, w);
      return mkZExt(mkExtract(a->a, lo + s, a->w - lo - s), w);
    }
    break;
  default: break;
  }
  return fin(raw(K::Extract, w, a, 0, 0, lo));
}

Expr * mkConcat(Expr * hi, Expr * lo)
{
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkC((hi->val << lo->w) | lo->val, w);
  if (isC(hi, 0)) return mkZExt(lo, w);
  // adjacent extracts
  if (hi->k == K::Extract && lo->k == K::Extract && hi->a == lo->a && hi->val == lo->val + lo->w)
    return mkExtract(hi->a, (unsigned)lo->val, w);
  if (lo->k == K::Concat && hi->k == K::Extract && lo->a->k == K::Extract && lo->a->a == hi->a
      && hi->val == lo->a->val + lo->a->w)
    return mkConcat(mkExtract(hi->a, (unsigned)lo->a->val, hi->w + lo->a->w), lo->b);
  if (hi->k == K::Concat && isC(hi->b) && isC(lo)) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (isC(hi) && lo->k == K::Concat && isC(lo->a)) return mkConcat(mkConcat(hi, lo->a), lo->b);
  if (hi->k == K::Extract && lo->k == K::ZExt && false) return nullptr;
  // sign pieces: concat(extract of sext top..) handled poorly; ite-of-constants
  if (hi->k == K::Ite && lo->k == K::Ite && hi->a == lo->a)
    return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  if (hi->k == K::Ite && isC(hi->b) && isC(hi->c) && isC(lo))
    return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
  if (lo->k == K::Ite && isC(lo->b) && isC(lo->c) && isC(hi))
    return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
  return fin(raw(K::Concat, w, hi, lo));
}

Expr * mkIte(Expr * c, Expr * a, Expr * b)
{
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  if (a->w == 1)
  {
    if (isC(a) && isC(b)) return a->val ? c : mkNot(c);
    if (isC(a, 1)) return mkOr(c, b);
    if (isC(a, 0)) return mkAnd(mkNot(c), b);
    if (isC(b, 0)) return mkAnd(c, a);
    if (isC(b, 1)) return mkOr(mkNot(c), a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
  }
  if (c->k == K::Xor && isC(c->b, 1)) return mkIte(c->a, b, a);
  if (a->k == K::Ite && a->a == c) a = a->b;
  if (b->k == K::Ite && b->a == c) b = b->c;
  if (a == b) return a;
  if (a->k == K::Ite && a->c == b) return mkIte(mkAnd(c, a->a), a->b, b);
  if (a->k == K::Ite && a->b == b) return mkIte(mkAnd(c, mkNot(a->a)), a->c, b);
  if (b->k == K::Ite && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
  if (b->k == K::Ite && b->c == a) return mkIte(mkOr(c, mkNot(b->a)), a, b->b);
  return fin(raw(K::Ite, a->w, c, a, b));
}

static bool isNotOf(Expr * a, Expr * b)
{
  return (a->k == K::Xor && a->a == b && isC(a->b, ~(u128)0)) || (b->k == K::Xor && b->a == a && isC(b->b, ~(u128)0));
}

Expr * mkEq(Expr * a, Expr * b)
{
  if (a == b) return mkTrue();
  if (isC(a) && isC(b)) return mkC(a->val == b->val, 1);
  if (isC(a)) std::swap(a, b);
  if ((a->ko & b->kz) || (a->kz & b->ko)) return mkFalse();
  if (a->w == 1)
  {
    if (isC(b)) return b->val ? a : mkNot(a);
    return mkNot(mkBin(K::Xor, a, b));
  }
  if (isC(b))
  {
    switch (a->k)
    {
    case K::ZExt: return mkEq(a->a, mkC(b->val, a->a->w));
    case K::SExt:
    {
      Expr * t = mkC(b->val, a->a->w);
      if (mkSExt(t, a->w) != b) return mkFalse();
      return mkEq(a->a, t);
    }
    case K::Ite:
      if (isC(a->b) || isC(a->c))
        return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
      if (a->b->k == K::Ite || a->c->k == K::Ite)
      {
        Expr * x = mkEq(a->b, b);
        Expr * y = mkEq(a->c, b);
        if (isC(x) || isC(y)) return mkIte(a->a, x, y);
      }
      break;
    case K::Concat:
      return mkAnd(mkEq(a->a, mkC(b->val >> a->b->w, a->a->w)), mkEq(a->b, mkC(b->val, a->b->w)));
    case K::Xor:
      if (isC(a->b)) return mkEq(a->a, mkC(a->b->val ^ b->val, a->w));
      break;
    case K::Add:
      if (isC(a->b)) return mkEq(a->a, mkC(b->val - a->b->val, a->w));
      break;
    case K::Sub:
      if (isC(a->a)) return mkEq(a->b, mkC(a->a->val - b->val, a->w));
      if (b->val == 0) return mkEq(a->a, a->b);
      break;
    default: break;
    }
  }
  else
  {
    if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->k == K::Concat && b->k == K::Concat && a->b->w == b->b->w)
      return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
    if (a->k == K::Ite && b->k == K::Ite && a->a == b->a)
      return mkIte(a->a, mkEq(a->b, b->b), mkEq(a->c, b->c));
    if (a->k == K::Ite && (a->b == b || a->c == b))
      return a->b == b ? mkIte(a->a, mkTrue(), mkEq(a->c, b)) : mkIte(a->a, mkEq(a->b, b), mkTrue());
    if (b->k == K::Ite && (b->b == a || b->c == a))
      return b->b == a ? mkIte(b->a, mkTrue(), mkEq(b->c, a)) : mkIte(b->a, mkEq(b->b, a), mkTrue());
    if (a->k == K::Add && b->k == K::Add && a->a == b->a) return mkEq(a->b, b->b);
    if (a->id > b->id) std::swap(a, b);
  }
  return fin(raw(K::Eq, 1, a, b));
}

Expr * mkCmp(K k, Expr * a, Expr * b)
{
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkC(foldBin(k, a->val, b->val, w), 1);
  if (a == b) return mkC(k == K::Ule || k == K::Sle, 1);
  if (k == K::Slt || k == K::Sle)
  {
    u128 s = (u128)1 << (w - 1);
    bool az = (a->kz & s) != 0, ao = (a->ko & s) != 0, bz = (b->kz & s) != 0, bo = (b->ko & s) != 0;
    if ((az && bz) || (ao && bo)) k = k == K::Slt ? K::Ult : K::Ule;
    else if (ao && bz) return mkTrue();
    else if (az && bo) return mkFalse();
  }
  if (k == K::Ult || k == K::Ule)
  {
    u128 m = maskw(w);
    u128 amin = a->ko, amax = ~a->kz & m, bmin = b->ko, bmax = ~b->kz & m;
    if (k == K::Ult)
    {
      if (amax < bmin) return mkTrue();
      if (amin >= bmax) return mkFalse();
      if (isC(b, 1)) return mkEq(a, mkC(0, w));
      if (isC(a, 0)) return mkNot(mkEq(b, a));
    }
    else
    {
      if (amax <= bmin) return mkTrue();
      if (amin > bmax) return mkFalse();
      if (isC(b, 0)) return mkEq(a, b);
    }
    if (w == 1)
      return k == K::Ult ? mkAnd(mkNot(a), b) : mkOr(mkNot(a), b);
    if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkCmp(k, a->a, b->a);
    if (a->k == K::ZExt && isC(b) && b->val <= maskw(a->a->w)) return mkCmp(k, a->a, mkC(b->val, a->a->w));
    if (b->k == K::ZExt && isC(a) && a->val <= maskw(b->a->w)) return mkCmp(k, mkC(a->val, b->a->w), b->a);
  }
  else
  {
    if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkCmp(k, a->a, b->a);
    if (w == 1)
      return k == K::Slt ? mkAnd(a, mkNot(b)) : mkOr(a, mkNot(b));
  }
  if (a->k == K::Ite && isC(b) && (isC(a->b) || isC(a->c)))
    return mkIte(a->a, mkCmp(k, a->b, b), mkCmp(k, a->c, b));
  if (b->k == K::Ite && isC(a) && (isC(b->b) || isC(b->c)))
    return mkIte(b->a, mkCmp(k, a, b->b), mkCmp(k, a, b->c));
  return fin(raw(k, 1, a, b));
}

Expr * mkBin(K k, Expr * a, Expr * b)
{
  unsigned w = a->w;
  if (k == K::Eq) return mkEq(a, b);
  if (k >= K::Ult && k <= K::Sle) return mkCmp(k, a, b);
  if (isC(a) && isC(b)) return mkC(foldBin(k, a->val, b->val, w), w);
  u128 m = maskw(w);
  switch (k)
  {
  case K::Add:
    if (w == 1) return mkBin(K::Xor, a, b);
    if (isC(a)) std::swap(a, b);
    if (isC(b, 0)) return a;
    if (isC(b))
    {
      if (a->k == K::Add && isC(a->b)) return mkBin(K::Add, a->a, mkC(a->b->val + b->val, w));
      if (a->k == K::Sub && isC(a->a)) return mkBin(K::Sub, mkC(a->a->val + b->val, w), a->b);
      if (a->k == K::Ite && isC(a->b) && isC(a->c))
        return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    }
    else
    {
      // normalise constants outward: (x + c) + y -> (x + y) + c
      if (a->k == K::Add && isC(a->b)) return mkBin(K::Add, mkBin(K::Add, a->a, b), a->b);
      if (b->k == K::Add && isC(b->b)) return mkBin(K::Add, mkBin(K::Add, a, b->a), b->b);
      if (a->k == K::Sub && a->b == b) return a->a;
      if (b->k == K::Sub && b->b == a) return b->a;
      if (a->id > b->id) std::swap(a, b);
    }
    // disjoint bits -> or
    if (((~a->kz & m) & (~b->kz & m)) == 0) return mkBin(K::Or, a, b);
    break;
  case K::Sub:
    if (w == 1) return mkBin(K::Xor, a, b);
    if (a == b) return mkC(0, w);
    if (isC(b)) return mkBin(K::Add, a, mkC(-b->val, w));
    if (a->k == K::Add && a->a == b) return a->b;
    if (a->k == K::Add && a->b == b) return a->a;
    if (a->k == K::Add && isC(a->b) && b->k == K::Add && isC(b->b))
      return mkBin(K::Add, mkBin(K::Sub, a->a, b->a), mkC(a->b->val - b->b->val, w));
    if (b->k == K::Add && isC(b->b)) return mkBin(K::Add, mkBin(K::Sub, a, b->a), mkC(-b->b->val, w));
    if (a->k == K::Add && isC(a->b)) return mkBin(K::Add, mkBin(K::Sub, a->a, b), a->b);
    if (isC(a, 0) && b->k == K::Sub) return mkBin(K::Sub, b->b, b->a);
    break;
  case K::Mul:
    if (w == 1) return mkAnd(a, b);
    if (isC(a)) std::swap(a, b);
    if (isC(b))
    {
      if (b->val == 0) return b;
      if (b->val == 1) return a;
      if ((b->val & (b->val - 1)) == 0)
      {
        unsigned s = 0;
        while (!((b->val >> s) & 1)) s++;
        return mkBin(K::Shl, a, mkC(s, w));
      }
      if (a->k == K::Ite && isC(a->b) && isC(a->c))
        return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    }
    else if (a->id > b->id) std::swap(a, b);
    break;
  case K::UDiv:
    if (isC(b, 1)) return a;
    if (unsigned n = std::max(sigBits(a), sigBits(b)); n < w && !isC(b, 0))
    {
      Expr * q = mkZExt(mkBin(k, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
      return mkIte(mkEq(b, mkC(0, w)), mkC(m, w), q);
    }
    if (isC(b) && b->val && (b->val & (b->val - 1)) == 0)
    {
      unsigned s = 0;
      while (!((b->val >> s) & 1)) s++;
      return mkBin(K::LShr, a, mkC(s, w));
    }
    break;
  case K::URem:
    if (isC(b, 1)) return mkC(0, w);
    if (unsigned n = std::max(sigBits(a), sigBits(b)); n < w) return mkZExt(mkBin(k, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
    if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkAnd(a, mkC(b->val - 1, w));
    break;
  case K::SDiv:
    if (isC(b, 1)) return a;
    // one bit more than the operands need: the quotient of the smallest value by -1 fits
    if (unsigned n = std::max(signedBits(a, 6), signedBits(b, 6)) + 1; n < w)
      return mkSExt(mkBin(k, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
    break;
  case K::SRem:
    if (isC(b, 1)) return mkC(0, w);
    // one bit more than the operands need: the quotient of the smallest value by -1 fits
    if (unsigned n = std::max(signedBits(a, 6), signedBits(b, 6)) + 1; n < w)
      return mkSExt(mkBin(k, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
    break;
  case K::Shl:
    if (isC(b, 0)) return a;
    if (isC(b) && b->val >= w) return mkC(0, w);
    if (isC(b) && a->k == K::Shl && isC(a->b) && a->b->val + b->val < w)
      return mkBin(K::Shl, a->a, mkC(a->b->val + b->val, w));
    if (isC(b) && a->k == K::Ite && isC(a->b) && isC(a->c))
      return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    break;
  case K::LShr:
    if (isC(b, 0)) return a;
    if (isC(b) && b->val >= w) return mkC(0, w);
    if (isC(b)) // zext(extract)
      return mkZExt(mkExtract(a, (unsigned)b->val, w - (unsigned)b->val), w);
    break;
  case K::AShr:
    if (isC(b, 0)) return a;
    if (isC(b))
    {
      unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
      return mkSExt(mkExtract(a, s, w - s), w);
    }
    break;
  case K::And:
    if (isC(a)) std::swap(a, b);
    if (a == b) return a;
    if (isC(b, 0)) return b;
    if (isC(b, m)) return a;
    if (isNotOf(a, b)) return mkC(0, w);
    if (isC(b))
    {
      if (a->k == K::And && isC(a->b)) return mkAnd(a->a, mkC(a->b->val & b->val, w));
      if ((~a->kz & m & ~b->val) == 0) return a; // masks nothing
      if (a->k == K::Ite && isC(a->b) && isC(a->c))
        return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
      // low mask -> zext(extract)
      if (((b->val + 1) & b->val) == 0)
      {
        unsigned s = 0;
        while ((b->val >> s) & 1) s++;
        return mkZExt(mkExtract(a, 0, s), w);
      }
      if (a->k == K::ZExt) return mkZExt(mkAnd(a->a, mkC(b->val, a->a->w)), w);
      if (a->k == K::Concat) return mkConcat(mkAnd(a->a, mkC(b->val >> a->b->w, a->a->w)), mkAnd(a->b, mkC(b->val, a->b->w)));
    }
    else
    {
      if (a->k == K::And && (a->a == b || a->b == b)) return a;
      if (b->k == K::And && (b->a == a || b->b == a)) return b;
      if (w == 1)
      {
        if (a->k == K::Or && (a->a == b || a->b == b)) return b;
        if (b->k == K::Or && (b->a == a || b->b == a)) return a;
        if (a->k == K::And && (isNotOf(a->a, b) || isNotOf(a->b, b))) return mkFalse();
        if (b->k == K::And && (isNotOf(b->a, a) || isNotOf(b->b, a))) return mkFalse();
        // eq(x,c1) & eq(x,c2)
        if (a->k == K::Eq && b->k == K::Eq && a->a == b->a && isC(a->b) && isC(b->b) && a->b != b->b) return mkFalse();
      }
      if (a->id > b->id) std::swap(a, b);
    }
    break;
  case K::Or:
    if (isC(a)) std::swap(a, b);
    if (a == b) return a;
    if (isC(b, 0)) return a;
    if (isC(b, m)) return b;
    if (isNotOf(a, b)) return mkC(m, w);
    if (isC(b))
    {
      if (a->k == K::Or && isC(a->b)) return mkOr(a->a, mkC(a->b->val | b->val, w));
      if (a->k == K::Ite && isC(a->b) && isC(a->c))
        return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
      if (a->k == K::ZExt) // or of constant into zext: concat
        return mkConcat(mkC(b->val >> a->a->w, w - a->a->w), mkOr(a->a, mkC(b->val, a->a->w)));
    }
    else
    {
      if (a->k == K::Or && (a->a == b || a->b == b)) return a;
      if (b->k == K::Or && (b->a == a || b->b == a)) return b;
      if (w == 1)
      {
        if (a->k == K::And && (a->a == b || a->b == b)) return b;
        if (b->k == K::And && (b->a == a || b->b == a)) return a;
        if (a->k == K::And && isNotOf(a->a, b)) return mkOr(a->b, b);
        if (a->k == K::And && isNotOf(a->b, b)) return mkOr(a->a, b);
        if (b->k == K::And && isNotOf(b->a, a)) return mkOr(b->b, a);
        if (b->k == K::And && isNotOf(b->b, a)) return mkOr(b->a, a);
      }
      // (zext lo) | (shl (zext hi) k) -> concat
      for (int t = 0; t < 2; t++)
      {
        if (a->k == K::ZExt && b->k == K::Shl && isC(b->b) && b->b->val >= a->a->w && b->b->val < w)
        {
          unsigned s = (unsigned)b->b->val;
          return mkConcat(mkExtract(b->a, 0, w - s), mkZExt(a->a, s));
        }
        std::swap(a, b);
      }
      if (a->id > b->id) std::swap(a, b);
    }
    break;
  case K::Xor:
    if (isC(a)) std::swap(a, b);
    if (a == b) return mkC(0, w);
    if (isC(b, 0)) return a;
    if (isC(b))
    {
      if (a->k == K::Xor && isC(a->b)) return mkBin(K::Xor, a->a, mkC(a->b->val ^ b->val, w));
      if (a->k == K::Ite && isC(a->b) && isC(a->c))
        return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
      if (w == 1 && b->val == 1)
      {
        if (a->k == K::Ult) return mkCmp(K::Ule, a->b, a->a);
        if (a->k == K::Ule) return mkCmp(K::Ult, a->b, a->a);
        if (a->k == K::Slt) return mkCmp(K::Sle, a->b, a->a);
        if (a->k == K::Sle) return mkCmp(K::Slt, a->b, a->a);
      }
      if (a->k == K::ZExt) // xor constant into zext
      {
        Expr * lo = mkBin(K::Xor, a->a, mkC(b->val, a->a->w));
        return mkConcat(mkC(b->val >> a->a->w, w - a->a->w), lo);
      }
    }
    else
    {
      if (isNotOf(a, b)) return mkC(m, w);
      if (a->k == K::Xor && isC(a->b)) return mkBin(K::Xor, mkBin(K::Xor, a->a, b), a->b);
      if (b->k == K::Xor && isC(b->b)) return mkBin(K::Xor, mkBin(K::Xor, a, b->a), b->b);
      if (a->k == K::Xor && a->a == b) return a->b;
      if (a->k == K::Xor && a->b == b) return a->a;
      if (b->k == K::Xor && b->a == a) return b->b;
      if (b->k == K::Xor && b->b == a) return b->a;
      if (a->id > b->id) std::swap(a, b);
    }
    break;
  default: break;
  }
  return fin(raw(k, w, a, b));
}

u128 evalExpr(Expr * e, const std::vector<u128> & model, u32 epoch)
{
  if (e->k == K::Const) return e->val;
  if (e->evalEpoch == epoch) return e->evalVal;
  u128 r = 0;
  switch (e->k)
  {
  case K::Var: r = e->val < model.size() ? model[(size_t)e->val] & maskw(e->w) : 0; break;
  case K::Ite: r = evalExpr(e->a, model, epoch) ? evalExpr(e->b, model, epoch) : evalExpr(e->c, model, epoch); break;
  case K::ZExt: r = evalExpr(e->a, model, epoch); break;
  case K::SExt: r = (u128)sx(evalExpr(e->a, model, epoch), e->a->w) & maskw(e->w); break;
  case K::Extract: r = (evalExpr(e->a, model, epoch) >> (unsigned)e->val) & maskw(e->w); break;
  case K::Concat: r = (evalExpr(e->a, model, epoch) << e->b->w) | evalExpr(e->b, model, epoch); break;
  default: r = foldBin(e->k, evalExpr(e->a, model, epoch), evalExpr(e->b, model, epoch), e->a->w); break;
  }
  e->evalEpoch = epoch;
  e->evalVal = r;
  return r;
}

const std::vector<u32> & varsOf(Expr * e)
{
  static const std::vector<u32> empty;
  if (e->k == K::Const) return empty;
  if (e->vars) return *e->vars;
  if (e->k == K::Var)
  {
    e->vars = new std::vector<u32>{ (u32)e->val };
    return *e->vars;
  }
  const std::vector<u32> * ch[3];
  int n = 0;
  for (Expr * x : { e->a, e->b, e->c })
    if (x)
    {
      auto & v = varsOf(x);
      if (!v.empty()) ch[n++] = &v;
    }
  if (n == 0) { e->vars = new std::vector<u32>(); return *e->vars; }
  const std::vector<u32> * big = ch[0];
  for (int i = 1; i < n; i++) if (ch[i]->size() > big->size()) big = ch[i];
  bool all = true;
  for (int i = 0; i < n && all; i++)
    if (ch[i] != big && !std::includes(big->begin(), big->end(), ch[i]->begin(), ch[i]->end())) all = false;
  if (all) { e->vars = const_cast<std::vector<u32> *>(big); return *e->vars; }
  std::vector<u32> r = *ch[0];
  for (int i = 1; i < n; i++)
  {
    std::vector<u32> t;
    std::set_union(r.begin(), r.end(), ch[i]->begin(), ch[i]->end(), std::back_inserter(t));
    r.swap(t);
  }
  e->vars = new std::vector<u32>(std::move(r));
  return *e->vars;
}

static std::string hex(u128 v)
{
  if (v == 0) return "0";
  std::string s;
  while (v) { s.insert(s.begin(), "0123456789abcdef"[(unsigned)(v & 15)]); v >>= 4; }
  return "0x" + s;
}

std::string exprStr(Expr * e, int d)
{
  static const char * names[] = { "const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr",
    "ashr", "and", "or", "xor", "eq", "ult", "ule", "slt", "sle", "ite", "zext", "sext", "extract", "concat" };
  if (e->k == K::Const) return hex(e->val) + ":" + std::to_string(e->w);
  if (e->k == K::Var) return "v" + std::to_string((u32)e->val) + ":" + std::to_string(e->w);
  if (d == 0) return "...";
  std::string s = std::string("(") + names[(int)e->k];
  if (e->k == K::Extract) s += "[" + std::to_string((u32)e->val) + "+" + std::to_string(e->w) + "]";
  if (e->k == K::ZExt || e->k == K::SExt) s += std::to_string(e->w);
  for (Expr * x : { e->a, e->b, e->c }) if (x) s += " " + exprStr(x, d - 1);
  return s + ")";
}


// The context is reference counted: every AST made here is kept alive for the process' lifetime.
#include <cstring>
static inline Z3_ast keep(Z3_context ctx, Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static Z3_sort bvSort(Z3_context ctx, unsigned w)
{
  static Z3_sort cache[4097];
  static Z3_context cc;
  if (cc != ctx) { memset(cache, 0, sizeof cache); cc = ctx; }
  if (w <= 4096 && cache[w]) return cache[w];
  Z3_sort s = Z3_mk_bv_sort(ctx, w);
  Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, s));
  if (w <= 4096) cache[w] = s;
  return s;
}

#define KEEP(x) keep(ctx, (x))
static Z3_ast constBV(Z3_context ctx, u128 v, unsigned w)
{
  if (w <= 64) return KEEP(Z3_mk_unsigned_int64(ctx, (u64)v, bvSort(ctx, w)));
  Z3_ast hi = KEEP(Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), bvSort(ctx, w - 64)));
  Z3_ast lo = KEEP(Z3_mk_unsigned_int64(ctx, (u64)v, bvSort(ctx, 64)));
  return KEEP(Z3_mk_concat(ctx, hi, lo));
}

static Z3_ast conv(Z3_context ctx, Expr * e);

Z3_ast toZ3Bool(Z3_context ctx, Expr * e)
{
  if (e->w != 1) abort();
  return conv(ctx, e);
}

static Z3_ast bit(Z3_context ctx, Z3_ast b)
{
  return KEEP(Z3_mk_ite(ctx, b, constBV(ctx, 1, 1), constBV(ctx, 0, 1)));
}

Z3_ast toZ3BV(Z3_context ctx, Expr * e)
{
  Z3_ast r = conv(ctx, e);
  if (e->w == 1) r = bit(ctx, r);
  return r;
}

// width-1 expressions are represented as Bool in Z3
static Z3_ast conv(Z3_context ctx, Expr * e)
{
  if (e->z3) return e->z3;
  Z3_ast r = nullptr;
  unsigned w = e->w;
  auto B = [&](Expr * x) { return toZ3Bool(ctx, x); };
  auto V = [&](Expr * x) { return toZ3BV(ctx, x); };
  switch (e->k)
  {
  case K::Const:
    r = w == 1 ? (e->val ? KEEP(Z3_mk_true(ctx)) : KEEP(Z3_mk_false(ctx))) : constBV(ctx, e->val, w);
    break;
  case K::Var:
  {
    std::string n = "v" + std::to_string((u32)e->val);
    r = KEEP(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), w == 1 ? Z3_mk_bool_sort(ctx) : bvSort(ctx, w)));
    break;
  }
  case K::Add: r = KEEP(Z3_mk_bvadd(ctx, V(e->a), V(e->b))); break;
  case K::Sub: r = KEEP(Z3_mk_bvsub(ctx, V(e->a), V(e->b))); break;
  case K::Mul: r = KEEP(Z3_mk_bvmul(ctx, V(e->a), V(e->b))); break;
  case K::UDiv: r = KEEP(Z3_mk_bvudiv(ctx, V(e->a), V(e->b))); break;
  case K::SDiv: r = KEEP(Z3_mk_bvsdiv(ctx, V(e->a), V(e->b))); break;
  case K::URem: r = KEEP(Z3_mk_bvurem(ctx, V(e->a), V(e->b))); break;
  case K::SRem: r = KEEP(Z3_mk_bvsrem(ctx, V(e->a), V(e->b))); break;
  case K::Shl: r = KEEP(Z3_mk_bvshl(ctx, V(e->a), V(e->b))); break;
  case K::LShr: r = KEEP(Z3_mk_bvlshr(ctx, V(e->a), V(e->b))); break;
  case K::AShr: r = KEEP(Z3_mk_bvashr(ctx, V(e->a), V(e->b))); break;
  case K::And:
    if (w == 1) { Z3_ast x[2] = { B(e->a), B(e->b) }; r = KEEP(Z3_mk_and(ctx, 2, x)); }
    else r = KEEP(Z3_mk_bvand(ctx, V(e->a), V(e->b)));
    break;
  case K::Or:
    if (w == 1) { Z3_ast x[2] = { B(e->a), B(e->b) }; r = KEEP(Z3_mk_or(ctx, 2, x)); }
    else r = KEEP(Z3_mk_bvor(ctx, V(e->a), V(e->b)));
    break;
  case K::Xor:
    if (w == 1) r = isC(e->b, 1) ? KEEP(Z3_mk_not(ctx, B(e->a))) : KEEP(Z3_mk_xor(ctx, B(e->a), B(e->b)));
    else r = isC(e->b, ~(u128)0) ? KEEP(Z3_mk_bvnot(ctx, V(e->a))) : KEEP(Z3_mk_bvxor(ctx, V(e->a), V(e->b)));
    break;
  case K::Eq: r = e->a->w == 1 ? KEEP(Z3_mk_iff(ctx, B(e->a), B(e->b))) : KEEP(Z3_mk_eq(ctx, V(e->a), V(e->b))); break;
  case K::Ult: r = KEEP(Z3_mk_bvult(ctx, V(e->a), V(e->b))); break;
  case K::Ule: r = KEEP(Z3_mk_bvule(ctx, V(e->a), V(e->b))); break;
  case K::Slt: r = KEEP(Z3_mk_bvslt(ctx, V(e->a), V(e->b))); break;
  case K::Sle: r = KEEP(Z3_mk_bvsle(ctx, V(e->a), V(e->b))); break;
  case K::Ite: r = KEEP(Z3_mk_ite(ctx, B(e->a), conv(ctx, e->b), conv(ctx, e->c))); break;
  case K::ZExt: r = KEEP(Z3_mk_zero_ext(ctx, w - e->a->w, V(e->a))); break;
  case K::SExt: r = KEEP(Z3_mk_sign_ext(ctx, w - e->a->w, V(e->a))); break;
  case K::Extract:
    r = KEEP(Z3_mk_extract(ctx, (unsigned)e->val + w - 1, (unsigned)e->val, V(e->a)));
    if (w == 1) r = KEEP(Z3_mk_eq(ctx, r, constBV(ctx, 1, 1)));
    break;
  case K::Concat: r = KEEP(Z3_mk_concat(ctx, V(e->a), V(e->b))); break;
  }
  // division-like ops at width 1 produce BV; convert
  if (w == 1 && (e->k == K::UDiv || e->k == K::SDiv || e->k == K::URem || e->k == K::SRem || e->k == K::Shl
                 || e->k == K::LShr || e->k == K::AShr || e->k == K::Add || e->k == K::Sub || e->k == K::Mul))
    r = KEEP(Z3_mk_eq(ctx, r, constBV(ctx, 1, 1)));
  Z3_inc_ref(ctx, r);
  e->z3 = r;
  return r;
}
