// Bit constants with known and unknown bits against integer arithmetic.
// arg0: 0 binary operations, 1 comparisons, 2 unary operations and shifts, 3 concatenation, slices, extensions, 4 conversions; arg1: width; arg2: 1 = bits may be unknown
#include "symx.h"
#include <jlm/rvsdg/bitstring/value-representation.hpp>
#include <stdexcept>
using u64 = unsigned long long;
using i64 = long long;
using V = jlm::rvsdg::BitValueRepresentation;
static unsigned W;
static bool unknowns;
static unsigned pick(unsigned n, const char * name) { return (unsigned)symx_choose(n, name); }
static u64 mask(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static i64 sx(u64 x, unsigned w) { return (i64)(x << (64 - w)) >> (64 - w); }
// a bit string together with one of the values it stands for
struct B
{
  V v = V(1, 0);
  u64 x = 0;
};
static B make(unsigned w, const char * name)
{
  B b;
  b.v = V::repeat(w, '0');
  b.x = symx_var(w, name);
  for (unsigned i = 0; i < w; i++)
  {
    u64 bit = b.x >> i & 1;
    u64 c = '0' + bit;
    if (unknowns)
    {
      unsigned k = pick(3, "known");
      if (k) c = k == 1 ? 'D' : 'X';
    }
    b.v[i] = (char)c;
  }
  return b;
}
// each bit is what it should be, or unknown if unknown bits went in
static void same(const V & r, u64 x, unsigned w, const char * what)
{
  symx_assert(r.nbits() == w, "the result has the right number of bits");
  for (unsigned i = 0; i < w; i++)
  {
    char c = r[i];
    bool unk = (c == 'D') | (c == 'X');
    bool ok = (u64)(unsigned char)c == '0' + (x >> i & 1);
    symx_assert(ok | (unknowns & unk), what);
  }
}
static void sameBit(char c, bool x, const char * what)
{
  bool unk = (c == 'D') | (c == 'X');
  symx_assert(((u64)(unsigned char)c == '0' + (u64)x) | (unknowns & unk), what);
}
extern "C" void harness_main()
{
  W = (unsigned)symx_arg(1);
  unknowns = symx_arg(2);
  u64 m = mask(W);
  switch (symx_arg(0))
  {
  case 0:
  {
    unsigned op = pick(12, "op");
    B a = make(W, "a"), b = make(W, "b");
    u64 x = a.x, y = b.x;
    i64 s = sx(x, W), t = sx(y, W);
    if (op >= 3 && op <= 6) symx_assume(y != 0);
    switch (op)
    {
    case 0: same(a.v.add(b.v), (x + y) & m, W, "add"); break;
    case 1: same(a.v.sub(b.v), (x - y) & m, W, "sub"); break;
    case 2: same(a.v.mul(b.v), (x * y) & m, W, "mul"); break;
    case 3: same(a.v.udiv(b.v), x / y, W, "udiv"); break;
    case 4: same(a.v.umod(b.v), x % y, W, "umod"); break;
    case 5: same(a.v.sdiv(b.v), (u64)(s / t) & m, W, "sdiv"); break;
    case 6: same(a.v.smod(b.v), (u64)(s % t) & m, W, "smod"); break;
    case 7: same(a.v.land(b.v), x & y, W, "and"); break;
    case 8: same(a.v.lor(b.v), x | y, W, "or"); break;
    case 9: same(a.v.lxor(b.v), x ^ y, W, "xor"); break;
    case 10: same(a.v.umulh(b.v), (x * y) >> W, W, "umulh"); break;
    case 11: same(a.v.smulh(b.v), (u64)((s * t) >> W) & m, W, "smulh"); break;
    }
    break;
  }
  case 1:
  {
    unsigned op = pick(11, "op");
    B a = make(W, "a"), b = make(W, "b");
    u64 x = a.x, y = b.x;
    i64 s = sx(x, W), t = sx(y, W);
    switch (op)
    {
    case 0: sameBit(a.v.ult(b.v), x < y, "ult"); break;
    case 1: sameBit(a.v.ule(b.v), x <= y, "ule"); break;
    case 2: sameBit(a.v.ugt(b.v), x > y, "ugt"); break;
    case 3: sameBit(a.v.uge(b.v), x >= y, "uge"); break;
    case 4: sameBit(a.v.slt(b.v), s < t, "slt"); break;
    case 5: sameBit(a.v.sle(b.v), s <= t, "sle"); break;
    case 6: sameBit(a.v.sgt(b.v), s > t, "sgt"); break;
    case 7: sameBit(a.v.sge(b.v), s >= t, "sge"); break;
    case 8: sameBit(a.v.eq(b.v), x == y, "eq"); break;
    case 9: sameBit(a.v.ne(b.v), x != y, "ne"); break;
    case 10:
      if (!unknowns) symx_assert((a.v == b.v) == (x == y) && (a.v != b.v) == (x != y), "equality of representations");
      else if (a.v == b.v) symx_assert(a.v.str() == b.v.str(), "equality of representations");
      break;
    }
    break;
  }
  case 2:
  {
    unsigned op = pick(5, "op");
    B a = make(W, "a");
    u64 x = a.x;
    unsigned n = op < 2 ? 0 : pick(W + 2, "shift");
    switch (op)
    {
    case 0: same(a.v.neg(), (0 - x) & m, W, "neg"); break;
    case 1: same(a.v.lnot(), ~x & m, W, "not"); break;
    case 2: same(a.v.shl(n), n >= W ? 0 : (x << n) & m, W, "shl"); break;
    case 3: same(a.v.shr(n), n >= W ? 0 : x >> n, W, "shr"); break;
    case 4: same(a.v.ashr(n), (u64)(sx(x, W) >> (n > 63 ? 63 : n)) & m, W, "ashr"); break;
    }
    if (!unknowns) symx_assert(a.v.is_known() && a.v.is_defined() && a.v.is_negative() == (sx(x, W) < 0), "known bits");
    break;
  }
  case 3:
  {
    unsigned op = pick(5, "op"), k = 1 + pick(W, "k");
    B a = make(W, "a"), b = make(k, "b");
    switch (op)
    {
    case 0: same(a.v.concat(b.v), a.x | b.x << W, W + k, "concatenation"); break;
    case 1:
    {
      unsigned lo = pick(W + 1, "low"), hi = pick(W + 2, "high");
      bool threw = false;
      try { same(a.v.slice(lo, hi), (a.x >> lo) & mask(hi > lo ? hi - lo : 0), hi - lo, "slice"); }
      catch (jlm::util::Error &) { threw = true; }
      symx_assert(threw == (hi <= lo || hi > W), "a slice throws exactly if it is out of bounds or empty");
      break;
    }
    case 2: same(a.v.zext(k), a.x, W + k, "zext"); break;
    case 3: same(a.v.sext(k), (u64)sx(a.x, W) & mask(W + k), W + k, "sext"); break;
    case 4: same(a.v.trunc(k), a.x & mask(k), k, "trunc"); break;
    }
    V c = V::create({ b.v, a.v, b.v });
    same(c, b.x | a.x << k | b.x << (W + k), W + 2 * k, "creation from parts");
    break;
  }
  case 4:
  {
    if (pick(2, "construct"))
    {
      // any value into any number of bits
      unsigned n = pick(10, "bits");
      i64 v = sx(symx_var(10, "v"), 10);
      bool fits = n > 0 && ((v >= 0 && (u64)v <= mask(n)) || (v < 0 && v >= -(1ll << (n - 1)) * 2));
      bool threw = false;
      try
      {
        V r(n, v);
        symx_assert(fits, "a value that does not fit is rejected");
        same(r, (u64)v & mask(n), n, "the constructor takes the bits of the value");
        symx_assert(r == v || n == 0, "comparison with the value");
      }
      catch (jlm::util::Error &) { threw = true; }
      symx_assert(threw == !fits, "a value that fits is accepted");
      break;
    }
    unsigned ws[] = { 1, 3, 5, 63, 64, 65, 66 };
    unsigned w = ws[pick(7, "width")];
    // the lowest bit and the highest ones are arbitrary, the others are all the same
    u64 lo = symx_var(1, "lo"), mid = symx_var(1, "mid"), hi = symx_var(4, "hi");
    V r = V::repeat(w, '0');
    std::vector<u64> bit(w);
    for (unsigned i = 0; i < w; i++) bit[i] = i == 0 ? lo : i + 4 >= w ? hi >> (w - 1 - i) & 1 : mid;
    u64 u = 0;
    for (unsigned i = 0; i < w && i < 64; i++) u |= bit[i] << i;
    for (unsigned i = 0; i < w; i++) r[i] = (char)('0' + bit[i]);
    bool uok = true, iok = true;
    for (unsigned i = 64; i < w; i++) uok &= bit[i] == 0;
    for (unsigned i = 63; i < w; i++) iok &= bit[i] == bit[w - 1];
    try { u64 g = r.to_uint(); symx_assert(uok, "a value that does not fit 64 bits is rejected"); symx_assert(g == u, "to_uint"); }
    catch (std::range_error &) { symx_assert(!uok, "a value that fits 64 bits is converted"); }
    try { i64 g = r.to_int(); symx_assert(iok, "a value that does not fit 64 bits is rejected"); symx_assert(g == (w < 64 ? sx(u, w) : (i64)u), "to_int"); }
    catch (std::range_error &) { symx_assert(!iok, "a value that fits 64 bits is converted"); }
    break;
  }
  }
  symx_reach("computed");
}
