// The machine on which programs are given meaning: values with poison, byte memory, an external world with a trace,
// happens-before over memory effects. Shared by the RVSDG evaluator and the LLVM-IR evaluator.
//
// A pair of evaluations is compared for refinement: evaluation A (the original) restricts the inputs to those on which it
// has no undefined behaviour (symx_assume); evaluation B (the transformed program) must not have any (symx_assert) and must
// have the same calls, volatile accesses, results and final memory, wherever A's are not poison.
#pragma once
#include "symx.h"
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

namespace jv
{
using u64 = uint64_t;
using u8 = uint8_t;
using i64 = int64_t;

inline u64 maskOf(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline u64 sx(u64 v, unsigned w)
{
  if (w >= 64) return v;
  unsigned s = 64 - w;
  return (u64)((i64)(v << s) >> s);
}
inline u64 hashStr(const std::string & s)
{
  u64 h = 1469598103934665603ull;
  for (char c : s) h = (h ^ (u8)c) * 1099511628211ull;
  return h;
}
// uninterpreted combination (no symbolic multiplication)
inline u64 mix(u64 h, u64 v) { return (((h << 13) | (h >> 51)) ^ v) + 0x9e3779b97f4a7c15ull; }

const unsigned MAXEV = 384;
struct HB
{
  u64 w[MAXEV / 64] = {};
  void set(unsigned i) { w[i / 64] |= 1ull << (i % 64); }
  bool get(unsigned i) const { return (w[i / 64] >> (i % 64)) & 1; }
  HB & operator|=(const HB & o)
  {
    for (unsigned i = 0; i < MAXEV / 64; i++) w[i] |= o.w[i];
    return *this;
  }
};

struct Val
{
  u64 v = 0;
  u8 p = 0; // poison
  HB hb;
  std::shared_ptr<std::vector<Val>> a; // aggregate elements
  Val() = default;
  Val(u64 v_, u8 p_ = 0) : v(v_), p(p_) {}
};

enum Mode { Orig, Trans };

struct Obj
{
  std::string name;
  u64 size = 0;
  std::vector<u8> b, pb;
  bool alive = true, escaped = false, readonly = false, stack = false, ext = false;
  int canon = -1;
  std::vector<bool> pt; // where pointers have been stored
  const void * src = nullptr; // what created it
  bool written = false;
};

struct Ev
{
  unsigned obj = 0; // meaningless for world events
  u64 off = 0, len = 0;
  bool write = false;
  bool world = false; // call or volatile access: conflicts with every other world event
  bool escapedMem = false; // call: conflicts with accesses to escaped memory
};

struct MemSnap { int canon; std::vector<u8> b, pb; };
struct TraceRec
{
  u64 kind; // callee id or volatile kind
  std::vector<Val> args;
  std::vector<MemSnap> mem;
  bool exits = false;
};

const u64 FN_BASE = 0x10000; // object ids at and above this are functions
enum : u64 { K_VLOAD = 1, K_VSTORE = 2, K_VMEMCPY = 3, K_VMEMSET = 4 };

// What both evaluations share: the environment and its (symbolic) answers.
struct World
{
  bool mayExit = false; // external calls may not return
  bool havoc = true;    // external calls may write escaped memory
  bool mallocNull = false;
  unsigned maxLoop = 4;  // original program
  unsigned maxLoopTrans = 24;
  unsigned maxDepth = 6;
  unsigned maxTrace = 6;
  std::vector<TraceRec> trace;
  std::vector<std::vector<Val>> answers;
  std::vector<std::map<int, std::vector<u8>>> havocs;
  std::map<std::string, u64> fnIds;
  std::vector<std::string> fnNames;
  struct ExtObj { std::string name; u64 size; std::vector<u8> init; bool readonly; bool null = false; };
  std::vector<ExtObj> ext;
  std::map<std::string, unsigned> extIdx;

  u64 fnId(const std::string & n)
  {
    auto it = fnIds.find(n);
    if (it != fnIds.end()) return it->second;
    u64 id = FN_BASE + fnNames.size();
    fnNames.push_back(n);
    fnIds[n] = id;
    return id;
  }
  // an object of the environment with symbolic initial contents; returns its index
  unsigned addExt(const std::string & n, u64 size, bool symbolic = true)
  {
    ExtObj o;
    o.name = n;
    o.size = size;
    o.readonly = false;
    o.init.resize(size);
    if (symbolic && size) symx_make(o.init.data(), size, ("mem_" + n).c_str());
    extIdx[n] = ext.size();
    ext.push_back(o);
    return ext.size() - 1;
  }
  static u64 extPtr(unsigned idx, u64 off = 0) { return ((u64)(idx + 1) << 32) + off; }
};

struct Stop {};

struct Machine
{
  World & W;
  Mode mode;
  std::vector<Obj> objs; // index = id; 0 = null
  std::vector<Ev> evs;
  unsigned traceIdx = 0;
  int nextCanon = 0;
  bool exited = false;
  unsigned nCallsSeen = 0;
  std::map<std::string, unsigned> globals; // name -> object id

  Machine(World & w, Mode m) : W(w), mode(m)
  {
    objs.emplace_back();
    objs[0].alive = false;
    for (auto & e : w.ext)
    {
      Obj o;
      o.name = e.name;
      o.size = e.size;
      o.b = e.init;
      o.pb.assign(e.size, 0);
      o.escaped = o.ext = true;
      o.readonly = e.readonly;
      o.canon = nextCanon++;
      globals[e.name] = e.null ? 0 : objs.size();
      if (e.null) o.alive = false;
      objs.push_back(o);
    }
  }

  void ub(bool c, const char * msg)
  {
    if (mode == Orig) symx_assume(!c);
    else symx_assert(!c, msg);
  }

  unsigned newObj(const std::string & name, u64 size)
  {
    Obj o;
    o.name = name;
    o.size = size;
    o.b.assign(size, 0);
    o.pb.assign(size, 1);
    objs.push_back(o);
    return objs.size() - 1;
  }
  static u64 ptr(unsigned id, u64 off = 0) { return ((u64)id << 32) + off; }

  // --- events -----------------------------------------------------------------------------------------------------
  // hb: what the event is ordered after. Returns the index of the new event.
  unsigned event(const Ev & e, const HB & hb, const char * what)
  {
    for (unsigned i = 0; i < evs.size(); i++)
    {
      if (hb.get(i)) continue;
      auto & f = evs[i];
      bool conflict = false;
      if (e.world && f.world) conflict = true;
      else if (e.world || f.world)
      {
        auto & wv = e.world ? e : f;
        auto & m = e.world ? f : e;
        conflict = wv.escapedMem && m.len && objs[m.obj].escaped && !(objs[m.obj].readonly);
      }
      else if (e.obj == f.obj && (e.write || f.write) && e.len && f.len)
      {
        bool disjoint = (e.off + e.len <= f.off) | (f.off + f.len <= e.off);
        if (mode == Orig) symx_assume(disjoint);
        else symx_assert(disjoint, what);
        continue;
      }
      if (conflict)
      {
        if (mode == Orig) symx_error("harness program has unordered effects");
        symx_fail(what);
      }
    }
    if (evs.size() >= MAXEV)
    {
      if (mode == Orig) symx_reject();
      symx_error("too many memory events");
    }
    evs.push_back(e);
    return evs.size() - 1;
  }
  unsigned access(unsigned obj, u64 off, u64 len, bool write, const HB & hb)
  {
    Ev e;
    e.obj = obj;
    e.off = off;
    e.len = len;
    e.write = write;
    if (write && objs[obj].readonly) ub(true, "writes constant memory");
    return event(e, hb, "memory accesses that touch the same location are not ordered");
  }

  // --- memory -----------------------------------------------------------------------------------------------------
  // resolves a pointer to an object such that len bytes are accessible
  unsigned resolve(u64 p, u64 len, u64 & off)
  {
    if (!symx_is_symbolic(p))
    {
      u64 id = p >> 32;
      for (unsigned i = 1; i < objs.size() && id >= CANON; i++)
        if (id == canonId(objs[i])) { id = i; break; }
      off = p & 0xffffffff;
      bool ok = id > 0 && id < objs.size() && objs[id].alive && off + len <= objs[id].size;
      if (!ok) { ub(true, "accesses memory outside any live object"); symx_end(); }
      return id;
    }
    bool any = false;
    for (unsigned i = 1; i < objs.size(); i++)
      if (objs[i].alive && objs[i].size >= len)
      {
        any |= (p - ptr(i)) <= objs[i].size - len;
        if (canonId(objs[i])) any |= (p - canonBase(i)) <= objs[i].size - len;
      }
    ub(!any, "accesses memory outside any live object");
    for (unsigned i = 1; i < objs.size(); i++)
      if (objs[i].alive && objs[i].size >= len)
      {
        if ((p - ptr(i)) <= objs[i].size - len)
        {
          off = p - ptr(i);
          return i;
        }
        if (canonId(objs[i]) && (p - canonBase(i)) <= objs[i].size - len)
        {
          off = p - canonBase(i);
          return i;
        }
      }
    symx_end();
    return 0;
  }
  u64 rd(const u8 * p, unsigned n)
  {
    switch (n)
    {
    case 1: return *p;
    case 2: { uint16_t x; memcpy(&x, p, 2); return x; }
    case 4: { uint32_t x; memcpy(&x, p, 4); return x; }
    case 8: { u64 x; memcpy(&x, p, 8); return x; }
    default:
    {
      u64 x = 0;
      for (unsigned i = 0; i < n; i++) x |= (u64)p[i] << (8 * i);
      return x;
    }
    }
  }
  void wr(u8 * p, unsigned n, u64 v)
  {
    switch (n)
    {
    case 1: *p = v; break;
    case 2: { uint16_t x = v; memcpy(p, &x, 2); break; }
    case 4: { uint32_t x = v; memcpy(p, &x, 4); break; }
    case 8: memcpy(p, &v, 8); break;
    default:
      for (unsigned i = 0; i < n; i++) p[i] = v >> (8 * i);
    }
  }
  Val rawLoad(unsigned id, u64 off, unsigned n)
  {
    auto & o = objs[id];
    if (!symx_is_symbolic(off))
    {
      u8 p = 0;
      for (unsigned i = 0; i < n; i++) p |= o.pb[off + i];
      return Val(rd(&o.b[off], n), p);
    }
    u64 v = 0;
    u64 p = 0;
    for (u64 k = 0; k + n <= o.size; k++)
    {
      u8 q = 0;
      for (unsigned i = 0; i < n; i++) q |= o.pb[k + i];
      bool c = off == k;
      v = symx_ite(c, rd(&o.b[k], n), v);
      p = symx_ite(c, q, p);
    }
    return Val(v, (u8)p);
  }
  void rawStore(unsigned id, u64 off, unsigned n, Val v)
  {
    auto & o = objs[id];
    if (!o.pt.empty())
    {
      if (symx_is_symbolic(off)) off = symx_concretize(off);
      for (u64 k = off < 7 ? 0 : off - 7; k < off + n; k++) o.pt[k] = false;
    }
    if (!symx_is_symbolic(off))
    {
      wr(&o.b[off], n, v.v);
      for (unsigned i = 0; i < n; i++) o.pb[off + i] = v.p;
      return;
    }
    for (u64 k = 0; k < o.size; k++)
    {
      u64 nb = o.b[k], np = o.pb[k];
      for (unsigned i = 0; i < n && i <= k; i++)
      {
        bool c = off == k - i;
        nb = symx_ite(c, (v.v >> (8 * i)) & 0xff, nb);
        np = symx_ite(c, v.p, np);
      }
      o.b[k] = nb;
      o.pb[k] = np;
    }
  }
  // the program's own name for an object that a value points to; 0: none. Objects have a second name, by which the environment
  // knows them once they escaped and which is the same in both evaluations.
  static const u64 CANON = 0x8000;
  static u64 canonId(const Obj & o) { return o.canon >= 0 && !o.ext ? CANON + o.canon : 0; }
  u64 canonBase(unsigned i) { return canonId(objs[i]) << 32; }
  unsigned pointee(u64 p)
  {
    u64 id = p >> 32;
    if (!symx_is_symbolic(id))
    {
      if (id < objs.size()) return id;
      for (unsigned i = 1; i < objs.size() && id >= CANON; i++)
        if (id == canonId(objs[i])) return i;
      return 0;
    }
    for (unsigned i = 1; i < objs.size(); i++)
      if (!objs[i].ext && (id == i || (canonId(objs[i]) && id == canonId(objs[i])))) return i;
    return 0;
  }
  void noteStoredPointer(unsigned into, u64 off)
  {
    objs[into].pt.resize(objs[into].size);
    objs[into].pt[off] = true;
  }
  std::vector<bool> ptrsIn(unsigned id, u64 off, u64 len)
  {
    std::vector<bool> r(len);
    if (!objs[id].pt.empty())
      for (u64 k = 0; k + 8 <= len; k++) r[k] = objs[id].pt[off + k];
    return r;
  }
  // whatever the environment can reach from what it knows, it knows
  void expose()
  {
    for (bool more = true; more;)
    {
      more = false;
      for (unsigned i = 1; i < objs.size(); i++)
        if (objs[i].escaped && objs[i].alive && !objs[i].pt.empty())
          for (u64 k = 0; k + 8 <= objs[i].size; k++)
          {
            if (!objs[i].pt[k]) continue;
            u8 po = objs[i].pb[k];
            if (!symx_is_symbolic(po) && po) continue;
            unsigned id = pointee(rd(&objs[i].b[k], 8));
            if (!id || objs[id].escaped) continue;
            escape(id);
            more = true;
          }
    }
  }
  void escape(unsigned id)
  {
    auto & o = objs[id];
    if (o.escaped) return;
    o.escaped = true;
    if (o.canon < 0) o.canon = nextCanon++;
  }
  void escapeVal(const Val & v)
  {
    if (v.a) { for (auto & x : *v.a) escapeVal(x); return; }
    unsigned id = pointee(v.v);
    if (id) escape(id);
  }

  // observable form of a value that may be a pointer to a local object
  u64 canonPtr(u64 p)
  {
    if (symx_is_symbolic(p >> 32))
    {
      u64 r = p;
      for (unsigned i = 1; i < objs.size(); i++)
        if (canonId(objs[i])) r = symx_ite((p >> 32) == i, (canonId(objs[i]) << 32) | (p & 0xffffffff), r);
      return r;
    }
    unsigned id = p >> 32;
    if (id && id < objs.size() && objs[id].canon >= 0 && !objs[id].ext) return ((u64)(0x8000 + objs[id].canon) << 32) | (p & 0xffffffff);
    return p;
  }
  Val canonVal(Val v)
  {
    if (v.a)
    {
      auto n = std::make_shared<std::vector<Val>>(*v.a);
      for (auto & x : *n) x = canonVal(x);
      v.a = n;
      return v;
    }
    v.v = canonPtr(v.v);
    return v;
  }

  // --- world ------------------------------------------------------------------------------------------------------
  static void refines(const Val & o, const Val & n, const char * msg)
  {
    if (o.a || n.a)
    {
      if (!o.a || !n.a || o.a->size() != n.a->size()) { symx_fail(msg); return; }
      for (unsigned i = 0; i < o.a->size(); i++) refines((*o.a)[i], (*n.a)[i], msg);
      return;
    }
    symx_assert((o.p != 0) | ((n.p == 0) & (o.v == n.v)), msg);
  }
  std::vector<MemSnap> snapshot()
  {
    std::vector<MemSnap> r;
    for (auto & o : objs)
      if (o.escaped && o.alive && !o.readonly)
      {
        r.push_back({ o.canon, o.b, o.pb });
        if (o.pt.empty()) continue;
        for (u64 k = 0; k + 8 <= o.size; k++)
          if (o.pt[k]) wr(&r.back().b[k], 8, canonPtr(rd(&o.b[k], 8)));
      }
    return r;
  }
  static void cmpMem(const std::vector<MemSnap> & a, const std::vector<MemSnap> & b, const char * msg)
  {
    for (auto & x : a)
    {
      const MemSnap * y = nullptr;
      for (auto & z : b)
        if (z.canon == x.canon) y = &z;
      if (!y) { symx_fail(msg); return; }
      bool ok = true;
      for (unsigned i = 0; i < x.b.size() && i < y->b.size(); i++)
        ok &= (x.pb[i] != 0) | ((y->pb[i] == 0) & (x.b[i] == y->b[i]));
      symx_assert(ok, msg);
    }
  }
  void relabel(const Val & mine, const Val & theirs, const TraceRec & rec)
  {
    if (mine.a || theirs.a || symx_is_symbolic(mine.v) || symx_is_symbolic(theirs.v)) return;
    unsigned id = mine.v >> 32, c = theirs.v >> 32;
    if (!id || id >= objs.size() || c < 0x8000 || c >= FN_BASE) return;
    c -= 0x8000;
    auto & o = objs[id];
    if (o.ext || o.canon < 0 || (unsigned)o.canon == c) return;
    for (auto & m : rec.mem)
      if (m.canon == o.canon) return;
    for (auto & x : objs)
      if (x.canon == (int)c && x.alive) return;
    o.canon = c;
    nextCanon = std::max(nextCanon, (int)c + 1);
  }
  // the environment knows its own objects and those that escaped, by the names that both evaluations share
  void environmentWord(u64 w)
  {
    u64 u = w >> 32;
    bool ok = (u <= W.ext.size()) | (u >= 0x40000000);
    for (auto & o : objs)
      if (o.escaped && canonId(o)) ok |= u == canonId(o);
    symx_assume(ok);
  }
  // the environment's objects may initially hold pointers to its objects and to the program's visible globals
  void environmentInit()
  {
    for (auto & o : objs)
      if (o.ext)
        for (u64 k = 0; k + 8 <= o.size; k += 8) environmentWord(rd(&o.b[k], 8));
  }
  // an externally visible step; returns its results (nres fresh values, bits wide each)
  std::vector<Val> world(u64 kind, const std::vector<Val> & args0, const std::vector<unsigned> & resBits, HB & hb, bool touchesMem)
  {
    std::vector<Val> args;
    if (touchesMem)
    {
      for (auto & a : args0) escapeVal(a);
      expose();
    }
    // an object whose counterpart is gone may stand for the counterpart of a new one (a callee's local object after inlining)
    if (mode == Trans && traceIdx < W.trace.size())
      for (unsigned k = 0; k < args0.size() && k < W.trace[traceIdx].args.size(); k++) relabel(args0[k], W.trace[traceIdx].args[k], W.trace[traceIdx]);
    for (auto & a : args0) args.push_back(canonVal(a));
    Ev e;
    e.world = true;
    e.escapedMem = touchesMem;
    unsigned ei = event(e, hb, "a call or volatile access is not ordered with a conflicting effect");
    hb.set(ei);
    unsigned i = traceIdx++;
    if (mode == Orig)
    {
      if (i >= W.maxTrace) symx_reject();
      TraceRec r;
      r.kind = kind;
      r.args = args;
      if (touchesMem) r.mem = snapshot();
      std::string tag = "call" + std::to_string(i);
      std::vector<Val> ans;
      for (unsigned k = 0; k < resBits.size(); k++) ans.push_back(Val(symx_var(resBits[k], (tag + "_r" + std::to_string(k)).c_str())));
      for (auto & a : ans) if (symx_is_symbolic(a.v)) environmentWord(a.v);
      std::map<int, std::vector<u8>> hv;
      if (touchesMem && W.havoc)
        for (auto & m : r.mem)
        {
          std::vector<u8> nb(m.b.size());
          if (nb.size()) symx_make(nb.data(), nb.size(), (tag + "_m" + std::to_string(m.canon)).c_str());
          for (size_t k = 0; k + 8 <= nb.size(); k += 8) environmentWord(rd(&nb[k], 8));
          hv[m.canon] = nb;
        }
      if (W.mayExit && touchesMem) r.exits = symx_choose(2, (tag + "_exits").c_str());
      W.trace.push_back(r);
      W.answers.push_back(ans);
      W.havocs.push_back(hv);
    }
    else
    {
      if (i >= W.trace.size()) { symx_fail("performs a call or volatile access the original does not"); symx_end(); }
      auto & r = W.trace[i];
      symx_assert(r.kind == kind, "performs a different call or volatile access");
      if (r.args.size() != args.size()) symx_fail("passes a different number of arguments");
      for (unsigned k = 0; k < args.size(); k++) refines(r.args[k], args[k], "a call or volatile access sees a different argument");
      if (touchesMem) cmpMem(r.mem, snapshot(), "a call sees different memory");
    }
    if (touchesMem && W.havoc)
      for (auto & o : objs)
        if (o.escaped && o.alive && !o.readonly)
        {
          auto it = W.havocs[i].find(o.canon);
          if (it == W.havocs[i].end()) continue;
          o.b = it->second;
          o.pt.clear();
          o.pb.assign(o.size, 0);
        }
    auto ans = W.answers[i];
    if (ans.size() != resBits.size()) { symx_fail("performs a different call"); symx_end(); }
    if (W.trace[i].exits) { exited = true; throw Stop{}; }
    return ans;
  }
};

struct Outcome
{
  std::vector<Val> results;
  std::vector<MemSnap> mem;
  bool exited = false;
  unsigned ntrace = 0;
};

inline void compareOutcomes(const Outcome & a, const Outcome & b)
{
  symx_assert(a.exited == b.exited, "returns where the original does not return");
  symx_assert(a.ntrace == b.ntrace, "does not perform a call or volatile access the original performs");
  if (!a.exited)
  {
    if (a.results.size() != b.results.size()) { symx_fail("returns a different number of results"); return; }
    for (unsigned i = 0; i < a.results.size(); i++) Machine::refines(a.results[i], b.results[i], "returns a different value");
    Machine::cmpMem(a.mem, b.mem, "leaves different memory");
  }
}

// --- choices: recorded by the first build of a program, repeated by the second -----------------------------------------
struct Choices
{
  std::vector<u64> log;
  size_t pos = 0;
  bool replaying = false;
  u64 pick(u64 n, const char * name)
  {
    if (replaying) return log[pos++];
    u64 v = n > 1 ? symx_choose(n, name) : 0;
    log.push_back(v);
    return v;
  }
  u64 sym(unsigned bits, const char * name)
  {
    if (replaying) return log[pos++];
    u64 v = symx_var(bits, name);
    log.push_back(v);
    return v;
  }
  void rewind() { replaying = true; pos = 0; }
};

// --- integer semantics (LLVM LangRef) ----------------------------------------------------------------------------------
enum class IOp { Add, Sub, Mul, SDiv, UDiv, SRem, URem, AShr, Shl, LShr, And, Or, Xor, Eq, Ne, Sge, Sgt, Sle, Slt, Uge, Ugt, Ule, Ult };

template<class UB> // UB(bool, msg): immediate undefined behaviour
Val evalInt(IOp op, unsigned w, const Val & A, const Val & B, UB ub)
{
  u64 m = maskOf(w), a = A.v & m, b = B.v & m;
  u64 p = A.p | B.p, r = 0;
  i64 sa = sx(a, w), sb = sx(b, w);
  switch (op)
  {
  case IOp::Add: r = a + b; break;
  case IOp::Sub: r = a - b; break;
  case IOp::Mul: r = a * b; break;
  case IOp::And: r = a & b; break;
  case IOp::Or: r = a | b; break;
  case IOp::Xor: r = a ^ b; break;
  case IOp::SDiv:
  case IOp::SRem:
  case IOp::UDiv:
  case IOp::URem:
  {
    bool sg = op == IOp::SDiv || op == IOp::SRem;
    bool bad = (B.p != 0) | (b == 0);
    if (sg) bad |= (A.p == 0) & (a == (1ull << (w - 1))) & (b == m);
    ub(bad, "divides by zero or overflows a division");
    u64 d = symx_ite(bad, 1, b);
    i64 sd = sx(d, w);
    if (op == IOp::UDiv) r = a / d;
    else if (op == IOp::URem) r = a % d;
    else
    {
      // narrow operands: the 64-bit division below is exact and cannot overflow under !bad
      if (w == 64)
      {
        sd = symx_ite((u64)(sa == INT64_MIN) & (u64)(sd == -1), 1, sd);
      }
      r = op == IOp::SDiv ? (u64)(sa / sd) : (u64)(sa % sd);
    }
    break;
  }
  case IOp::Shl:
  case IOp::LShr:
  case IOp::AShr:
  {
    p |= b >= w;
    u64 s = symx_ite(b >= w, 0, b) & 63;
    r = op == IOp::Shl ? a << s : op == IOp::LShr ? a >> s : (u64)(sa >> s);
    break;
  }
  case IOp::Eq: r = a == b; break;
  case IOp::Ne: r = a != b; break;
  case IOp::Sge: r = sa >= sb; break;
  case IOp::Sgt: r = sa > sb; break;
  case IOp::Sle: r = sa <= sb; break;
  case IOp::Slt: r = sa < sb; break;
  case IOp::Uge: r = a >= b; break;
  case IOp::Ugt: r = a > b; break;
  case IOp::Ule: r = a <= b; break;
  case IOp::Ult: r = a < b; break;
  }
  if (op < IOp::Eq) r &= m;
  return Val(r, (u8)p);
}
}
