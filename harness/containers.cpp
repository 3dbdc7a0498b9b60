// Containers of jlm/util against their mathematical models, with symbolic keys.
// arg0: 0 HashSet, 1 BijectiveMap, 2 DisjointSet, 3 worklists, 4 components, 5 IntrusiveList, 6 IntrusiveHash; arg1: operations; arg2: initial elements
#include "symx.h"
#include <algorithm>
#include <jlm/util/BijectiveMap.hpp>
#include <jlm/util/disjointset.hpp>
#include <jlm/util/HashSet.hpp>
#include <jlm/util/intrusive-hash.hpp>
#include <jlm/util/intrusive-list.hpp>
#include <jlm/util/TarjanScc.hpp>
#include <jlm/util/Worklist.hpp>
#include <string>
#include <vector>
namespace ut = jlm::util;
using u64 = unsigned long long;
// every key has the same hash: the containers decide everything by comparing the symbolic values
struct Key
{
  unsigned char v;
  bool operator==(const Key & o) const { return v == o.v; }
  bool operator!=(const Key & o) const { return v != o.v; }
  bool operator<(const Key & o) const { return v < o.v; }
  bool operator>(const Key & o) const { return v > o.v; }
};
namespace std { template<> struct hash<Key> { size_t operator()(const Key &) const noexcept { return 0; } }; }
static unsigned steps, initial;
static unsigned pick(unsigned n, const char * name) { return (unsigned)symx_choose(n, name); }
static Key key(const char * name) { return Key{ (unsigned char)symx_var(8, name) }; }
static void check(bool c, const char * what) { symx_assert(c, what); }
using Model = std::vector<Key>;
static bool in(const Model & m, Key k) { for (auto & x : m) if (x == k) return true; return false; }
static bool add(Model & m, Key k) { if (in(m, k)) return false; m.push_back(k); return true; }
template<class F> static size_t removeIf(Model & m, F f)
{
  Model r;
  size_t n = 0;
  for (auto & x : m) if (f(x)) n++; else r.push_back(x);
  m = r;
  return n;
}
static bool subset(const Model & a, const Model & b) { for (auto & x : a) if (!in(b, x)) return false; return true; }

static void same(const ut::HashSet<Key> & s, const Model & m, Key probe)
{
  check(s.Size() == m.size(), "the set has the size of its model");
  check(s.IsEmpty() == m.empty(), "a set is empty if its model is");
  for (auto & x : m) check(s.Contains(x), "an element of the model is in the set");
  size_t n = 0;
  Model seen;
  for (auto & x : s.Items())
  {
    check(in(m, x), "an element the set iterates over is in the model");
    check(add(seen, x), "no element comes twice");
    n++;
  }
  check(n == m.size(), "the iteration covers the set");
  check(s.Contains(probe) == in(m, probe), "any key is in the set exactly if it is in the model");
}
static void hashSet()
{
  ut::HashSet<Key> A, B;
  Model a, b;
  for (unsigned i = 0; i < initial; i++)
  {
    Key x = key("a"), y = key("b");
    check(A.insert(x) == add(a, x), "insert tells whether the element is new");
    check(B.insert(y) == add(b, y), "insert tells whether the element is new");
  }
  for (unsigned i = 0; i < steps; i++)
    switch (pick(16, "op"))
    {
    case 0: { Key k = key("k"); check(A.insert(k) == add(a, k), "insert tells whether the element is new"); break; }
    case 1: { Key k = key("k"); check(B.insert(k) == add(b, k), "insert tells whether the element is new"); break; }
    case 2: { Key k = key("k"); check(A.Remove(k) == (removeIf(a, [&](Key x) { return x == k; }) != 0), "remove tells whether the element was there"); break; }
    case 3:
    {
      bool ch = A.UnionWith(B);
      size_t n = a.size();
      for (auto & x : b) add(a, x);
      check(ch == (a.size() != n), "union tells whether the set changed");
      break;
    }
    case 4:
    {
      A.UnionWithAndClear(B);
      for (auto & x : b) add(a, x);
      b.clear();
      break;
    }
    case 5: A.IntersectWith(B); removeIf(a, [&](Key x) { return !in(b, x); }); break;
    case 6: A.IntersectWithAndClear(B); removeIf(a, [&](Key x) { return !in(b, x); }); b.clear(); break;
    case 7: A.DifferenceWith(B); removeIf(a, [&](Key x) { return in(b, x); }); break;
    case 8: A = B; a = b; break;
    case 9: A = std::move(B); a = b; b.clear(); B.Clear(); break;
    case 10:
    {
      Key t = key("t");
      check(A.RemoveWhere([&](const Key & x) { return x < t; }) == removeIf(a, [&](Key x) { return x < t; }), "the number of removed elements");
      break;
    }
    case 11:
      if (!a.empty())
      {
        auto it = A.Items().begin();
        Key k = *it;
        auto nx = it;
        ++nx;
        bool last = nx == A.Items().end();
        Key n = last ? Key{ 0 } : *nx;
        auto r = A.Erase(it);
        check((r == A.Items().end()) == last && (last || *r == n), "erase returns the next position");
        removeIf(a, [&](Key x) { return x == k; });
      }
      break;
    case 12: A.Clear(); a.clear(); break;
    case 13: { ut::HashSet<Key> c(A); A = c; B = std::move(c); b = a; break; }
    case 14: { std::vector<Key> v(b.begin(), b.end()); v.insert(v.end(), b.begin(), b.end()); A = ut::HashSet<Key>(v.begin(), v.end()); a = b; break; }
    case 15: A.DifferenceWith(A); a.clear(); break;
    }
  Key p = key("probe");
  same(A, a, p);
  same(B, b, p);
  bool sa = subset(a, b), sb = subset(b, a);
  check(A.IsSubsetOf(B) == sa && B.IsSubsetOf(A) == sb, "the subset relation");
  check((A == B) == (sa && sb) && (A != B) == !(sa && sb), "set equality");
  symx_reach("set");
}
static void bijectiveMap()
{
  ut::BijectiveMap<Key, Key> M;
  std::vector<std::pair<Key, Key>> m;
  auto ins = [&](Key k, Key v)
  {
    for (auto & e : m) if (e.first == k || e.second == v) return false;
    m.push_back({ k, v });
    return true;
  };
  auto rem = [&](auto f)
  {
    std::vector<std::pair<Key, Key>> r;
    size_t n = 0;
    for (auto & e : m) if (f(e.first, e.second)) n++; else r.push_back(e);
    m = r;
    return n;
  };
  for (unsigned i = 0; i < initial; i++)
  {
    Key k = key("k"), v = key("v");
    check(M.Insert(k, v) == ins(k, v), "insert succeeds exactly if neither key nor value is present");
  }
  for (unsigned i = 0; i < steps; i++)
    switch (pick(12, "op"))
    {
    case 0: { Key k = key("k"), v = key("v"); check(M.Insert(k, v) == ins(k, v), "insert succeeds exactly if neither key nor value is present"); break; }
    case 1: { Key k = key("k"); check(M.RemoveKey(k) == (rem([&](Key x, Key) { return x == k; }) != 0), "remove by key"); break; }
    case 2: { Key k = key("v"); check(M.RemoveValue(k) == (rem([&](Key, Key x) { return x == k; }) != 0), "remove by value"); break; }
    case 3: { Key t = key("t"); check(M.RemoveWhere([&](Key k, Key v) { return k < t && v > t; }) == rem([&](Key k, Key v) { return k < t && v > t; }), "remove where"); break; }
    case 4: { Key t = key("t"); check(M.RemoveKeysWhere([&](Key k) { return k < t; }) == rem([&](Key k, Key) { return k < t; }), "remove keys where"); break; }
    case 5: { Key t = key("t"); check(M.RemoveValuesWhere([&](Key v) { return v < t; }) == rem([&](Key, Key v) { return v < t; }), "remove values where"); break; }
    case 6:
    {
      ut::BijectiveMap<Key, Key> N;
      Key k = key("k"), v = key("v");
      N.Insert(k, v);
      check(M.InsertPairs(N.begin(), N.end()) == (ins(k, v) ? 1u : 0u), "the number of inserted pairs");
      break;
    }
    case 7:
    {
      Key k = key("k"), v = key("v");
      bool threw = false;
      try { M.InsertOrThrow(k, v); } catch (ut::Error &) { threw = true; }
      check(threw == !ins(k, v), "throws exactly if the key or the value is present");
      break;
    }
    case 8:
      if (!m.empty())
      {
        auto it = M.begin();
        Key k = it->first;
        M.Erase(it);
        rem([&](Key x, Key) { return x == k; });
      }
      break;
    case 9: { ut::BijectiveMap<Key, Key> N(M); M = std::move(N); break; }
    case 10: { ut::BijectiveMap<Key, Key> N; N = M; N.Clear(); check(N.Size() == 0, "cleared"); check((N == M) == m.empty(), "equality"); break; }
    case 11: M.Clear(); m.clear(); break;
    }
  check(M.Size() == m.size(), "the map has the size of its model");
  for (auto & e : m)
  {
    check(M.HasKey(e.first) && M.HasValue(e.second), "pairs are found");
    check(M.LookupKey(e.first) == e.second && M.LookupValue(e.second) == e.first, "both directions agree");
  }
  size_t n = 0;
  for (auto & e : M)
  {
    bool f = false;
    for (auto & x : m) if (x.first == e.first && x.second == e.second) f = true;
    check(f, "an iterated pair is in the model");
    n++;
  }
  check(n == m.size(), "the iteration covers the map");
  Key p = key("probe");
  bool k = false, v = false;
  for (auto & e : m) k = k || e.first == p, v = v || e.second == p;
  check(M.HasKey(p) == k && M.HasValue(p) == v, "any key and value is present exactly if it is in the model");
  bool t1 = false, t2 = false;
  try { M.LookupKey(p); } catch (ut::Error &) { t1 = true; }
  try { M.LookupValue(p); } catch (ut::Error &) { t2 = true; }
  check(t1 == !k && t2 == !v, "looking up what is absent throws");
  ut::BijectiveMap<Key, Key> C(M);
  check(C == M && !(C != M), "a copy is equal");
  symx_reach("map");
}
static void disjointSet()
{
  ut::DisjointSet<Key> D;
  std::vector<std::pair<Key, unsigned>> m;
  auto cls = [&](Key k) { for (auto & e : m) if (e.first == k) return (int)e.second; return -1; };
  for (unsigned i = 0; i < initial; i++)
  {
    Key k = key("k");
    D.insert(k);
    if (cls(k) < 0) m.push_back({ k, (unsigned)m.size() });
  }
  for (unsigned i = 0; i < steps; i++)
    switch (pick(4, "op"))
    {
    case 0: { Key k = key("k"); D.insert(k); if (cls(k) < 0) m.push_back({ k, 100 + i }); break; }
    case 1: { Key k = key("k"); auto s = D.find_or_insert(k); if (cls(k) < 0) m.push_back({ k, 100 + i }); check(s == D.find(k), "find_or_insert gives the representative"); break; }
    case 2:
    case 3:
      if (m.size() >= 1)
      {
        auto & x = m[pick((unsigned)m.size(), "x")], & y = m[pick((unsigned)m.size(), "y")];
        auto s = D.merge(x.first, y.first);
        check(s == D.find(x.first) && s == D.find(y.first), "merge returns the common representative");
        unsigned from = y.second, to = x.second;
        for (auto & e : m) if (e.second == from) e.second = to;
      }
      break;
    }
  check(D.nvalues() == m.size() && D.empty() == m.empty(), "the number of values");
  std::vector<unsigned> cs;
  for (auto & e : m) if (std::find(cs.begin(), cs.end(), e.second) == cs.end()) cs.push_back(e.second);
  check(D.nsets() == cs.size(), "the number of sets");
  for (auto & x : m)
  {
    size_t n = 0, it = 0;
    auto s = D.find(x.first);
    check(s->is_root(), "find gives a root");
    for (auto & y : m)
    {
      check((D.find(y.first) == s) == (x.second == y.second), "two elements are together exactly if they were merged");
      n += x.second == y.second;
    }
    check(s->nmembers() == n, "the number of members");
    for (auto & v : *s)
    {
      check(cls(v) == (int)x.second, "an iterated member belongs to the set");
      it++;
    }
    check(it == n, "the iteration covers the members");
  }
  size_t roots = 0;
  for (auto it = D.begin(); it != D.end(); ++it) roots++, check(it->is_root(), "roots are roots");
  check(roots == cs.size(), "the iteration covers the sets");
  symx_reach("sets");
}
static void worklists()
{
  unsigned kind = pick(5, "kind");
  ut::LifoWorklist<Key> lifo;
  ut::FifoWorklist<Key> fifo;
  ut::LrfWorklist<Key> lrf;
  ut::TwoPhaseLrfWorklist<Key> two;
  ut::Workset<Key> ws;
  ut::Worklist<Key> * all[] = { &lifo, &fifo, &lrf, &two, &ws };
  auto & W = *all[kind];
  struct E { Key k; unsigned fire; bool on, cur; unsigned seq; };
  std::vector<E> m;
  unsigned seq = 0, fire = 0;
  auto find = [&](Key k) -> E & { for (auto & e : m) if (e.k == k) return e; m.push_back({ k, 0, false, false, 0 }); return m.back(); };
  for (unsigned i = 0; i < steps; i++)
  {
    bool any = false;
    for (auto & e : m) any |= e.on;
    check(W.HasMoreWorkItems() == any, "there are more items exactly if some were pushed and not popped");
    if (!any || pick(2, "op") == 0)
    {
      Key k = key("k");
      W.PushWorkItem(k);
      E & e = find(k);
      if (!e.on) e.on = true, e.cur = false, e.seq = ++seq;
      continue;
    }
    if (kind == 4)
    {
      Key k = key("k");
      E & e = find(k);
      check(ws.HasWorkItem(k) == e.on, "membership");
      ws.RemoveWorkItem(k);
      e.on = false;
      continue;
    }
    Key k = W.PopWorkItem();
    int at = -1;
    for (unsigned j = 0; j < m.size(); j++) if (m[j].k == k) at = (int)j;
    check(at >= 0 && m[at].on, "an item is popped once for each time it was pushed while absent");
    if (kind == 3)
    {
      bool cur = false;
      for (auto & x : m) cur |= x.on && x.cur;
      if (!cur) for (auto & x : m) if (x.on) x.cur = true;
      check(m[at].cur, "items of the current phase come first");
    }
    for (auto & x : m)
      if (x.on && !(x.k == k))
        switch (kind)
        {
        case 0: check(x.seq < m[at].seq, "last in, first out"); break;
        case 1: check(x.seq > m[at].seq, "first in, first out"); break;
        case 2: check(x.fire >= m[at].fire, "least recently fired first"); break;
        case 3: check(!x.cur || x.fire >= m[at].fire, "least recently fired first within a phase"); break;
        }
    m[at].on = m[at].cur = false;
    m[at].fire = ++fire;
  }
  symx_reach("worklist");
}
static void components()
{
  unsigned n = steps;
  std::vector<std::vector<unsigned>> succ(n);
  unsigned uni = pick(3, "unified"); // 0 nothing; 1 the last with the first; 2 the first with the last
  auto root = [&](unsigned x) { return uni == 1 && x == n - 1 ? 0u : uni == 2 && x == 0 ? n - 1 : x; };
  std::vector<u64> reach(n);
  for (unsigned i = 0; i < n; i++)
    for (unsigned j = 0; j < n; j++)
      if (root(i) == i && symx_var(1, "edge")) succ[i].push_back(j), reach[i] |= 1ull << root(j);
  for (unsigned i = 0; i < n; i++) reach[i] |= 1ull << i;
  for (unsigned k = 0; k < n; k++)
    for (unsigned i = 0; i < n; i++)
      if (reach[i] >> k & 1) reach[i] |= reach[k];
  auto f = [&](unsigned x) -> const std::vector<unsigned> & { return succ[x]; };
  std::vector<unsigned> scc, order;
  unsigned cnt = ut::FindStronglyConnectedComponents<unsigned>(n, root, f, scc, order);
  std::vector<unsigned> pos(n, ~0u);
  unsigned roots = 0;
  for (unsigned i = 0; i < n; i++) roots += root(i) == i;
  check(order.size() == roots, "every node is ordered once");
  for (unsigned i = 0; i < order.size(); i++)
  {
    check(order[i] < n && root(order[i]) == order[i] && pos[order[i]] == ~0u, "every node is ordered once");
    pos[order[i]] = i;
  }
  u64 used = 0;
  for (unsigned i = 0; i < n; i++)
    if (root(i) == i)
    {
      check(scc[i] < cnt, "component indices are below the number of components");
      used |= 1ull << scc[i];
      for (unsigned j = 0; j < n; j++)
        if (root(j) == j)
        {
          bool together = (reach[i] >> j & 1) && (reach[j] >> i & 1);
          check((scc[i] == scc[j]) == together, "nodes are in one component exactly if they reach each other");
          if ((reach[i] >> j & 1) && !together) check(pos[j] < pos[i] && scc[j] < scc[i], "reachable components come first");
          if (scc[i] < scc[j]) check(pos[i] < pos[j], "components are contiguous in the order");
        }
    }
  check(used == (1ull << cnt) - 1, "the number of components");
  symx_reach("components");
}
struct Elem
{
  int id = 0;
  Key k{ 0 };
  static int live;
  Elem() { live++; }
  ~Elem() noexcept { live--; }
  ut::IntrusiveListAnchor<Elem> la{};
  ut::IntrusiveHashAnchor<Elem> ha{};
  using LA = ut::IntrusiveListAccessor<Elem, &Elem::la>;
  using HA = ut::IntrusiveHashAccessor<Key, Elem, &Elem::k, &Elem::ha>;
};
int Elem::live = 0;
template<class L> static void sameList(L & l, const std::vector<int> & m)
{
  size_t i = 0;
  for (auto & e : l)
  {
    check(i < m.size() && e.id == m[i], "the list has the order of its model");
    i++;
  }
  check(i == m.size() && l.size() == m.size() && l.empty() == m.empty(), "the list has the size of its model");
  auto it = l.end();
  for (size_t j = m.size(); j-- > 0;)
  {
    --it;
    check(it->id == m[j], "walking backwards gives the reverse order");
  }
  check(it == l.begin(), "walking backwards ends at the beginning");
}
template<bool own> struct Lists
{
  using L = std::conditional_t<own, ut::OwnerIntrusiveList<Elem, Elem::LA>, ut::IntrusiveList<Elem, Elem::LA>>;
  L l[2];
  std::vector<int> m[2];
  Elem * el[8] = {};
  unsigned N;
  auto wrap(Elem * e) { if constexpr (own) return std::unique_ptr<Elem>(e); else return e; }
  auto at(int w, unsigned p) { auto it = l[w].begin(); while (p--) ++it; return it; }
  void run()
  {
    N = initial + steps;
    auto fresh = [&](int id) { auto e = new Elem; e->id = id; el[id] = e; return wrap(e); };
    int next = 0;
    unsigned na = pick(initial + 1, "inA");
    for (unsigned i = 0; i < initial; i++)
    {
      int w = i < na ? 0 : 1;
      l[w].push_back(fresh(next));
      m[w].push_back(next++);
    }
    for (unsigned i = 0; i < steps; i++)
    {
      int w = (int)pick(2, "list");
      auto & mw = m[w];
      auto & mo = m[1 - w];
      switch (pick(9, "op"))
      {
      case 0: l[w].push_back(fresh(next)); mw.push_back(next++); break;
      case 1: l[w].push_front(fresh(next)); mw.insert(mw.begin(), next++); break;
      case 2:
      {
        unsigned p = pick((unsigned)mw.size() + 1, "position");
        auto it = l[w].insert(at(w, p), fresh(next));
        check(it->id == next, "insert returns the position of the new element");
        mw.insert(mw.begin() + p, next++);
        break;
      }
      case 3:
        if (!mw.empty())
        {
          unsigned p = pick((unsigned)mw.size(), "position");
          if constexpr (own) { auto u = l[w].unlink(at(w, p)); check(u->id == mw[p], "unlink gives the element"); }
          else { auto it = at(w, p); auto e = it.ptr(); auto r = l[w].erase(it); check(p + 1 == mw.size() ? r == l[w].end() : r->id == mw[p + 1], "erase returns the next position"); delete e; }
          mw.erase(mw.begin() + p);
        }
        break;
      case 4:
      {
        if constexpr (!own)
        {
          unsigned a = pick((unsigned)mw.size() + 1, "from"), b = a + pick((unsigned)mw.size() - a + 1, "count");
          l[w].erase(at(w, a), at(w, b));
          for (unsigned j = a; j < b; j++) delete el[mw[j]];
          mw.erase(mw.begin() + a, mw.begin() + b);
        }
        break;
      }
      case 5:
      {
        unsigned p = pick((unsigned)mw.size() + 1, "position");
        l[w].splice(at(w, p), l[1 - w]);
        mw.insert(mw.begin() + p, mo.begin(), mo.end());
        mo.clear();
        break;
      }
      case 6:
      {
        unsigned p = pick((unsigned)mw.size() + 1, "position"), a = pick((unsigned)mo.size() + 1, "from"), b = a + pick((unsigned)mo.size() - a + 1, "count");
        l[w].splice(at(w, p), l[1 - w], at(1 - w, a), at(1 - w, b));
        mw.insert(mw.begin() + p, mo.begin() + a, mo.begin() + b);
        mo.erase(mo.begin() + a, mo.begin() + b);
        break;
      }
      case 7: l[0].swap(l[1]); std::swap(m[0], m[1]); break;
      case 8:
        if (!own) for (int x : mw) delete el[x];
        l[w].clear();
        mw.clear();
        break;
      }
    }
    sameList(l[0], m[0]);
    sameList(l[1], m[1]);
    check((size_t)Elem::live == m[0].size() + m[1].size(), "an owning list deletes exactly the elements it drops");
    L moved(std::move(l[0]));
    sameList(moved, m[0]);
    check(l[0].empty(), "a list that was moved from is empty");
    symx_reach("list");
  }
};
// a hash with few values, decided from the symbolic key
struct FewHash { size_t operator()(const Key & k) const noexcept { return symx_concretize(k.v < 100 ? 1 : k.v < 150 ? 2 : k.v < 200 ? 5 : 0); } };
struct EqualKey { bool operator()(const Key & a, const Key & b) const noexcept { return a == b; } };
static void intrusiveHash()
{
  ut::IntrusiveHash<Key, Elem, Elem::HA, FewHash, EqualKey> H;
  std::vector<Elem> pool(8);
  std::vector<Elem *> m;
  auto find = [&](Key k) -> Elem * { for (auto e : m) if (e->k == k) return e; return nullptr; };
  unsigned next = 0;
  for (unsigned i = 0; i < initial + steps; i++)
    switch (i < initial ? 0 : pick(4, "op"))
    {
    case 0:
    {
      Key k = key("k");
      if (find(k)) break;
      pool[next].k = k;
      auto it = H.insert(&pool[next]);
      check(it.ptr() == &pool[next], "insert returns the element");
      m.push_back(&pool[next++]);
      break;
    }
    case 1:
      if (!m.empty())
      {
        unsigned j = pick((unsigned)m.size(), "which");
        H.erase(m[j]);
        m.erase(m.begin() + j);
      }
      break;
    case 2:
    {
      Key k = key("k");
      auto e = find(k);
      H.erase(k);
      if (e) m.erase(std::find(m.begin(), m.end(), e));
      break;
    }
    case 3:
      if (pick(2, "clear")) { H.clear(); m.clear(); }
      else { decltype(H) G(std::move(H)); check(H.empty(), "moved from"); H.swap(G); }
      break;
    }
  check(H.size() == m.size() && H.empty() == m.empty(), "the table has the size of its model");
  size_t n = 0;
  for (auto it = H.begin(); it != H.end(); ++it) n++, check(std::find(m.begin(), m.end(), it.ptr()) != m.end(), "an iterated element is in the model");
  check(n == m.size(), "the iteration covers the table");
  for (auto e : m) check(H.find(e->k).ptr() == e, "elements are found");
  Key p = key("probe");
  auto it = H.find(p);
  check((it == H.end() ? nullptr : it.ptr()) == find(p), "any key is found exactly if it is in the model");
  symx_reach("hash");
}
extern "C" void harness_main()
{
  steps = (unsigned)symx_arg(1);
  initial = (unsigned)symx_arg(2);
  switch (symx_arg(0))
  {
  case 0: return hashSet();
  case 1: return bijectiveMap();
  case 2: return disjointSet();
  case 3: return worklists();
  case 4: return components();
  case 5: if (pick(2, "owning")) Lists<true>().run(); else Lists<false>().run(); return;
  default: return intrusiveHash();
  }
}
