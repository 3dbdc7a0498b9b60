// Programs over several memory objects, each ordered by its own memory state.
#pragma once
#include "jv_build.hpp"
namespace jv
{
struct MemProg
{
  Choices & ch;
  R & r;
  // objects: 0.. n-1; each with an address and the current state of its own
  std::vector<O *> addr, st;
  std::vector<O *> results;
  MemProg(Choices & c, R & rr) : ch(c), r(rr) {}
  void alloca_(Ty t)
  {
    auto o = jl::AllocaOperation::create(t, cst(r, 32, 1), 1);
    addr.push_back(o[0]);
    st.push_back(o[1]);
  }
  void object(O & a, O & s) { addr.push_back(&a); st.push_back(&s); }
  // the states an access takes: object indices, duplicates allowed
  std::vector<unsigned> states(unsigned own, unsigned variant)
  {
    unsigned n = st.size(), o = own ? 0 : 1, o2 = n < 3 ? o : 3 - own - o;
    switch (variant)
    {
    case 0: return { own };
    case 1: return { own, o };
    case 2: return { o, own };
    case 3: return { own, own };
    case 4: return { o, own, o2 };
    default: return { o, o, own };
    }
  }
  void put(const std::vector<unsigned> & ix, const std::vector<O *> & out)
  {
    // of a duplicated state the last output carries on, the others are joined in at the end
    for (size_t i = 0; i < ix.size(); i++) st[ix[i]] = out[i];
  }
  O * load(unsigned own, O & a, Ty t, unsigned variant)
  {
    auto ix = states(own, variant);
    std::vector<O *> in;
    for (auto i : ix) in.push_back(st[i]);
    auto & n = jl::LoadNonVolatileOperation::CreateNode(a, in, t, 1);
    std::vector<O *> out;
    for (size_t i = 0; i < ix.size(); i++) out.push_back(n.output(1 + i));
    put(ix, out);
    return n.output(0);
  }
  void store(unsigned own, O & a, O & v, unsigned variant)
  {
    auto ix = states(own, variant);
    std::vector<O *> in;
    for (auto i : ix) in.push_back(st[i]);
    auto & n = jl::StoreNonVolatileOperation::CreateNode(a, v, in, 1);
    std::vector<O *> out;
    for (size_t i = 0; i < ix.size(); i++) out.push_back(n.output(i));
    put(ix, out);
  }
};
inline O * gepBytes(O & base, O & index)
{
  return jl::GetElementPtrOperation::createNode(base, { &index }, bt(8)).output(0);
}
}
