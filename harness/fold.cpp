// Simplification of integer operations: op(a,b) where a, b are symbolic constants or parameters, through NodeReduction.
// arg0: bit widths: 0 = {8}, 1 = {1,3,8}, 2 = {1,3,8,32,64}
#include "jv_build.hpp"
#include <jlm/llvm/opt/NodeReduction.hpp>
using namespace jv;
static unsigned W;
static std::unique_ptr<jl::LlvmRvsdgModule> build(Choices & ch)
{
  auto m = newModule();
  IOp op = (IOp)ch.pick(23, "op");
  bool cmp = op >= IOp::Eq;
  Fn f(m->Rvsdg().GetRootRegion(), "f", { bt(W), bt(W) }, { bt(cmp ? 1 : W) });
  auto operand = [&](int i) -> O *
  {
    switch (ch.pick(3, i ? "kindB" : "kindA"))
    {
    case 0: return cst(*f.r, W, ch.sym(W, i ? "cB" : "cA"));
    case 1: return f.args[0];
    default: return i ? f.args[1] : jl::PoisonValueOperation::Create(f.r, bt(W));
    }
  };
  O * a = operand(0), * b = operand(1);
  O * x = ibin(op, *a, *b);
  exportFn(*m, *f.finish({ x }), "f");
  return m;
}
void harness_main()
{
  static const unsigned ws[] = { 8, 1, 3, 32, 64 };
  unsigned nw = symx_arg(0) == 0 ? 1 : symx_arg(0) == 1 ? 3 : 5;
  W = ws[symx_choose(nw, "width")];
  World w;
  u64 x = symx_var(W, "x"), y = symx_var(W, "y");
  jl::NodeReduction pass;
  validate(w, build, [&](auto & m) { runPass(pass, m); }, { Val(x), Val(y) });
}
