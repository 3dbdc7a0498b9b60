// Any optimisation on any family of programs. arg0: pass; arg1: family of programs; arg2: 1 = larger families, 2 = smaller
#include "jv_progs.hpp"
#include "jv_passes.hpp"
using namespace jv;
void harness_main()
{
  unsigned pass = symx_arg(0), kind = symx_arg(1);
  bool deep = symx_arg(2) == 1;
  World w;
  auto args = stdArgs(w);
  validate(w, [&](Choices & ch) { return program(ch, kind, deep); }, [&](jl::LlvmRvsdgModule & m) { runNamed(pass, m); }, args);
}
