from registry import P, SEM
from reg_opt import TV, WHYT, FAMS, OUTS, BND
CFGF = 'control flow graphs of every shape (any successors, self loops, irreducible, switches) up to a number of basic blocks, in SSA form and with mutable variables; all inputs'
CFGB = 'shapes: every graph with 2 blocks (contents: all 8 patterns) and with 3 blocks (one pattern), up to 2 successors each (thorough: also 3 successors and more patterns), every block reaching the exit; 5 blocks executed at most. '
CFGW = 'The unit tests check a dozen hand-drawn graphs, mostly by counting nodes; whether the result computes the same for every graph shape and input is not tested.'
COMP = ['compared', 'raised']


def runs(n, reach, sets, opts=5):
    rs = [dict(h='opt', quick=[[n, k] for k in range(opts)], thorough=[[n, k, 1] for k in range(opts)], reach=reach, deadline=600)]
    for h, fams in sets:
        rs.append(dict(h=h, quick=[[n, k] for k in fams], thorough=[[n, k, 1] for k in fams], reach=reach))
    return rs


P('F01', 'Control flow graphs become RVSDG functions with the same behaviour',
  'Converting a function given as a control flow graph, of whatever shape (nested, irreducible and multi-exit loops, switches, unstructured branches, phi nodes that depend on each other), into the RVSDG succeeds and gives a function with the same results, external calls in the same order, and final memory for every input.',
  TV, CFGF, CFGW, ['jlm/llvm/frontend/InterProceduralGraphConversion.cpp', 'jlm/llvm/ir/Annotation.cpp', 'jlm/llvm/ir/aggregation.cpp', 'jlm/llvm/ir/variable.hpp', 'jlm/llvm/frontend/ControlFlowRestructuring.cpp', 'jlm/llvm/ir/ssa.cpp'],
  [('conversion of aggregation trees', 'jlm/llvm/frontend/InterProceduralGraphConversion.cpp'), ('demand annotation', 'jlm/llvm/ir/Annotation.cpp')],
  CFGB, 'functions with more blocks; several functions (see O08, F02); varargs.',
  [dict(h='cfg', quick=[[2, 2, 99, 2], [2, 3, 0, 2, 4]], thorough=[[2, 2, 99, 2], [2, 3, 0, 2], [2, 3, 2, 2, 4], [2, 3, 4, 2, 4], [2, 2, 0, 3]], reach=['converted'], deadline=800)], assumptions=[SEM])
P('F02', 'RVSDG functions become control flow graphs with the same behaviour',
  'Lowering any RVSDG program to control flow graphs gives valid graphs, and functions with the same results, external calls in the same order, and final memory for every input and initial memory; raising these graphs to the RVSDG again keeps the behaviour as well.',
  TV, FAMS, 'The unit tests check the shape of a few lowered functions; none runs the result, and none ranges over programs or inputs.',
  ['jlm/llvm/backend/RvsdgToIpGraphConverter.cpp', 'jlm/llvm/frontend/InterProceduralGraphConversion.cpp'], [('lowering of gamma, theta, lambda, phi and delta nodes', 'jlm/llvm/backend/RvsdgToIpGraphConverter.cpp')],
  BND, OUTS + 'emission of LLVM instructions.',
  runs(30, COMP, [('loops', [0, 1, 4, 6]), ('focus', [2, 3, 4, 5]), ('alias', [1, 2, 3]), ('shapes', [0, 1, 2, 3])], 2), assumptions=[SEM])
P('F03', 'Restructured control flow is structured and behaves the same',
  'Control flow restructuring turns every closed control flow graph into a proper structured one (restructuring loops alone, an acyclic graph by branches alone, likewise) that executes the same operations on the same values for every input.',
  TV, CFGF, CFGW, ['jlm/llvm/frontend/ControlFlowRestructuring.cpp', 'jlm/llvm/ir/cfg-structure.cpp'], [('loop and branch restructuring', 'jlm/llvm/frontend/ControlFlowRestructuring.cpp')],
  CFGB, 'functions with more blocks.',
  [dict(h='cfg', quick=[[1, 2, 99, 2], [1, 3, 0, 2, 4]], thorough=[[1, 2, 99, 2], [1, 3, 0, 2], [1, 2, 0, 3]], reach=['restructured'], deadline=800)], assumptions=[SEM])
P('F04', 'SSA destruction, straightening, pruning and purging keep behaviour',
  'Removing unreachable blocks, merging straight-line blocks, replacing phi operations by assignments (also when phis read each other, on shared edges and around self loops) and purging empty blocks each keep the results, external calls and final memory of a function for every input, and leave a valid graph.',
  TV, CFGF + '; also unreachable blocks', CFGW, ['jlm/llvm/ir/ssa.cpp', 'jlm/llvm/ir/cfg-structure.cpp', 'jlm/llvm/ir/cfg.cpp'], [('SSA destruction', 'jlm/llvm/ir/ssa.cpp'), ('straightening, purging, pruning', 'jlm/llvm/ir/cfg-structure.cpp')],
  CFGB, 'functions with more blocks.',
  [dict(h='cfg', quick=[[0, 2, 99, 2, 4], [0, 3, 0, 2, 3]], thorough=[[0, 2, 99, 2], [0, 3, 0, 2], [0, 2, 0, 3, 4]], reach=['straightened', 'destructed', 'purged'], deadline=800)], assumptions=[SEM])
P('F06', 'Control flow graph analyses agree with their definitions',
  'For every control flow graph: the dominator tree contains exactly the dominance relation; the strongly connected components and their entry, exit and repetition edges are exact; the acyclicity and reducibility tests answer correctly; postorder, reverse postorder and breadth-first order contain every node once, and reverse postorder is topological on acyclic graphs. This also holds for straightened and restructured graphs.',
  ['inputs'], 'control flow graphs of every shape up to a number of basic blocks', 'The unit tests check a handful of small graphs.',
  ['jlm/llvm/ir/domtree.cpp', 'jlm/llvm/ir/cfg-structure.cpp', 'jlm/llvm/ir/cfg.cpp'], [('dominator tree', 'jlm/llvm/ir/domtree.cpp'), ('components, reducibility', 'jlm/llvm/ir/cfg-structure.cpp')],
  'every graph with 2 blocks of up to 3 successors and 3 blocks of up to 2 successors (thorough: 3 blocks of up to 3 successors). The shape is the only symbolic input: every path decides its assertions without further solver queries.', 'graphs with more blocks.',
  [dict(h='cfg', quick=[[3, 2, 0, 3], [3, 3, 0, 2]], thorough=[[3, 2, 0, 3], [3, 3, 0, 3]], reach=['analysed', 'structured'], deadline=800)])
AL = [('alias', [0, 1, 2, 3, 4, 5, 6]), ('focus', [2, 3, 4, 5]), ('loops', [0, 1, 6]), ('shapes', [2, 3])]
P('A01', 'Points-to sets contain everything a pointer can point to',
  'In every execution of a program, whatever a pointer value points to (a local, heap or global object, a function, an imported object, or memory only the environment knows) is in the set the points-to analysis computes for it; the same holds for pointers held in memory. The sizes and the constness the analysis reports for memory objects are right.',
  TV, FAMS, 'The unit tests compare points-to sets of a few hand-written programs with expected sets; they do not run the programs.',
  ['jlm/llvm/opt/alias-analyses/Andersen.cpp', 'jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp', 'jlm/llvm/opt/alias-analyses/PointsToGraph.cpp'], [('constraint generation', 'jlm/llvm/opt/alias-analyses/Andersen.cpp')],
  BND, OUTS + 'pointers forged from integers.', runs(40, ['analysed', 'pointer'], AL), assumptions=[SEM])
P('A02', 'All solvers of the points-to analysis find the same least solution',
  'For every set of points-to constraints, every configuration of the solver (naive or worklist with any policy, offline variable substitution, constraint normalization, online, hybrid and lazy cycle detection, difference propagation, implicit pointees) computes the least solution: who points to whom, who points to external memory, and what escapes. (With offline variable substitution, if every accessed pointer points to something; the solution always contains the least one.)',
  ['inputs', 'configurations'], 'all sets of up to 3 (thorough: 4) free constraints of every kind over 3 to 7 pointer objects on top of fixed ones; a covering set of configurations (thorough: all)', 'The unit tests solve a few fixed constraint sets with some configurations.',
  ['jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp', 'jlm/llvm/opt/alias-analyses/Andersen.cpp', 'jlm/llvm/opt/alias-analyses/LazyCycleDetection.hpp', 'jlm/llvm/opt/alias-analyses/OnlineCycleDetection.hpp', 'jlm/llvm/opt/alias-analyses/DifferencePropagation.hpp', 'jlm/util/Worklist.hpp'],
  [('worklist solver', 'jlm/llvm/opt/alias-analyses/PointerObjectSet.cpp')],
  'subset cycles, loads and stores, escape flags: 3 or 4 constraints; function calls: 2. The constraints are the only symbolic input: every path decides its assertions without further solver queries.', 'larger constraint sets.',
  [dict(h='andersen', quick=[[0, 4], [1, 3], [2, 3], [3, 1]], thorough=[[0, 4, 1], [1, 4], [2, 3, 1], [3, 2]], reach=['solved'], deadline=800)])
P('A03', 'Answers to alias queries are true in every execution',
  'When the local analysis, the points-to analysis, or a chain of them answers NoAlias for two accesses, they never overlap within an execution of the region that contains both; when the answer is MustAlias, the addresses are equal. The order of the two accesses does not matter.',
  TV, FAMS, 'The unit tests ask fixed questions about a few programs; they do not run them.',
  ['jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp', 'jlm/llvm/opt/alias-analyses/PointsToGraphAliasAnalysis.cpp', 'jlm/llvm/opt/alias-analyses/AliasAnalysis.cpp', 'jlm/llvm/ir/Trace.cpp'], [('local alias analysis', 'jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp')],
  BND, OUTS + 'queries about pointers that are not accessed.', runs(41, ['analysed'], AL), assumptions=[SEM])
