from registry import P, SEM
from reg_opt import TV, FAMS, OUTS, BND
R = 'jlm/rvsdg/'
GR = [R + f for f in ('region.cpp', 'node.cpp', 'region.hpp', 'node.hpp')]
LIB = dict(h='graphs', libs='util,rvsdg,llvm')
NOTE = 'The choices of edits are the symbolic input; sets of edges to divert are symbolic bit masks decided by the solver.'
P('R01', 'Graph edits keep the graph consistent and tell every observer',
  'After any sequence of edits of a region (creating, removing and diverting nodes, arguments, results, inputs and outputs, dividing users of an output, pruning), its graph is consistent: users and origins agree, indices are dense, the sets of nodes, top nodes and bottom nodes and all counts are exact, and exactly the intended edges have changed. Every registered observer is told about each created and destroyed node and input and each changed edge, exactly once and with the right values.',
  ['histories'], 'all sequences of edits up to a length, from initial graphs that include all graphs of 3 (thorough: 4) nodes; any choice of edges', 'The unit tests make a few edits and check one count each; notifications are checked for single edits only.',
  GR + [R + 'graph.cpp', R + 'gamma.cpp', R + 'theta.cpp'], [('edges and their users', R + 'node.cpp'), ('regions, removal, pruning, observers', R + 'region.cpp')],
  'one to three edits of every kind from six initial graphs of up to six nodes and from every graph of three nodes. ' + NOTE, 'longer histories; edits during a notification.',
  [dict(LIB, quick=[[0, 1, k, 0] for k in range(6)] + [[0, 2, 2, 4], [0, 2, 3, 1], [0, 2, 3, 2], [0, 1, 6, 4]], thorough=[[0, 2, k, 0] for k in range(6)] + [[0, 3, 2, 4], [0, 3, 3, 2], [0, 2, 6, 4]], reach=['edited'], deadline=700)])
P('R05', 'Variables of structural nodes stay matched with arguments and results',
  'After any sequence of adding and removing variables of conditionals, loops, functions, constants and recursive bindings, every variable is still made of the input, arguments, results and output that belong together, in the same order, and maps from any of these to the variable agree; removing by a condition removes exactly the variables that may be removed and match it.',
  ['histories'], 'all sequences of additions and removals up to a length, for each kind of structural node', 'The unit tests remove one or two fixed variables.',
  [R + f for f in ('gamma.cpp', 'theta.cpp', 'lambda.cpp', 'delta.cpp', 'Phi.cpp', 'structural-node.cpp')], [('gamma entry and exit variables', R + 'gamma.cpp'), ('loop variables', R + 'theta.cpp'), ('fixpoint variables', R + 'Phi.cpp')],
  '3 to 4 (thorough: 5) additions or removals (removals with every subset of variables). ' + NOTE, 'longer histories.',
  [dict(LIB, quick=[[1, 3, 0], [1, 3, 1], [1, 4, 2], [1, 4, 3], [1, 4, 4], [1, 4, 5]], thorough=[[1, 4, 0], [1, 4, 1], [1, 5, 2], [1, 5, 3], [1, 5, 4], [1, 5, 5]], reach=['edited'], deadline=700)])
P('R02', 'Traversers visit every node once, in order, also while edited',
  'A top-down traverser visits every node of a region after all the nodes it depends on, a bottom-up traverser before them, each exactly once; when nodes are created, removed or edges are diverted between two steps, nodes not yet visited are still visited exactly once and in an order that respects the dependencies, removed nodes are not visited, and new nodes are visited or not as documented.',
  ['histories'], 'all graphs of 3 (thorough: 4) nodes and further shapes; one or two edits of every kind at every point of the traversal', 'The unit tests traverse fixed graphs, with one edit at a fixed point.',
  [R + 'traverser.cpp', R + 'traverser.hpp'], [('top-down traverser', R + 'traverser.cpp'), ('tracker of node states', R + 'traverser.hpp')],
  'one or two edits at any step. ' + NOTE, 'larger graphs, more edits.',
  [dict(LIB, quick=[[f, 1, k, 3] for f in (2, 3) for k in (0, 2, 3, 4)] + [[f, 2, 1, 4] for f in (2, 3)], thorough=[[f, 2, k, 3] for f in (2, 3) for k in range(6)] + [[f, 1, 6, 3] for f in (2, 3)], reach=['traversed'], deadline=700)])
FA = [('loops', [0, 1, 4]), ('shapes', [0, 1, 2, 3]), ('focus', [2, 4]), ('alias', [2])]
P('R03', 'Copies of nodes, regions and modules behave like the original',
  'A program in which every function, global and recursive binding is replaced by its copy, in which every function body is copied into a new function, or which is copied as a whole, computes what the original computes for every input, and does not depend on it; copying does not change the original, and maps every output to its copy.',
  TV, FAMS, 'The unit tests copy single nodes and count; copies of recursive bindings and globals were broken and passed them.',
  [R + f for f in ('gamma.cpp', 'theta.cpp', 'lambda.cpp', 'delta.cpp', 'Phi.cpp', 'region.cpp', 'graph.cpp', 'substitution.hpp')], [('copying of regions', R + 'region.cpp'), ('copying of structural nodes', R + 'Phi.cpp')],
  BND, OUTS + 'nodes of the HLS dialect.',
  [dict(h='opt', quick=[[50, k] for k in (1, 2, 3, 4)], thorough=[[n, k, 1] for n in (50, 51, 52) for k in range(5)], reach=['compared'])] +
  [dict(h=h, quick=[[50, k] for k in ks], thorough=[[n, k, 1] for n in (50, 51, 52) for k in ks], reach=['compared']) for h, ks in FA] +
  [dict(h='opt', quick=[[n, k] for n in (51, 52) for k in (2, 4)], reach=['compared']), dict(h='shapes', quick=[[n, k] for n in (51, 52) for k in (0, 2)], reach=['compared']), dict(h='focus', quick=[[51, 5], [52, 5]], reach=['compared'])], assumptions=[SEM])
P('R06', 'Tracing a value leads to where that same value comes from',
  'In every execution, the output that tracing (with or without cache, deep or shallow, within a region or function or beyond) finds for a value holds the same value, in the same or an enclosing region; a value said to be constant is that constant; a pointer traced precisely is its origin plus the offset given, and otherwise comes from one of the origins found; a region entered after another was never said to be excluded by the predicates of conditionals.',
  TV, FAMS, 'The unit tests trace a few values of fixed graphs.',
  [R + 'Trace.cpp', R + 'RegionPredicateTrace.cpp', 'jlm/llvm/ir/Trace.cpp'], [('tracing through gamma, theta, lambda and phi', R + 'Trace.cpp'), ('LLVM tracing, constants, pointers', 'jlm/llvm/ir/Trace.cpp'), ('region predicates', R + 'RegionPredicateTrace.cpp')],
  BND, OUTS + 'memory states are only checked for where tracing ends.',
  [dict(h='opt', quick=[[42, k] for k in (1, 2, 3, 4)], thorough=[[n, k, 1] for n in (42, 43) for k in range(5)], reach=['analysed', 'traced'])] +
  [dict(h=h, quick=[[42, k] for k in ks], thorough=[[n, k, 1] for n in (42, 43) for k in ks], reach=['analysed', 'traced']) for h, ks in
   (('loops', [0, 1, 3, 4]), ('shapes', [0, 1, 2, 3]), ('focus', [0, 2, 4]), ('alias', [0, 1, 2, 4, 5, 6]))] +
  [dict(h='loops', quick=[[43, 0], [43, 1]], reach=['analysed', 'traced'])], assumptions=[SEM])
