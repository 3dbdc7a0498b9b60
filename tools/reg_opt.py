from registry import P, notapp, SEM
TV = ['programs', 'inputs']
WHYT = 'The unit tests compare the shape of a few hand-written graphs before and after; none of them runs the program, and none ranges over constants, inputs or graph shapes.'
P('O01', 'Integer operations are simplified without changing their value',
  'Simplifying a program\'s integer arithmetic, bitwise, shift and comparison operations never changes what the program computes: for all constant and variable operands and widths, the simplified program returns the same value wherever the original is defined, and simplification itself never fails.',
  TV, 'all 23 integer binary operations, operands that are constants (any value), parameters (any value) or poison, over several bit widths',
  WHYT, ['jlm/llvm/opt/NodeReduction.cpp', 'jlm/llvm/ir/operators/IntegerOperations.cpp', 'jlm/rvsdg/bitstring/value-representation.hpp', 'jlm/rvsdg/binary.cpp'],
  [('constant folding and algebraic reduction of binary operations', 'jlm/llvm/ir/operators/IntegerOperations.cpp'), ('node reduction driver', 'jlm/llvm/opt/NodeReduction.cpp')],
  'one operation per program; widths 1, 3 and 8 bits (quick), also 32 and 64 (thorough); both operands fully symbolic.',
  'expression trees of several operations (O03), vectors, floating point.',
  [dict(h='fold', quick=[[1]], thorough=[[1], [2]], reach=['compared'])], assumptions=[SEM])
P('O02', 'Loads, stores and memory states are simplified without changing behaviour',
  'Node reduction of loads, stores and memory state merges, joins and splits (store-to-load forwarding, dead and duplicate stores, removal of irrelevant or duplicate memory states, removal of IO barriers) never changes what a program computes: every load sees the same bytes, conflicting accesses stay ordered, accesses that must not happen before a call that may not return do not move before it, and the final memory is the same.',
  TV, 'sequences of loads and stores of different widths over two local objects and one environment object, with all wirings of their memory states (own, foreign, duplicated, reordered), address offsets, and nests of merges, joins and splits; all stored values and initial memory contents',
  WHYT, ['jlm/llvm/ir/operators/Load.cpp', 'jlm/llvm/ir/operators/Store.cpp', 'jlm/llvm/ir/operators/MemoryStateOperations.cpp', 'jlm/llvm/opt/NodeReduction.cpp'],
  [('load reductions', 'jlm/llvm/ir/operators/Load.cpp'), ('store reductions', 'jlm/llvm/ir/operators/Store.cpp'), ('memory state reductions', 'jlm/llvm/ir/operators/MemoryStateOperations.cpp')],
  'up to two (thorough: three) free accesses plus initialisation and final reads; three objects of at most 4 bytes; 8- and 16-bit accesses; offsets: any 8-bit constant or any 64-bit run-time value.',
  'volatile accesses, aggregates, more than three memory states.',
  [dict(h='memred', quick=[[0], [1], [2]], thorough=[[0, 1], [1], [2]], reach=['compared'])], assumptions=[SEM])
P('O03', 'Scalar expressions and conditionals are simplified without changing their value',
  'Node reduction of expression chains, sign/zero extensions and truncations, matches, conditionals with a statically known predicate, comparisons of pointers with null, and address computations never changes what a program returns or stores, for all inputs and constants.',
  TV, 'chains of three operations over shared operands, chains of three conversions over six widths, conditionals with 2 or 3 alternatives over matches with any key mapping, pointer comparisons against null of every kind of pointer, one or two address computations over scalars, structs and arrays; all inputs, all 8-bit constants',
  WHYT, ['jlm/llvm/opt/NodeReduction.cpp', 'jlm/llvm/ir/operators/ConversionOperations.cpp', 'jlm/llvm/ir/operators/operators.cpp', 'jlm/llvm/ir/operators/GetElementPtr.cpp', 'jlm/rvsdg/gamma.cpp', 'jlm/rvsdg/control.hpp', 'jlm/rvsdg/binary.cpp'],
  [('node reduction driver', 'jlm/llvm/opt/NodeReduction.cpp'), ('conversions', 'jlm/llvm/ir/operators/ConversionOperations.cpp'), ('statically known predicates', 'jlm/rvsdg/gamma.cpp')],
  'the program families above; one function; loops run at most 4 iterations.',
  'floating point; vectors; pointer comparisons other than against null.',
  [dict(h='reduce', quick=[[0], [1], [2], [3], [4]], thorough=[[0, 1], [1, 1], [2], [3], [4]], reach=['compared'])], assumptions=[SEM])


FAMS = 'generated programs: conditionals (also nested, switches), loops with up to three iterations carrying values and memory, functions calling each other and external functions with globals and recursion, local objects and aggregates, conditionals inside loops and loops inside conditionals; all inputs, initial memory contents and constants chosen symbolically'
BND = ('programs of the families named in the quantifier, about 3 to 30 operations, at most 4 parameters; 8-bit data; loops run at most 5 times (12 in unrolled loops); recursion and loops beyond that are cut. ')
OUTS = 'larger programs; floating point, vectors, varargs; '


def PASS(id, title, statement, n, files, mech, runs, extra='', out='', more='', also=()):
    rs = [dict(h='opt', quick=[[n, k] for k in range(5)], thorough=[[n, k, 1] for k in range(5)], reach=['compared'], deadline=600)]
    for h, fams, reach in runs:
        rs.append(dict(h=h, quick=[[n, k] if isinstance(k, int) else [n] + list(k) for k in fams],
                       thorough=[[n, k, 1] if isinstance(k, int) else [n] + list(k) for k in fams], reach=reach))
    rs += also
    P(id, title, statement, TV, FAMS + extra, WHYT, files, mech, BND + more, OUTS + (out or 'other program shapes'), rs, assumptions=[SEM])


CH, CO = ['compared', 'changed'], ['compared']
PRE = 'never changes what a program computes: for every program, input and initial memory its results, final memory and external calls (with their arguments, in order) stay the same wherever the original is defined'
PASS('O04', 'Common subexpressions are merged without changing behaviour',
     'Common node elimination ' + PRE + '; only expressions that compute the same value, and only state-dependent operations acting on the same state, are merged.', 1,
     ['jlm/llvm/opt/CommonNodeElimination.cpp'], [('partition of equal values', 'jlm/llvm/opt/CommonNodeElimination.cpp')],
     [('focus', [0, 1, 2, 3, 4, 5], CO), ('loops', [0, 1, 4, 6], CO), ('shapes', [0, 1], CH), ('shapes', [2, 3], CO)])
PASS('O05', 'Only dead code is removed',
     'Dead node elimination ' + PRE + '; the remaining program is structurally sound and everything that is still used is still there.', 2,
     ['jlm/llvm/opt/DeadNodeElimination.cpp', 'jlm/rvsdg/gamma.cpp', 'jlm/rvsdg/theta.cpp', 'jlm/rvsdg/Phi.cpp', 'jlm/rvsdg/lambda.cpp'], [('mark and sweep', 'jlm/llvm/opt/DeadNodeElimination.cpp')],
     [('focus', [0, 1, 2, 3, 4, 5], CO), ('loops', [0, 1, 4], CO), ('shapes', [0, 1], CO)])
PASS('O06', 'Redirecting invariant values past structures and calls keeps behaviour',
     'Invariant value redirection ' + PRE + '; a use is redirected past a conditional, loop or call only if the value is the same before and after it.', 3,
     ['jlm/llvm/opt/InvariantValueRedirection.cpp'], [('redirection of gamma, theta and call outputs', 'jlm/llvm/opt/InvariantValueRedirection.cpp')],
     [('focus', [2, 3, 4, 5], CH), ('focus', [0, 1], CO), ('loops', [0, 1, 4], CO), ('shapes', [0, 1], CO)])
PASS('O07', 'Loop unrolling executes the loop body the same number of times',
     'Loop unrolling ' + PRE + ': a counted loop executes its body exactly as often as before, whether its bounds are known at compile time or only at run time.', 4,
     ['jlm/llvm/opt/unroll.cpp', 'jlm/llvm/opt/unroll.hpp'], [('unrolling of loops with known and unknown bounds', 'jlm/llvm/opt/unroll.cpp')],
     [('loops', [(5,), (5, 1)], CH)], extra='; counted loops over bit strings with start 0..2, length 0..6, step 1..3, four comparisons, and loops whose bounds are run-time values',
     out='loops whose counter wraps around, or overflows when advanced by a whole unrolled block; equality and subtractive forms of counted loops', more='Run-time bounds below 100 with at most 12 iterations. ')
PASS('O08', 'Loop unswitching keeps the behaviour of loops',
     'Turning a loop with an inner conditional on its own exit condition into a head-controlled form ' + PRE + '.', 5,
     ['jlm/llvm/opt/LoopUnswitching.cpp'], [('unswitching of a theta with a gamma', 'jlm/llvm/opt/LoopUnswitching.cpp')],
     [('loops', [1], CH), ('loops', [0, 4], CO), ('focus', [3], CO)], extra='; for-loops in the form the frontend produces, with 0..3 iterations and breaks; loops whose predicate is correlated first',
     also=[dict(h='loops', quick=[[25, 0]], thorough=[[25, 0, 1]], reach=CH)])
PASS('O09', 'Code is hoisted only where it computes the same and is safe',
     'Node hoisting ' + PRE + '; computations leave loops and conditionals only if they compute the same there.', 6,
     ['jlm/llvm/opt/push.cpp'], [('hoisting from gamma and theta nodes', 'jlm/llvm/opt/push.cpp')],
     [('focus', [2, 3, 4], CH), ('focus', [0, 1, 5], CO), ('loops', [0, 1, 3, 4, 6], CO), ('shapes', [1, 2, 3], CO)])
PASS('O10', 'Code is sunk into conditionals without changing behaviour',
     'Node sinking ' + PRE + '; a computation moves into a conditional only if every use of it is in there.', 7,
     ['jlm/llvm/opt/pull.cpp'], [('pulling nodes into gammas', 'jlm/llvm/opt/pull.cpp')],
     [('loops', [1], CH), ('loops', [0, 4], CO), ('focus', [0, 1, 2, 3, 4, 5], CO)])
PASS('O11', 'Inlining a call behaves like the call',
     'Function inlining ' + PRE + '; the inlined body reads and writes the same objects in the same order as the call did, including objects the callee only knows as external memory.', 8,
     ['jlm/llvm/opt/inlining.cpp'], [('inlining of a call', 'jlm/llvm/opt/inlining.cpp')],
     [('focus', [5], CH), ('focus', [4], CO), ('alias', [1, 2], CO), ('shapes', [0], CO)], extra='; calls whose memory states are split per object in the caller, at the call, and in the callee, with all combinations of which objects each of them distinguishes')
PASS('O12', 'Correlated loop and conditional predicates are merged soundly',
     'Predicate correlation ' + PRE + '.', 9, ['jlm/llvm/opt/PredicateCorrelation.cpp'], [('correlation of theta and gamma predicates', 'jlm/llvm/opt/PredicateCorrelation.cpp')],
     [('loops', [0], CH), ('loops', [1, 4], CO), ('focus', [0], CO), ('shapes', [0, 1], CO)], extra='; loops whose predicate comes out of a conditional directly, through constants, or through a match')
PASS('O13', 'Conditionals become selects that choose the same value',
     'If conversion ' + PRE + '.', 10, ['jlm/llvm/opt/IfConversion.cpp'], [('conversion of pass-through gammas to selects', 'jlm/llvm/opt/IfConversion.cpp')],
     [('focus', [0], CH), ('focus', [1, 2], CO), ('loops', [0, 1], CO), ('shapes', [0], CO)], extra='; conditionals over every kind of predicate (any key, either alternative, switches, constant predicates) that choose among values, constants and pointers')
PASS('O14', 'A forwarded load yields the value that is in memory',
     'Store value forwarding ' + PRE + '; a load is replaced by an earlier stored or loaded value only if memory holds that value, on every path and in every iteration.', 11,
     ['jlm/llvm/opt/StoreValueForwarding.cpp', 'jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp'], [('tracing of stored values through states', 'jlm/llvm/opt/StoreValueForwarding.cpp'), ('alias queries', 'jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.cpp')],
     [('focus', [2, 3, 4, 5], CH), ('focus', [1], CO), ('loops', [1, 3, 4], CO), ('loops', [6], CH), ('alias', [0, 1, 2, 3, 4, 5, 6], CO), ('shapes', [2], CO), ('shapes', [3], CH)])
PASS('O15', 'Separated loads stay ordered with the modifications of memory',
     'Load chain separation ' + PRE + '; only loads lose their mutual order: every load still executes after and before the same modifications of the memory it reads.', 12,
     ['jlm/llvm/opt/LoadChainSeparation.cpp'], [('separation of read chains', 'jlm/llvm/opt/LoadChainSeparation.cpp')],
     [('focus', [2, 4, 5], CH), ('focus', [1, 3], CO), ('loops', [1, 3, 4, 6], CO), ('shapes', [2], CH), ('shapes', [3], CO), ('alias', [0, 1, 2, 3, 4, 5, 6], CO)])
PASS('O16', 'Strength-reduced loop computations yield the same values',
     'Loop strength reduction, and the scalar evolution analysis it relies on, ' + PRE + ': a multiplication or address computation replaced by a new induction variable has the same value in every iteration, modulo the width of the type.', 13,
     ['jlm/llvm/opt/LoopStrengthReduction.cpp', 'jlm/llvm/opt/ScalarEvolution.cpp'], [('strength reduction', 'jlm/llvm/opt/LoopStrengthReduction.cpp'), ('scalar evolution', 'jlm/llvm/opt/ScalarEvolution.cpp')],
     [('loops', [0, 2, 3, 4], CH), ('loops', [1, 6], CO), ('shapes', [1], CO)], extra='; products of induction variables, invariants and constants (8 and 32 bits, wrapping), address computations into arrays and structs that depend on them, nested loops, several latches')
PASS('O17', 'Aggregate objects are split only if every access stays in one part',
     'Splitting local aggregates into their elements ' + PRE + '.', 14, ['jlm/llvm/opt/AggregateAllocaSplitting.cpp'], [('checking and splitting of aggregate allocas', 'jlm/llvm/opt/AggregateAllocaSplitting.cpp')],
     [('focus', [1], CH), ('focus', [2, 3], CO), ('alias', [0, 3, 4], CO)], extra='; local structs and arrays accessed by address computations of the same and of other types, with constant and variable indices, of one and two bytes, through conditionals and loops')
PASS('O18', 'IO barriers are removed only where an access cannot fault',
     'Removal of IO barriers ' + PRE + '; an access that may fault is never executed before an earlier call that may not return.', 15,
     ['jlm/llvm/opt/IOBarrierElimination.cpp'], [('IO barrier elimination', 'jlm/llvm/opt/IOBarrierElimination.cpp')],
     [('focus', [2, 4], CH), ('focus', [1, 3], CO), ('loops', [6], CO), ('shapes', [3], CO)], extra='; accesses behind barriers to own and foreign objects, at any offset, before and after calls that may not return')
def SEQ(id, title, statement, seqs, fq, fields, second=None):
    rs = [dict(h='opt', quick=[[n, k] for n in seqs[:fq] for k in (0, 1, 2, 3, 4)], thorough=[[n, k, 1] for n in seqs for k in range(5)], reach=['compared'], deadline=600),
          dict(h='focus', quick=[[n, k] for n in seqs[:fq] for k in (0, 2, 3, 4)], thorough=[[n, k, 1] for n in seqs for k in range(5)], reach=['compared']),
          dict(h='loops', quick=[[n, k] for n in seqs[:fq] for k in (0, 1)], thorough=[[n, k, 1] for n in seqs for k in (0, 1, 3, 4, 6)], reach=['compared']),
          dict(h='alias', quick=[[n, k] for n in seqs[:fq] for k in range(7)], thorough=[[n, k, 1] for n in seqs for k in range(7)], reach=['compared']),
          dict(h='shapes', quick=[[n, k] for n in seqs[:fq] for k in range(4)], thorough=[[n, k, 1] for n in seqs for k in range(4)], reach=['compared'])]
    # further sequences on the quick tier: only the families that matter most to them
    if second is not None:
        for r in rs:
            r['quick'] = [q for q in r['quick'] if q[0] == seqs[0] or [r['h'], q[1]] in second]
        rs = [r for r in rs if r['quick']]
    P(id, title, statement, TV, FAMS + '; pointers, barriers, load and store chains', WHYT, runs=rs, bounds=BND, outside=OUTS + 'other orders of passes', assumptions=[SEM], **fields)


SEQ('O19', 'A whole optimisation pipeline keeps the behaviour of programs',
    'The sequence of optimisations jlc runs at -O3 (27 passes, with alias analysis and memory state encoding in the middle) ' + PRE + '.', [20], 1,
    dict(files=['jlm/rvsdg/Transformation.cpp', 'jlm/tooling/CommandLine.cpp', 'jlm/llvm/opt/inlining.cpp', 'jlm/llvm/opt/StoreValueForwarding.cpp'],
         mechanism=[('transformation sequence', 'jlm/rvsdg/Transformation.cpp'), ('the sequence', 'jlm/tooling/CommandLine.cpp')]))
SEQ('O20', 'Optimisations that rely on encoded memory states are sound together',
    'Encoding memory states from an alias analysis and then running the optimisations that exploit them (node reduction, forwarding, load separation, barrier removal, inlining, splitting, hoisting, sinking) ' + PRE + '.', [21, 23, 22, 24], 2,
    dict(files=['jlm/llvm/opt/alias-analyses/MemoryStateEncoder.cpp', 'jlm/llvm/opt/NodeReduction.cpp', 'jlm/llvm/opt/StoreValueForwarding.cpp', 'jlm/llvm/opt/IOBarrierElimination.cpp'],
         mechanism=[('memory state encoding', 'jlm/llvm/opt/alias-analyses/MemoryStateEncoder.cpp')]), second=[['alias', k] for k in (0, 3, 4, 6)] + [['shapes', 2], ['shapes', 3], ['focus', 2], ['focus', 4]])
SEQ('A04', 'Encoding memory states from an alias analysis keeps behaviour',
    'Splitting the memory state of functions, calls, conditionals and loops according to the alias analysis and its mod/ref summaries, with the region-aware and the agnostic summarizer, ' + PRE + '; accesses that may touch the same object stay ordered, also through calls, recursion and external code.', [18, 17], 2,
    dict(files=['jlm/llvm/opt/alias-analyses/MemoryStateEncoder.cpp', 'jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp', 'jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.cpp', 'jlm/llvm/opt/alias-analyses/Andersen.cpp'],
         mechanism=[('memory state encoding', 'jlm/llvm/opt/alias-analyses/MemoryStateEncoder.cpp'), ('mod/ref summaries', 'jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.cpp')]), second=[['alias', k] for k in (0, 1, 2, 5)] + [['shapes', 0], ['shapes', 1]])
