from registry import P
U = 'jlm/util/'
Q = [[0, 2, 1], [1, 2, 1], [2, 3, 2], [3, 5, 0], [4, 3, 0], [5, 1, 3], [5, 2, 2], [6, 1, 2]]
T = [[0, 2, 2], [1, 2, 2], [2, 3, 3], [3, 6, 0], [4, 4, 0], [5, 2, 3], [6, 2, 2], [0, 3, 1], [1, 3, 1]]
R = ['set', 'map', 'sets', 'worklist', 'components', 'list', 'hash']
P('U01', 'Containers and worklists behave like their mathematical models',
  'After any sequence of operations, with any keys, HashSet (including the set operations and their in-place clearing variants, the subset test and equality), BijectiveMap and DisjointSet hold exactly what the corresponding mathematical set, one-to-one map and partition hold, and their return values, sizes, iterations and lookups say so; intrusive lists and hash tables contain exactly the inserted elements, lists in order and forwards as backwards, and owning lists delete exactly what they drop; every worklist returns each pushed item exactly once in the order it promises; strongly connected components are exact and in reverse topological order.',
  ['inputs', 'histories'], 'all sequences of operations up to a length, with arbitrary 8-bit keys', 'The unit tests run a few fixed sequences with fixed keys (HashSet::IsSubsetOf was wrong for most pairs of sets and passed them).',
  [U + f for f in ('HashSet.hpp', 'BijectiveMap.hpp', 'disjointset.hpp', 'Worklist.hpp', 'TarjanScc.hpp', 'intrusive-list.hpp', 'intrusive-hash.hpp')],
  [('hash set', U + 'HashSet.hpp'), ('one-to-one map', U + 'BijectiveMap.hpp'), ('union-find', U + 'disjointset.hpp'), ('worklists', U + 'Worklist.hpp'), ('intrusive containers', U + 'intrusive-list.hpp')],
  'sets and maps: 2 symbolic elements and 2 operations (thorough: 3 operations); partitions: 2 elements, 3 operations; worklists: 5 (thorough: 7) steps; components: every graph with 3 (thorough: 4) nodes; lists: 3 elements, 2 operations; hash table: 2 elements, 1 operation (thorough: 2). All keys hash alike (intrusive hash table: four hash values), so that contents are decided by comparing symbolic keys.', 'longer sequences; OwnerIntrusiveHash.',
  [dict(h='containers', libs='util', quick=[q for q in Q if q[0] == k], thorough=[q for q in T if q[0] == k], reach=[r], deadline=800) for k, r in enumerate(R)])
B = 'jlm/rvsdg/bitstring/value-representation.hpp'
P('R04', 'Bit constant arithmetic agrees with integer arithmetic',
  'Every operation on bit constants (addition, subtraction, multiplication with low and high half, signed and unsigned division and remainder, logic, shifts, negation, all comparisons, concatenation, slices, extension, truncation, conversion from and to integers) gives the bits that two\'s complement arithmetic gives, for all operands; what cannot be represented is rejected. With unknown or undefined bits in the operands, each result bit is unknown or agrees with every value the operands can have.',
  ['inputs'], 'all operands of a bit width; every pattern of unknown bits', 'The unit tests check selected values, mostly 32-bit; operands with unknown bits are hardly tested.',
  [B, 'jlm/rvsdg/bitstring/value-representation.cpp'], [('bit strings', B)],
  'operands of 1, 2, 3 and 4 bits (comparisons and shifts: up to 8), every pattern of unknown bits for 2 bits; integer conversions: 1 to 66 bits with 6 free bits; constructor: 10-bit values, 0 to 9 bits.', 'division by zero; wider arithmetic.',
  [dict(h='bits', libs='util,rvsdg', quick=[[0, 4, 0], [0, 3, 0], [0, 1, 0], [0, 2, 1], [1, 4, 0], [1, 8, 0], [1, 1, 0], [1, 2, 1], [2, 8, 0], [2, 1, 0], [2, 3, 1], [3, 3, 0], [3, 2, 1], [4, 4, 0]],
        thorough=[[0, 4, 0], [0, 3, 0], [0, 3, 1], [1, 8, 0], [1, 16, 0], [1, 3, 1], [2, 8, 0], [2, 4, 1], [3, 4, 0], [3, 3, 1], [4, 4, 0]], reach=['computed'], deadline=800)])
from registry import notapp
notapp('N01', 'LLVM IR survives the conversion to and from the inter-procedural graph',
       'Reading an LLVM module and writing it back gives a module with the same behaviour: every instruction, attribute, linkage, type and initializer keeps its meaning.',
       ['inputs', 'programs'], 'all LLVM modules', 'The unit tests convert single instructions.',
       ['jlm/llvm/frontend/LlvmModuleConversion.cpp', 'jlm/llvm/backend/IpGraphToLlvmConverter.cpp'], [('LLVM instruction conversion', 'jlm/llvm/frontend/LlvmModuleConversion.cpp')],
       'Both directions are calls into libLLVM, which is installed as native code only: without its source or bitcode the symbolic executor cannot execute it, and a model of LLVM would be checked instead of the code.')
notapp('N02', 'Generated hardware behaves like the program it was made from',
       'The circuit (dataflow graph, FIRRTL or Verilog) that jlm-hls generates for a function computes what the function computes for every input and every timing of memory responses, and never deadlocks.',
       ['inputs', 'schedules'], 'all programs accepted by jlm-hls, all memory timings', 'The tests run a few programs in a simulator.',
       ['jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp', 'jlm/hls/backend/rhls2firrtl/RhlsToFirrtlConverter.cpp'], [('rhls conversion', 'jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.cpp')],
       'The FIRRTL back end needs MLIR/CIRCT, which is not installed, and the meaning of the result is defined by external hardware tools; there is no executable semantics of the generated circuits here to compare with.')
notapp('N03', 'Command line tools parse options and drive other tools as documented',
       'jlc, jlm-opt and jlm-hls interpret every command line as documented, and run the compiler steps in the right order on the right files.',
       ['inputs'], 'all command lines', 'The unit tests parse a few command lines.',
       ['jlm/tooling/CommandLine.cpp', 'jlm/tooling/Command.cpp'], [('command line parsing', 'jlm/tooling/CommandLine.cpp')],
       'Parsing is done by llvm::cl inside native libLLVM and the effects are processes and files; neither can be executed symbolically here.')
notapp('N04', 'RVSDG modules survive the conversion to and from MLIR',
       'Converting an RVSDG module to the MLIR dialects and back gives an equivalent module.', ['programs'], 'all modules', 'The unit tests convert small graphs.',
       ['jlm/mlir/frontend/MlirToJlmConverter.cpp', 'jlm/mlir/backend/JlmToMlirConverter.cpp'], [('MLIR conversion', 'jlm/mlir/backend/JlmToMlirConverter.cpp')],
       'MLIR is not installed, so this part of the repository does not build here.')
