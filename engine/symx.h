// Harness API. Implemented by the symbolic engine as builtins, and natively (engine/native.cpp) for replay.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void symx_make(void * p, size_t n, const char * name);         // n symbolic bytes
uint64_t symx_var(unsigned bits, const char * name);           // symbolic value, zero extended
uint64_t symx_choose(uint64_t n, const char * name);           // forked choice in [0,n)
void symx_assume(bool c);
void symx_assert(bool c, const char * msg);                    // the property
void symx_fail(const char * msg);                              // unconditional property failure
uint64_t symx_concretize(uint64_t v);                          // fork over all feasible values
int symx_is_symbolic(uint64_t v);
void symx_reach(const char * name);                            // vacuity witness
uint64_t symx_ite(bool c, uint64_t a, uint64_t b);
void symx_error(const char * msg);                             // the harness cannot handle this (no verdict)
void symx_end(void);                                           // end this path (counted as explored)
void symx_reject(void);                                        // end this path (outside the precondition)
void symx_print(const char * name, uint64_t v);
void symx_observe(uint64_t v);                                 // part of the replay-compared observation
int64_t symx_arg(unsigned i);                                  // i-th harness argument
int symx_engine(void);                                         // 1 under the engine, 0 natively
void harness_main(void);
}
