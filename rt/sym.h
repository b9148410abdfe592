// Interface between harnesses and the two ways they are run: symbolically by
// engine/irsym (these functions are interpreted) and natively by rt/replay.cpp
// (they read the values of a recorded counterexample).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
int64_t sym_int(const char *name,int64_t lo,int64_t hi); // any value in [lo,hi]
uint64_t sym_u64(const char *name);                      // any 64-bit value
void sym_assume(bool c);
void sym_check(bool c,const char *id);
[[noreturn]] void sym_fail(const char *id);
void sym_reach(const char *id);                          // vacuity witness
[[noreturn]] void sym_done();
uint64_t sym_concretize(uint64_t v);                     // fork over the values
bool sym_branch(bool c);                                 // fork on a condition
int sym_is_symbolic();
void harness();
}
