// What a lazy site gets from the workload (C06); independent of the library's headers.
#ifndef HX_LAZYJOB_H
#define HX_LAZYJOB_H
#include <cstdint>
#include <string>
namespace hx {
enum Given { GV_LVALUES, GV_TEMPORARIES, GV_MIXED, GV_N };                                      // how the inputs are given
enum Carry { CR_HERE, CR_RETURNED, CR_COPIED, CR_MOVED, CR_HEAP, CR_LAMBDA, CR_VECTOR, CR_TUPLE, CR_SHARED, CR_NESTED, CR_N };   // where the context goes
struct LazyJob { int given = 0, carry = 0, story = 0, salt = 0; bool early = false; int repeats = 1; };
LazyJob &ljob();
void lazy_report(char const *cls, std::string const &what);
void lazy_between(int round);                              // other code runs between making and evaluating
void lazy_done(int what);
enum { LZ_GONE, LZ_MODIFIED, LZ_EVAL, LZ_REPEAT, LZ_FAILED };
}
#endif
