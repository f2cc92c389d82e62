// The part of a call-site table that does not depend on the library's headers.
#ifndef HX_OBSERVE_SITE_H
#define HX_OBSERVE_SITE_H
#include <cstdint>
#include <vector>
namespace hx {
using std::uint64_t;
struct Args { int const *a; int mode; };                  // a[i]: index of operand i; mode: how operands are passed
// A site is one call of one public operation on operands of fixed kinds.
struct Site {
    char const *name;
    int arity;
    uint64_t (*run)(Args const &);                         // makes the call, returns the observation of its outcome
    void (*prepare)(Args const &);                         // builds the shared operands (before the tasks start)
};
struct Table { char const *name; Site const *sites; };
std::vector<Table> const &tables();
}
#endif
