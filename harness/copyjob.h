// What a copy site gets from the workload (C04, C05); independent of the library's headers.
#ifndef HX_COPYJOB_H
#define HX_COPYJOB_H
#include <cstdint>
#include <string>
#include <vector>
namespace hx {
enum CopyMethod { CM_CHECKED, CM_CHECKED_TOL, CM_UNCHECKED, CM_IMPL_COPY, CM_IMPL_MOVE, CM_IMPL_NONCONST, CM_ARG, CM_ASSIGN, CM_PUSH, CM_RETURN, CM_SELF, CM_N };
enum CopyClass { CC_OK, CC_REJECTED, CC_BADALLOC, CC_CUSTOM, CC_INT, CC_OTHER };
constexpr int NTOL = 10;
double tolerance_number(int i);
struct CopyJob {
    // the plan
    bool query = false;                                    // only say which kinds of conversion this site makes
    int method = 0, tol = 0, fill = 0, init = 0;
    int at = 0, fault = 0, id = 0;                         // the copy of a coefficient that fails (0: none)
    // what the site says
    std::uint64_t kind = 0;                                // kind of conversion the method makes (0: no conversion)
    bool can_fail = false;                                 // coefficients whose copies can fail
    int methods = 0;                                       // bit set of the methods that make sense
    // what happened in the current attempt
    int cls = 0;
    std::string what;
    bool rejected = false, interrupted = false;
};
CopyJob &cjob();
void copy_classify(CopyJob &j);                            // called in a handler
void copy_report(char const *cls, std::string const &what);
void copy_phase(int what);
enum { CP_FAULT, CP_REJECT, CP_ACCEPT_LOSSY, CP_RETRY, CP_DONE };
}
#endif
