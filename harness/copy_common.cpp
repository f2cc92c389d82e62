// Uninstrumented part of the copy workloads (C04, C05).
#include <limits>
#include "common.h"
#include "copyjob.h"
#include <exception>
namespace ga { class bad_checked_copy_exception; }
namespace hx {
namespace { CopyJob jobs[sim::MAXT + 1]; }
CopyJob &cjob() { return jobs[sim::self() + 1]; }
double tolerance_number(int i) { static double const t[NTOL] = { 0.0, 0.25, 1.0, 9.5367431640625e-07, 0.0, 2.0, 1024.0, 7.52316384526264005e-37, 2.4099198651028841e-181, std::numeric_limits<double>::infinity() }; return t[i % NTOL]; }
void copy_classify(CopyJob &j) {
    try { throw; }
    catch (InjectedFault const &e) { j.cls = CC_CUSTOM; if (e.id != j.id) j.what = "another exception object"; }
    catch (int v) { j.cls = CC_INT; if (v != j.id) j.what = "another value"; }
    catch (std::bad_alloc const &) { j.cls = CC_BADALLOC; }
    catch (std::exception const &e) {
        j.cls = strstr(typeid(e).name(), "bad_checked_copy_exception") ? CC_REJECTED : CC_OTHER;
        if (j.cls == CC_OTHER) j.what = typeid(e).name();
    }
    catch (...) { j.cls = CC_OTHER; j.what = "unknown"; }
}
}
