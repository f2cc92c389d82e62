// An algebra over a general (non-diagonal) metric, defined the way a user defines one.
#ifndef HX_ALG_GENERAL
#define HX_ALG_GENERAL
#include <gatl/ga/core.hpp>
#include <gatl/ga/util.hpp>
#include <gatl/ga/extra.hpp>
#include <gatl/ga/model/general/metric_space.hpp>
namespace gageneral {
    using namespace ga;
    using space_t = constant_general_metric_space_t<0, 1, 0, 1, 0, 0, 0, 0, 2>;
    static space_t const space;
    static std::array<std::string, 3> const basis_vectors_names = { "u", "v", "w" };
    _GA_CORE_OVERLOAD(space)
    _GA_UTIL_OVERLOAD(space)
    _GA_EXTRA_OVERLOAD(space, basis_vectors_names)
}
#endif
