// One translation unit of call sites: ALG (header and namespace), DIM, SCALAR, CALLS (calls_*.h), PART.
#include "common.h"
#define HX_STR2(x) #x
#define HX_STR(x) HX_STR2(x)
#define HX_CAT2(a, b) a##b
#define HX_CAT(a, b) HX_CAT2(a, b)
#ifdef ALG_HEADER
#include ALG_HEADER
#else
#include HX_STR(gatl/ALG.hpp)
#endif
#include "observe.h"
#include CALLS
using namespace ALG;
#include "kinds.inc"
