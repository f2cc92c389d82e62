// One table of call sites (see tools/build.py for the list of tables).
#include "sites_tu.h"
#ifndef SPACE
#define SPACE ALG::space
#endif
#ifdef KINDS
#include KINDS
#endif
#ifdef TEMPORARIES                                           // every mention of an operand is a temporary with its value
#define a hx::temporary(a_)
#define b hx::temporary(b_)
#endif
extern hx::Site const TABLE[];
hx::Site const TABLE[] = {
#include INC1
#ifdef INC2
#include INC2
#endif
#ifdef INC3
#include INC3
#endif
{ nullptr, 0, nullptr, nullptr } };
