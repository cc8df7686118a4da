extern "C" void __assert_fail(const char *); 
#undef assert
#define assert(x) ((x) ? (void)0 : __assert_fail(#x))
#include "ministd.h"
