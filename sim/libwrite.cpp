// Out-of-line members of library classes that write to their object. The library is not instrumented, so calls from the
// instrumented code are announced to the race detector here. No C++ headers: the symbols are redefined.
#include <dlfcn.h>
#define EXPORT extern "C" __attribute__((visibility("default")))
EXPORT void sim_libraryWrite(unsigned long a, unsigned long n, unsigned long pc);
typedef long (*Fn)(long, long, long, long, long, long);
#define LIBWRITE(SYM, BYTES)                                                                                                                                   \
    static Fn r_##SYM;                                                                                                \
    EXPORT long SYM(long a, long b, long c, long d, long e, long f)                                                                                            \
    {                                                                                                                                                          \
        sim_libraryWrite((unsigned long)a, BYTES, (unsigned long)__builtin_return_address(0)); \
        return (r_##SYM ? r_##SYM : (r_##SYM = (Fn)dlsym(RTLD_NEXT, #SYM)))(a, b, c, d, e, f);                                                                                                          \
    }
#define STR(X) _ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE##X
#define LIBWRITE_(SYM, BYTES) LIBWRITE(SYM, BYTES)
LIBWRITE_(STR(9_M_appendEPKcm), 16)
LIBWRITE_(STR(9_M_assignERKS4_), 16)
LIBWRITE_(STR(10_M_replaceEmmPKcm), 16)
LIBWRITE_(STR(14_M_replace_auxEmmmc), 16)
LIBWRITE_(STR(9_M_mutateEmmPKcm), 16)
LIBWRITE_(STR(8_M_eraseEmm), 16)
LIBWRITE_(STR(7reserveEm), 16)
LIBWRITE_(STR(6resizeEmc), 16)
LIBWRITE_(STR(6appendEPKc), 16)
LIBWRITE_(STR(6appendEPKcm), 16)
LIBWRITE_(STR(6appendERKS4_), 16)
LIBWRITE_(STR(6assignEPKc), 16)
LIBWRITE_(STR(6assignEPKcm), 16)
LIBWRITE_(STR(6assignERKS4_), 16)
LIBWRITE_(STR(9push_backEc), 16)
LIBWRITE_(STR(aSERKS4_), 16)
LIBWRITE_(STR(aSEPKc), 16)
LIBWRITE_(STR(pLERKS4_), 16)
LIBWRITE_(STR(pLEPKc), 16)
LIBWRITE(_ZNSt8__detail15_List_node_base7_M_hookEPS0_, 16)
LIBWRITE(_ZNSt8__detail15_List_node_base9_M_unhookEv, 16)
