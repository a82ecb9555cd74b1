// The library's choice of a half float implementation on a processor without F16C.
#if defined(__x86_64__) || defined(__i386__)
#include <cpuid.h>
#define __get_cpuid(level, a, b, c, d) (*(a) = *(b) = *(c) = *(d) = 0U, 0)
#endif
#include <HalfFloat.cpp>
