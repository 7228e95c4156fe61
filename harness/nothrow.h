// utility.cpp redeclares fabs without the C library's exception specification; gcc accepts that, clang does not
#include <sys/cdefs.h>
#undef __THROW
#define __THROW
