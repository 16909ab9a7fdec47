// Included before everything else: the templates of the C++ library (strings, streams) are compiled into the program, and so instrumented, too.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
