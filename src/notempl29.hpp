// the standard library's templates are instantiated (and instrumented) in the program instead of being taken from the shared library
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
