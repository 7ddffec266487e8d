// forces the standard library's templates to be instantiated, and thereby instrumented, in the code under test
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
