// Instantiate the libstdc++ templates in our own objects, so that they are instrumented too.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
