// Force-included: keep std::string code in the bitcode (symbolically executable), leave everything else of
// libstdc++ as shipped.
#include <bits/c++config.h>
#pragma push_macro("_GLIBCXX_EXTERN_TEMPLATE")
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#pragma pop_macro("_GLIBCXX_EXTERN_TEMPLATE")
