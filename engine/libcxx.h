// Included first everywhere: std::string is instantiated where it is used, so that it is instrumented, instead of being
// taken from libstdc++.so. (The macro cannot be set from the command line: c++config.h defines it unconditionally.)
#ifdef __cplusplus
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#endif
