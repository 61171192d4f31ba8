// Builds the library as if the platform had no 64-bit arithmetic.
#if __has_include("platform.h")
#include "platform.h"
#endif
#undef __64BIT__
