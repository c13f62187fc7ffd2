/* shim used only by the C++ harness */
#include "/usr/include/complex.h"
#undef complex
#define complex _Complex
