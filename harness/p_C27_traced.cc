// build: nls plain
// C27 with the library's tracing compiled in.
#define C27_TRACED
#include "p_C27.cc"
