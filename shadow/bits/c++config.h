// Symbolic runs need every template instantiated in the bitcode, not taken from libstdc++.so.
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
