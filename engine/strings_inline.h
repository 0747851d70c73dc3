// bit-precise runs follow the bytes of a std::string: its members are compiled with the code, not taken from libstdc++
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
