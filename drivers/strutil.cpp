// Driver: the real StringUtil; no logic of its own.
#include <StringUtil.cpp>
