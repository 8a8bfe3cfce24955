#include "text.hpp"
using namespace ty;
#define REG(T) VH_REGISTER(textCase, T)
VH_TYPES_0(REG)
