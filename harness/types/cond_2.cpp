#include "cond.hpp"
using namespace ty;
#define REG(T) VH_REGISTER(condCase, T)
VH_TYPES_2(REG)
