#include "outargs.hpp"
using namespace ty;
#define REG(T) VH_REGISTER(outsCase, T)
VH_TYPES_1(REG)
