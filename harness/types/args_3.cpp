#include "args.hpp"
using namespace ty;
#define REG(T) VH_REGISTER(argsCase, T)
VH_TYPES_3(REG)
