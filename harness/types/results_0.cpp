#include "results.hpp"
using namespace ty;
#define REG(T) VH_REGISTER(resultsCase, T)
VH_TYPES_0(REG)
