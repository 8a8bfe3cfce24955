#include "objects.hpp"
#define X(T) VH_REGISTER(ty::objectCase, T)
using namespace ty;
VH_TYPES_4(X)
