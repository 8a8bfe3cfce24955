#include "units.hpp"
FOUR(f0, g0, h0, k0)
FOUR(f1, g1, h1, k1)
std::vector<Entry> unitA() { return {{0, f0}, {1, g0}, {2, h0}, {3, k0}, {0, f1}, {1, g1}, {2, h1}, {3, k1}}; }
