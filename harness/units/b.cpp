#include "units.hpp"
ONE(k0, k, 3) ONE(h0, h, 2) ONE(g0, g, 1) ONE(f0, f, 0)
static const int skipped = __COUNTER__;       // from here the numbers are out of step
ONE(k1, k, 3) ONE(h1, h, 2) ONE(g1, g, 1) ONE(f1, f, 0)
std::vector<Entry> unitB() { (void) skipped; return {{3, k0}, {2, h0}, {1, g0}, {0, f0}, {3, k1}, {2, h1}, {1, g1}, {0, f1}}; }
