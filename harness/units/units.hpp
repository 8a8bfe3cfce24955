// One mock stubbed from two translation units.
#pragma once
#include "../common/base.hpp"
#include "fakeit.hpp"

struct Shared {
    virtual int f(int) = 0;
    virtual int g(int) = 0;
    virtual int h(int) = 0;
    virtual int k(int) = 0;
};
typedef fakeit::Mock<Shared> SharedMock;
// Each stubs one method to give `v` and tells the source position number used for it.
typedef int (*Stubber)(SharedMock &, int v);
struct Entry { int method; Stubber stub; };
std::vector<Entry> unitA();
std::vector<Entry> unitB();

#define ONE(NAME, METHOD, NO) static int NAME(SharedMock &m, int v) { fakeit::When(Method(m, METHOD)).AlwaysReturn(v); return __COUNTER__ - 1; }
#define FOUR(A, B, C, D) ONE(A, f, 0) ONE(B, g, 1) ONE(C, h, 2) ONE(D, k, 3)
