#include "values.hpp"
int main(int argc, char **argv) { return vh::shardMain(argc, argv, ty::oneTypeCase); }
