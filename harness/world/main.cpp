#include "world.hpp"

static void oneCase(vh::Ctx &c, vh::Rng &rng) {
    static const w::Profile p = w::profileFor(vh::option("profile"));
    vh::Rng again = rng;
    long balance;
    {
        w::World world(c, rng, p);
        world.run();
        balance = world.balance;
    }
    if (balance != 0) {
        // function-local statics are created once per process; a leak repeats itself
        vh::Ctx quiet;
        w::World world(quiet, again, p);
        world.run();
        balance = world.balance;
    }
    vh::expect(c, balance == 0, "value-lifetime", "values copied into the framework not destroyed exactly once: balance " + vh::str(balance));
}

int main(int argc, char **argv) { return vh::shardMain(argc, argv, oneCase); }
