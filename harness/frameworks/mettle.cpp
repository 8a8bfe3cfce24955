#include <mettle.hpp>
#include "fakeit.hpp"
#include "scenario.hpp"
#include "driver.hpp"

const Traits traits = {"mettle", true, IN_TEXT};

void runTests(int from, int to) {
    plainTests(from, to, [](int k) {
        try { body(k); }
        catch (const mettle::expectation_error &e) { report("", 0, e.what()); }
        catch (...) { report("", 0, "uncaught exception"); }
    });
}
