#include "fakeit.hpp"
#include "scenario.hpp"
#include "driver.hpp"

const Traits traits = {"tpunit", true, IN_TEXT};

void runTests(int from, int to) {
    plainTests(from, to, [](int k) {
        try { body(k); }
        catch (const std::exception &e) { report("", 0, e.what()); }
        catch (...) { report("", 0, "caught unknown exception"); }
    });
}
