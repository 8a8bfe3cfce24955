#include <cute.h>
#include "fakeit.hpp"
#include "scenario.hpp"
#include "driver.hpp"

const Traits traits = {"cute", true, STRUCTURED};

void runTests(int from, int to) {
    plainTests(from, to, [](int k) {
        try { body(k); }
        catch (const cute::test_failure &e) { report(e.filename, e.lineno, e.reason); }
        catch (const std::exception &e) { report("", 0, e.what()); }
        catch (std::string &s) { report("", 0, s); }
        catch (const char *&s) { report("", 0, s); }
        catch (...) { report("", 0, "unknown exception thrown"); }
    });
}
