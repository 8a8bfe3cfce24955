#include "fakeit.hpp"
#include "scenario.hpp"
#include "driver.hpp"

const Traits traits = {"standalone", true, STRUCTURED};

void runTests(int from, int to) {
    plainTests(from, to, [](int k) {
        try { body(k); }
        catch (const VerificationException &e) {
            std::ostringstream o;
            o << e;
            if (o.str() != e.what()) report("", 0, "the printed exception differs from what(): " + o.str());
            report(e.file(), e.line(), e.what(), e.callingMethod());
        }
        catch (const UnexpectedMethodCallException &e) { report("", 0, e.what()); }
        catch (...) { report("", 0, "some other exception"); }
    });
}
