#include <CppUnitTestAssert.h>
#include "fakeit.hpp"
#include "scenario.hpp"
#include "driver.hpp"

const Traits traits = {"mstest", true, NONE};

void runTests(int from, int to) {
    plainTests(from, to, [](int k) {
        try { body(k); }
        catch (const Microsoft::VisualStudio::CppUnitTestFramework::AssertFailed &e) { report("", 0, std::string(e.message.begin(), e.message.end())); }
        catch (...) { report("", 0, "some other exception"); }
    });
}
