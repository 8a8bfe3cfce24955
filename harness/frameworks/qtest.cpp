#include <QTest>
#include "fakeit.hpp"
#include "scenario.hpp"
#include "driver.hpp"

const Traits traits = {"qtest", false, NONE};

void QTest::qFail(const char *message, const char *file, int line) { report(file, line, message); }

void runTests(int from, int to) {
    plainTests(from, to, [](int k) {
        try { body(k); }
        catch (...) { report("", 0, "caught unhandled exception"); }
    });
}
