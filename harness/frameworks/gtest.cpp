#include "fakeit.hpp"
#include "scenario.hpp"
#include <gtest/gtest.h>

const Traits traits = {"gtest", false, STRUCTURED};

namespace {
struct One : public testing::Test {
    int k;
    explicit One(int n) : k(n) {}
    void TestBody() override { body(k); }
};
struct Listener : public testing::EmptyTestEventListener {
    void OnTestPartResult(const testing::TestPartResult &p) override {
        if (p.failed()) report(p.file_name() ? p.file_name() : "", p.line_number(), p.message());
    }
    void OnTestEnd(const testing::TestInfo &i) override {
        runs[current].ended++;
        runs[current].failed = i.result()->Failed();
    }
};
}

void runTests(int from, int to) {
    int argc = 1;
    char name[] = "tests";
    char *argv[] = {name, nullptr};
    testing::InitGoogleTest(&argc, argv);
    testing::TestEventListeners &l = testing::UnitTest::GetInstance()->listeners();
    delete l.Release(l.default_result_printer());
    l.Append(new Listener);
    for (int k = from; k < to; k++)
        testing::RegisterTest("Tests", ("t" + str(k)).c_str(), nullptr, nullptr, __FILE__, __LINE__, [k]() -> One * { return new One(k); });
    (void) RUN_ALL_TESTS();
}
