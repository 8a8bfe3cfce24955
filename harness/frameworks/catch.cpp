#include "fakeit.hpp"
#include "scenario.hpp"
#include <catch2/catch_all.hpp>

const Traits traits = {"catch", true, STRUCTURED};

static std::vector<int> todo;
static size_t at;

struct Listener : public Catch::EventListenerBase {
    using Catch::EventListenerBase::EventListenerBase;
    void assertionEnded(const Catch::AssertionStats &s) override {
        const Catch::AssertionResult &r = s.assertionResult;
        if (r.isOk()) return;
        report(r.getSourceInfo().file, (int) r.getSourceInfo().line, std::string(r.getMessage()));
    }
    void testCaseEnded(const Catch::TestCaseStats &s) override {
        runs[current].ended++;
        runs[current].failed = !s.totals.assertions.allOk();
    }
};
CATCH_REGISTER_LISTENER(Listener)

static void next() { body(todo[at++]); }

void runTests(int from, int to) {
    for (int k = from; k < to; k++) {
        todo.push_back(k);
        Catch::AutoReg reg(Catch::makeTestInvoker(&next), Catch::SourceLineInfo(__FILE__, (size_t) k), Catch::StringRef(), Catch::NameAndTags("t" + str(100000000 + k)));
    }
    Catch::Session session;
    const char *argv[] = {"tests", "--order", "decl", "-o", "/dev/null"};
    session.applyCommandLine(5, argv);
    session.run();
}
