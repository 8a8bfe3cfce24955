#define DOCTEST_CONFIG_IMPLEMENT
#include "fakeit.hpp"
#include "scenario.hpp"
#include <deque>

const Traits traits = {"doctest", true, STRUCTURED};

static std::vector<int> todo;
static size_t at;

struct Listener : public doctest::IReporter {
    Listener(const doctest::ContextOptions &) {}
    void report_query(const doctest::QueryData &) override {}
    void test_run_start() override {}
    void test_run_end(const doctest::TestRunStats &) override {}
    void test_case_start(const doctest::TestCaseData &) override {}
    void test_case_reenter(const doctest::TestCaseData &) override { runs[current].entered += 100; }
    void test_case_end(const doctest::CurrentTestCaseStats &s) override {
        runs[current].ended++;
        runs[current].failed = s.failure_flags != 0;
    }
    void test_case_exception(const doctest::TestCaseException &e) override { report("", 0, e.error_string.c_str()); }
    void subcase_start(const doctest::SubcaseSignature &) override {}
    void subcase_end() override {}
    void log_assert(const doctest::AssertData &a) override { if (a.m_failed) report(a.m_file, a.m_line, "assertion"); }
    void log_message(const doctest::MessageData &m) override { report(m.m_file, m.m_line, m.m_string.c_str()); }
    void test_case_skipped(const doctest::TestCaseData &) override {}
};
REGISTER_REPORTER("judge", 1, Listener);

static void next() { body(todo[at++]); }

void runTests(int from, int to) {
    std::deque<std::string> names;
    for (int k = from; k < to; k++) {
        todo.push_back(k);
        names.push_back("t" + str(100000000 + k));
        doctest::detail::regTest(doctest::detail::TestCase(next, __FILE__, 1000 + (unsigned) (k - from), doctest_detail_test_suite_ns::getCurrentTestSuite()) * names.back().c_str());
    }
    doctest::Context c;
    c.setOption("reporters", "judge");
    c.setOption("order-by", "file");
    c.setOption("no-path-filenames", false);
    c.run();
}
