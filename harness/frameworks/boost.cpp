#define BOOST_TEST_NO_MAIN
#define BOOST_TEST_DYN_LINK
#include "fakeit.hpp"
#include "scenario.hpp"
#include <boost/test/unit_test.hpp>
#include <boost/test/results_collector.hpp>
#include <boost/test/unit_test_log.hpp>
#include <boost/test/unit_test_parameters.hpp>

const Traits traits = {"boost", true, STRUCTURED};

namespace ut = boost::unit_test;
static int first, last;
static std::ostringstream output;

// the error reports of one test are read from the framework's log
static void parse(const std::string &s) {
    // file(line): [fatal ]error: in "name": text
    size_t pos = 0;
    while (pos < s.size()) {
        size_t mark = s.find("error: in \"t" + str(current) + "\": ", pos);
        if (mark == std::string::npos) break;
        size_t bol = s.rfind('\n', mark);
        bol = bol == std::string::npos ? 0 : bol + 1;
        size_t open = s.rfind('(', mark);
        size_t text = s.find("\": ", mark) + 3;
        size_t next = s.find("error: in \"t" + str(current) + "\": ", text);
        size_t end = next == std::string::npos ? s.size() : s.rfind('\n', next);
        report(s.substr(bol, open - bol), atoi(s.c_str() + open + 1), s.substr(text, end - text));
        pos = end;
    }
}
struct Observer : public ut::test_observer {
    std::string start;
    void test_unit_start(const ut::test_unit &) override { output.str(""); }
    void test_unit_finish(const ut::test_unit &u, unsigned long) override {
        if (u.p_type != ut::TUT_CASE) return;
        parse(output.str());
        runs[current].ended++;
        runs[current].failed = !ut::results_collector.results(u.p_id).passed();
    }
    int priority() override { return 100; }
};

static bool init() {
    static Observer observer;
    for (int k = first; k < last; k++)
        ut::framework::master_test_suite().add(ut::make_test_case([k] { body(k); }, "t" + str(k), __FILE__, (size_t) (k - first + 1)));
    ut::framework::register_observer(observer);
    ut::unit_test_log.set_stream(output);
    return true;
}

void runTests(int from, int to) {
    first = from;
    last = to;
    char name[] = "tests", level[] = "--log_level=error", rep[] = "--report_level=no", color[] = "--color_output=no", crash[] = "--catch_system_errors=no";
    char *argv[] = {name, level, rep, color, crash, nullptr};
    ut::unit_test_main(&init, 5, argv);
}
