// The tests that run under each framework, and the judgement of what the framework reported.
// Included after the framework's fakeit.hpp; each framework's file supplies the driver.
#pragma once
#include "../common/base.hpp"
#include <cstring>

using namespace fakeit;
using namespace vh;

enum Location { NONE, STRUCTURED, IN_TEXT };
struct Traits {
    const char *name;
    bool aborts;            // an unexpected call ends the test by the framework's own means
    Location location;      // how the location of a verification is reported
};
extern const Traits traits;
// Runs the tests `from`..`to`-1 under the framework; each calls body(k) once.
void runTests(int from, int to);

struct Failure { std::string file; int line; std::string text; std::string function; };
struct Want { std::string kind, text, file; int line; std::string function; bool located; };
struct TestRun {
    int entered, ended;
    bool failed;                     // the framework's own verdict
    std::vector<Failure> got;        // the framework's own failure reports
    std::vector<Want> want;
    std::string script;
    TestRun() : entered(0), ended(0), failed(false) {}
};
static std::map<int, TestRun> runs;
static Ctx *theCtx;
static int current = -1;
static void report(const std::string &file, int line, const std::string &text, const std::string &function = "") {
    runs[current].got.push_back(Failure{file, line, text, function});
}

// the report of each failure, as given by the formatter in use
struct Texts : public EventFormatter, public EventHandler {
    bool custom;
    std::string next;
    std::vector<std::string> seen;
    Texts() : custom(false) {}
    std::string format(const UnexpectedMethodCallEvent &) override { return "U" + next; }
    std::string format(const SequenceVerificationEvent &) override { return "S" + next; }
    std::string format(const NoMoreInvocationsVerificationEvent &) override { return "N" + next; }
    void handle(const UnexpectedMethodCallEvent &e) override { seen.push_back(Fakeit.format(e)); }
    void handle(const SequenceVerificationEvent &e) override { seen.push_back(Fakeit.format(e)); }
    void handle(const NoMoreInvocationsVerificationEvent &e) override { seen.push_back(Fakeit.format(e)); }
};
static Texts texts;

struct Thing {
    virtual int f(int) = 0;
    virtual void g(const std::string &) = 0;
    virtual std::string h(int, const std::string &) = 0;
    virtual void never(int) = 0;
    virtual ~Thing() {}
};

static int serial = 0;
static std::string hostile(Rng &r) {
    static const char *bits[] = {"100%", "%s%n", "a \"quoted\" word", "line\nbreak", "<tag>&amp;", "back\\slash", "tab\there", "f(1)", "[x]", "~"};
    std::string s = "#" + str(++serial) + "!";
    int n = r.below(5);
    for (int i = 0; i < n; i++) s += std::string(" ") + bits[r.below(10)];
    if (r.chance(10)) s += std::string((size_t) r.range(200, 3000), 'x');
    return s + "!end" + str(serial);
}
static Want &want(Rng &r, const char *kind, bool located, const char *file, int line, const char *function) {
    TestRun &t = runs[current];
    t.want.push_back(Want{kind, "", file, line, function, located});
    t.script += std::string(" ") + kind;
    texts.next = hostile(r);
    texts.seen.clear();
    theCtx->obs.count("failures provoked");
    return t.want.back();
}
static void step(const char *what) {
    runs[current].script += std::string(" ") + what;
    theCtx->obs.count("passing steps");
}
// must run after each failing statement, whether or not it threw
struct Settle {
    size_t at;
    char tag;
    Settle(char t) : at(runs[current].want.size() - 1), tag(t) {}
    ~Settle() {
        Want &w = runs[current].want[at];
        if (texts.custom) w.text = tag + texts.next;
        else if (texts.seen.size() == 1) w.text = texts.seen[0];
        else w.text = "(the failure was announced to the event handlers " + str(texts.seen.size()) + " times)";
    }
};
// a call that must be reported as unexpected; where the framework does not end the test an exception does
template<class F> static void unexpected(Rng &r, const char *kind, F call) {
    want(r, kind, false, "", 0, "");
    Settle s('U');
    if (traits.aborts) { call(); return; }
    try { call(); } catch (const UnexpectedMethodCallException &) { }
}
#define FAILING(kind, tag, ...) { want(r, kind, true, __FILE__, __LINE__, __func__); Settle settle(tag); __VA_ARGS__; }

static void helperVerify(Rng &r, Mock<Thing> &m, int n) {
    FAILING("verify-in-helper", 'S', Verify(Method(m, f)).Exactly(n))
}
static void helperNoOther(Rng &r, Mock<Thing> &m) {
    FAILING("no-other-in-helper", 'N', VerifyNoOtherInvocations(m))
}

static void steps(Rng &r) {
    Mock<Thing> m, other;
    When(Method(m, f)).AlwaysReturn(5);
    Fake(Method(m, g));
    When(Method(m, h).Using(1, _)).Return("one", "two");
    Fake(Method(other, never), Method(other, g));
    int calls = 0;
    int n = r.range(0, 6);
    for (int i = 0; i < n; i++) {
        switch (r.below(r.chance(50) ? 6 : 22)) {
            case 0: {
                int k = r.chance(8) ? r.range(40, 70) : 1;      // reports list fifty calls
                for (int j = 0; j < k; j++) { m.get().f(r.below(10)); calls++; }
                step("call");
                break;
            }
            case 1: Verify(Method(m, f)).Exactly(calls); step("verify"); break;
            case 2: if (calls) Verify(Method(m, f)); step("verify-once"); break;
            case 3: Verify(Method(m, f)).AtLeast(0); Verify(Method(m, never)).Never(); step("verify-never"); break;
            case 4: { bool b = Verify(Method(m, f)).Exactly(calls + 1); expect(*theCtx, !b, "boolean", "a failing verification used as a condition is true"); step("condition"); break; }
            case 5: { bool b = VerifyNoOtherInvocations(other); expect(*theCtx, b, "boolean", "a passing verification used as a condition is false"); step("no-other-condition"); break; }
            case 6: FAILING("exactly", 'S', Verify(Method(m, f)).Exactly(calls + 2)) break;
            case 7: FAILING("at-least", 'S', Verify(Method(m, g).Using("x")).AtLeastOnce()) break;
            case 8: FAILING("default", 'S', Verify(Method(other, never))) break;
            case 9: FAILING("sequence", 'S', Verify(Method(m, f) + Method(other, never)).Exactly(Once)) break;
            case 10: m.get().f(3); calls++; FAILING("never", 'S', Verify(Method(m, f).Using(3)).Never()) break;
            case 11: m.get().f(4); calls++; FAILING("no-other", 'N', VerifyNoOtherInvocations(m)) break;
            case 12: m.get().f(4); calls++; FAILING("no-other-method", 'N', VerifyNoOtherInvocations(Method(m, f))) break;
            case 13: helperVerify(r, m, calls + 1); break;
            case 14: m.get().f(6); calls++; helperNoOther(r, m); break;
            case 15: unexpected(r, "unmocked", [&] { m.get().never(1); }); break;
            case 16: unexpected(r, "unmatched", [&] { m.get().h(2, "b"); }); break;
            case 17: unexpected(r, "used-up", [&] { Mock<Thing> x; When(Method(x, h)).Return("a"); x.get().h(1, "x"); x.get().h(7, "y"); }); break;
            case 18: {          // a verification that fails inside an action
                Mock<Thing> x;
                When(Method(x, g)).AlwaysDo([&](const std::string &) { FAILING("verify-in-action", 'S', Verify(Method(other, never)).AtLeast(1)) });
                x.get().g("z");
                break;
            }
            case 19: {          // an unexpected call inside an action
                Mock<Thing> x;
                When(Method(x, f)).AlwaysDo([&](int) { unexpected(r, "unmatched-in-action", [&] { m.get().h(5, "q"); }); return 1; });
                x.get().f(1);
                break;
            }
            case 20: FAILING("using-mocks", 'S', Using(m, other).Verify(Method(other, never) * 2)) break;
            case 21: { When(Method(other, g)).Throw(std::runtime_error("thrown by a stub")); try { other.get().g("t"); } catch (const std::runtime_error &) { } other.ClearInvocationHistory(); step("throw"); break; }
        }
    }
}

// one test, called by the framework
static void body(int k) {
    current = k;
    Rng r = startCase(*theCtx, k);
    TestRun &t = runs[k];
    t.entered++;
    texts.custom = r.chance(50);
    Fakeit.clearEventHandlers();
    Fakeit.addEventHandler(texts);
    if (texts.custom) Fakeit.setCustomEventFormatter(texts);
    else Fakeit.resetCustomEventFormatter();
    t.script = texts.custom ? "custom:" : "default:";
    steps(r);
}

static std::string shown(const Failure &f) { return f.file + ":" + str(f.line) + " \"" + f.text.substr(0, 300) + "\""; }

static void judge(Ctx &c, int k) {
    c.caseNo = k;
    TestRun &t = runs[k];
    c.trace("== case " + str(k));
    c.trace(std::string(traits.name) + t.script);
    expect(c, t.entered == 1, "test-runs", "test " + str(k) + " ran " + str(t.entered) + " times");
    expect(c, t.ended == 1, "test-ends", "test " + str(k) + " ended " + str(t.ended) + " times");
    expect(c, t.failed == !t.want.empty(), t.want.empty() ? "passing-test-fails" : "failing-test-passes", t.script + ": the framework says " + (t.failed ? "failed" : "passed") + (t.got.empty() ? "" : ": " + shown(t.got[0])));
    std::vector<Failure> got = t.got;
    for (size_t i = 0; i < t.want.size(); i++) {
        Want &w = t.want[i];
        size_t hit = got.size(), sameText = got.size();
        for (size_t j = 0; j < got.size() && hit == got.size(); j++) {
            if (got[j].text.find(w.text) == std::string::npos) continue;
            sameText = j;
            bool at = true;
            if (w.located && traits.location == STRUCTURED) at = got[j].line == w.line && got[j].file == w.file && (got[j].function.empty() || got[j].function == w.function);
            else if (w.located && traits.location == IN_TEXT) at = got[j].text.find(w.file) == 0 && got[j].text.find(str(w.line)) == w.file.size() + 1;
            if (at) hit = j;
        }
        std::string where = t.script + ": failure " + str(i + 1) + " (" + w.kind + ", report \"" + w.text.substr(0, 200) + "\")";
        if (hit == got.size() && sameText < got.size()) {
            expect(c, false, "location", where + " is of line " + str(w.line) + " but reported as " + shown(got[sameText]));
            hit = sameText;
        }
        if (!expect(c, hit < got.size(), "missing", where + " is not reported" + (got.empty() ? "" : "; reported: " + shown(got[0])))) continue;
        c.obs.count("failures reported");
        c.trace("reported: " + (w.located && traits.location == STRUCTURED ? str(got[hit].line) : "") + " " + clean(got[hit].text));
        c.obs.situation(std::string(traits.name) + w.kind + str(i) + str(t.want.size()) + t.script);
        got.erase(got.begin() + (long) hit);
    }
    expect(c, got.empty(), "extra", t.script + ": reported besides the " + str(t.want.size()) + " failures: " + (got.empty() ? "" : shown(got[0])));
    if (t.want.empty()) c.obs.count("tests that must pass");
    c.obs.situation(std::string(traits.name) + t.script);
    c.obs.count("cases");
}

static void batch(Ctx &c, long from, long to) {
    theCtx = &c;
    for (long k = from; k < to; k++) runs[(int) k];
    runTests((int) from, (int) to);
    for (long k = from; k < to; k++) judge(c, (int) k);
}

int main(int argc, char **argv) { return batchMain(argc, argv, batch); }
