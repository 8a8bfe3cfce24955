// Delivery of failure events (P14): random sequences of configuring handlers, adapters and formatters, with failures of
// every kind in between; handlers and adapters may throw or use mocks themselves. The model is the list of what is configured.
#include "../common/base.hpp"
#include "fakeit.hpp"

#include <iostream>

using namespace vh;
using namespace fakeit;

struct I {
    virtual ~I() {}
    virtual int f(int) = 0;
    virtual void g(std::string, const int &) = 0;
    virtual int run(int) = 0;           // its action runs a failing statement
    virtual std::string never(int) = 0;
    virtual int fine(int) = 0;
};

struct Seen {
    int who;            // handlers 0.., adapters 100.., formatters 200..
    std::string event;
    bool operator==(const Seen &o) const { return who == o.who && event == o.event; }
};
struct Thrown { int who; std::string text; virtual ~Thrown() {} Thrown(int w) : who(w), text("thrown by " + str(w)) {} };
struct ThrownToo : Thrown { ThrownToo(int w) : Thrown(w) {} };

static std::vector<Seen> seen;
static Mock<I> *side = nullptr;     // used from inside handlers
static std::vector<int> order;      // configured handlers; 50, 51: loggers
static void changeHandlers(int how, int who);

static std::string list(const std::vector<Invocation *> &v) {
    std::string s;
    for (size_t i = 0; i < v.size(); i++) s += (i ? "; " : "") + v[i]->format();
    return s;
}
static std::string text(const UnexpectedMethodCallEvent &e) {
    if (e.getUnexpectedType() == UnexpectedType::Unmocked) return "unmocked";
    return "unmatched " + e.getInvocation().format();
}
static std::string text(const SequenceVerificationEvent &e) {
    std::ostringstream o;
    o << (e.verificationType() == VerificationType::Exact ? "exactly " : e.verificationType() == VerificationType::AtLeast ? "at least " : "?") << e.expectedCount() << " is " << e.actualCount() << " in ["
      << list(e.actualSequence()) << "] pattern";
    for (Sequence *s : e.expectedPattern()) o << " " << s->size();
    o << " at " << e.file() << ":" << e.line() << " " << e.callingMethod();
    return o.str();
}
static std::string text(const NoMoreInvocationsVerificationEvent &e) {
    std::ostringstream o;
    o << (e.verificationType() == VerificationType::NoMoreInvocations ? "no more" : "?") << " [" << list(e.unverifedIvocations()) << "] of [" << list(e.allIvocations()) << "] at " << e.file() << ":"
      << e.line() << " " << e.callingMethod();
    return o.str();
}

struct Recorder : EventHandler {
    int who, how;       // how: 0 plain, 1 throws, 2 throws a derived exception, 3 throws on verifications only, 4 uses a mock, 5 makes passing verifications,
                        // 6 adds a handler, 7 removes all handlers
    Recorder() : who(0), how(0) {}
    template<class E> void note(const E &e, bool verification) {
        Seen s = {who, text(e)};
        seen.push_back(s);
        if (how == 1 || (how == 3 && verification)) throw Thrown(who);
        if (how == 2) throw ThrownToo(who);
        if (how == 4) side->get().fine(who);
        if (how == 5) { side->get().fine(who); if (!Verify(Method((*side), fine).Using(who))) abort(); }
        if (how == 6 || how == 7) changeHandlers(how, who);
    }
    bool throwsOn(bool verification) const { return how == 1 || how == 2 || (how == 3 && verification); }
    void handle(const UnexpectedMethodCallEvent &e) override { note(e, false); }
    void handle(const SequenceVerificationEvent &e) override { note(e, true); }
    void handle(const NoMoreInvocationsVerificationEvent &e) override { note(e, true); }
};
static Recorder *allHandlers = nullptr;
static bool model(int how, int who, std::vector<int> &list) {
    if (how == 7) { list.clear(); return true; }
    int h = (who + 1) % 6;
    if (how != 6 || std::find(list.begin(), list.end(), h) != list.end()) return false;
    list.push_back(h);
    return true;
}
struct Silent : EventHandler {      // fills the list up, tells nobody
    void handle(const UnexpectedMethodCallEvent &) override {}
    void handle(const SequenceVerificationEvent &) override {}
    void handle(const NoMoreInvocationsVerificationEvent &) override {}
};
static Silent silent;
static size_t most = 8;             // the longest list so far
static void changeHandlers(int how, int who) {
    if (!model(how, who, order)) return;
    if (how == 7) Fakeit.clearEventHandlers();
    else {
        Fakeit.addEventHandler(allHandlers[(who + 1) % 6]);
        if (most < 3000) {
            for (size_t k = 0; k < most; k++) Fakeit.addEventHandler(silent);
            most *= 2;
        }
    }
}
struct MyFormatter : EventFormatter {
    int who;
    template<class E> std::string make(const E &e) { return "F" + str(who) + " " + text(e); }
    std::string format(const UnexpectedMethodCallEvent &e) override { return make(e); }
    std::string format(const SequenceVerificationEvent &e) override { return make(e); }
    std::string format(const NoMoreInvocationsVerificationEvent &e) override { return make(e); }
};

struct Call { std::string text; bool verified; };

static void theCase(Ctx &ctx, Rng &r) {
    auto &fk = Fakeit;
    fk.clearEventHandlers();
    fk.resetTestingFrameworkAdapter();
    fk.resetCustomEventFormatter();
    seen.clear();
    Recorder handlers[6], adapters[3];
    MyFormatter formatters[2];
    for (int k = 0; k < 6; k++) handlers[k].who = k;
    for (int k = 0; k < 3; k++) adapters[k].who = 100 + k;
    for (int k = 0; k < 2; k++) formatters[k].who = k;
    DefaultEventFormatter plain;
    DefaultEventLogger loggers[2] = {DefaultEventLogger(formatters[1]), DefaultEventLogger(plain)};
    Mock<I> m, other;
    side = &other;
    Fake(Method(other, fine));
    When(Method(m, f).Using(Lt(100))).AlwaysReturn(1);
    When(Method(m, g).Using("a", _)).AlwaysReturn();
    Fake(Method(m, fine));
    static const int numbers[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9};
    order.clear();
    allHandlers = handlers;
    int adapter = -1, formatter = -1;
    std::vector<Call> history;
    std::ostringstream printed;
    struct Redirect { std::streambuf *b; explicit Redirect(std::streambuf *n) : b(std::cout.rdbuf(n)) {} ~Redirect() { std::cout.rdbuf(b); } } redirect(printed.rdbuf());
    std::string did;

    // the statement `fail` fails with `event`; judge who was told and what the caller gets
    enum { UNEXPECTED, SEQUENCE, NOMORE };
    auto judge = [&](int kind, const std::function<void()> &fail, const std::function<std::string()> &eventText, bool inside) {
        seen.clear();
        printed.str("");
        std::vector<int> before = order;
        std::string outcome, what;
        try { fail(); outcome = "nothing"; }
        catch (const ThrownToo &t) { outcome = "thrown too " + str(t.who); what = t.text; }
        catch (const Thrown &t) { outcome = "thrown " + str(t.who); what = t.text; }
        catch (const UnexpectedMethodCallException &e) { outcome = "unexpected"; what = e.what(); }
        catch (const SequenceVerificationException &e) { outcome = "sequence"; what = e.what(); }
        catch (const NoMoreInvocationsVerificationException &e) { outcome = "nomore"; what = e.what(); }
        catch (const std::exception &e) { outcome = std::string("exception ") + e.what(); }
        std::string event = eventText();
        // a handler that adds or removes handlers: whether that already counts for the event being delivered is not promised
        struct Plan { std::vector<Seen> want; std::string outcome; bool stopped; int prints; bool changed; };
        auto plan = [&](bool atOnce) {
            Plan p = {{}, "", false, 0, false};
            std::vector<int> now = before;
            for (size_t k = 0; k < (atOnce ? now.size() : before.size()) && !p.stopped; k++) {
                int h = atOnce ? now[k] : before[k];
                if (h >= 50) { p.prints++; continue; }
                Seen s = {h, event};
                p.want.push_back(s);
                if (handlers[h].throwsOn(kind != UNEXPECTED)) { p.stopped = true; p.outcome = std::string(handlers[h].how == 2 ? "thrown too " : "thrown ") + str(h); }
                p.changed = model(handlers[h].how, h, now) || p.changed;
            }
            if (!p.stopped && adapter >= 0) {
                Seen s = {100 + adapter, event};
                p.want.push_back(s);
                if (adapters[adapter].throwsOn(kind != UNEXPECTED)) { p.stopped = true; p.outcome = std::string(adapters[adapter].how == 2 ? "thrown too " : "thrown ") + str(100 + adapter); }
            }
            if (!p.stopped) p.outcome = kind == UNEXPECTED ? "unexpected" : adapter >= 0 ? "nothing" : kind == SEQUENCE ? "sequence" : "nomore";
            return p;
        };
        // loggers print one text each, in the format they were given
        std::string out = printed.str();
        int texts = 0;
        for (size_t at = 0; (at = out.find("F1 " + event + "\n", at)) != std::string::npos; at++) texts++;
        for (const char *t : {"Unexpected method invocation: ", "Verification error"})
            for (size_t at = 0; (at = out.find(t, at)) != std::string::npos; at++) texts++;
        Plan chosen = plan(false);
        if (chosen.changed) {
            Plan other = plan(true);
            if (!(seen == chosen.want && texts == chosen.prints)) chosen = other;
            ctx.obs.count("handlers changed during delivery");
        }
        std::vector<Seen> &want = chosen.want;
        std::string &wantOutcome = chosen.outcome;
        bool stopped = chosen.stopped;
        int prints = chosen.prints;
        std::string where = " after" + did + " (event " + event + ")";
        std::string told;
        for (auto &s : seen) told += " " + str(s.who) + "{" + s.event + "}";
        expect(ctx, seen == want, "delivery", "told:" + told + where);
        expect(ctx, outcome == wantOutcome, "delivery-outcome", "the caller gets '" + outcome + "' instead of '" + wantOutcome + "'" + where);
        if (outcome == "unexpected" || outcome == "sequence" || outcome == "nomore") {
            if (formatter >= 0) {
                std::string t = "F" + str(formatter) + " " + event;
                expect(ctx, what.size() >= t.size() && what.compare(what.size() - t.size(), std::string::npos, t) == 0, "custom-format", "the text is '" + what + "' instead of '" + t + "'" + where);
            } else
                expect(ctx, what.find(kind == UNEXPECTED ? "Unexpected method invocation: " : "Verification error") != std::string::npos && what.find("F0 ") == std::string::npos && what.find("F1 ") == std::string::npos,
                       "builtin-format", "the text is '" + what + "'" + where);
        } else if (stopped) expect(ctx, what == "thrown by " + wantOutcome.substr(wantOutcome.rfind(' ') + 1), "delivery-exception", "the exception of the handler changed: " + what + where);
        expect(ctx, texts == prints, "logger", "loggers printed '" + out + "'" + where);
        ctx.obs.situation(str(kind) + str(inside) + " " + str(order.size()) + " a" + str(adapter) + (adapter >= 0 ? str(adapters[adapter].how) : "") + " f" + str(formatter) + " " + wantOutcome + str(want.size()) + str(prints));
        ctx.obs.count("failures");
    };
    auto historyText = [&](bool open) {
        std::string s;
        for (auto &c : history) if (!open || !c.verified) s += (s.empty() ? "" : "; ") + c.text;
        return s;
    };
    // one failing statement; returns its event
    int line = 0;
    std::string func;
    auto failing = [&](int kind, int n) {
        func = __func__;
        switch (kind) {
            case 0: m.get().never(n); break;
            case 1: m.get().f(100 + n); break;
            case 2: m.get().g("b", numbers[n]); break;
            case 3: line = __LINE__; Verify(Method(m, f).Using(3)).Exactly(77 + n); break;
            case 4: line = __LINE__; Verify(Method(m, f), Method(m, g)).AtLeast(77 + n); break;
            case 5: line = __LINE__; Verify(Method(m, f) * 2 + Method(m, g)).Exactly(77 + n); break;
            default: line = __LINE__; VerifyNoOtherInvocations(m); break;
        }
    };
    auto count = [&](int kind) {
        int c = 0;
        for (size_t i = 0; i < history.size(); i++) {
            bool f = history[i].text[2] == 'f' && history[i].text[3] == '(';
            if (kind == 3) c += history[i].text == "m.f(3)";
            if (kind == 4 && f) { size_t j = i + 1; while (j < history.size() && history[j].text.compare(0, 4, "m.g(")) j++; if (j < history.size()) { c++; i = j; } else break; }
            if (kind == 5 && i + 2 < history.size() && f && !history[i + 1].text.compare(0, 4, "m.f(") && !history[i + 2].text.compare(0, 4, "m.g(")) { c++; i += 2; }
        }
        return c;
    };
    auto eventOf = [&](int kind, int n) -> std::string {
        std::string at = std::string(" at ") + __FILE__ + ":" + str(line) + " " + func;
        switch (kind) {
            case 0: return "unmocked";
            case 1: return "unmatched m.f(" + str(100 + n) + ")";
            case 2: return "unmatched m.g(b, " + str(n) + ")";
            case 3: return "exactly " + str(77 + n) + " is " + str(count(3)) + " in [" + historyText(false) + "] pattern 1" + at;
            case 4: return "at least " + str(77 + n) + " is " + str(count(4)) + " in [" + historyText(false) + "] pattern 1 1" + at;
            case 5: return "exactly " + str(77 + n) + " is " + str(count(5)) + " in [" + historyText(false) + "] pattern 3" + at;
            default: return "no more [" + historyText(true) + "] of [" + historyText(false) + "]" + at;
        }
    };
    if (r.chance(50))
        for (int h = 0; h < 6; h++) if (r.chance(40)) handlers[h].how = r.chance(70) ? 6 : 7;
    for (int step = r.range(4, 30); step > 0; step--) {
        int k = r.below(20);
        std::string d;
        if (k < 4) {
            int h = r.below(8);
            if (h >= 6) h += 44;
            if (std::find(order.begin(), order.end(), h) == order.end()) {
                if (h >= 50) fk.addEventHandler(loggers[h - 50]); else fk.addEventHandler(handlers[h]);
                order.push_back(h);
                d = "add" + str(h);
            }
        } else if (k == 4) { fk.clearEventHandlers(); order.clear(); d = "clear"; }
        else if (k == 5) { int a = r.below(3); fk.setTestingFrameworkAdapter(adapters[a]); adapter = a; d = "adapter" + str(a); }
        else if (k == 6) { fk.resetTestingFrameworkAdapter(); adapter = -1; d = "noadapter"; }
        else if (k == 7) { int a = r.below(2); fk.setCustomEventFormatter(formatters[a]); formatter = a; d = "formatter" + str(a); }
        else if (k == 8) { fk.resetCustomEventFormatter(); formatter = -1; d = "noformatter"; }
        else if (k == 9) { int h = r.below(6), how = r.chance(50) ? 0 : r.below(8); handlers[h].how = how; d = "handler" + str(h) + "how" + str(how); }
        else if (k == 10) { int h = r.below(3), how = r.chance(50) ? 0 : r.below(8); adapters[h].how = how; d = "adapter" + str(h) + "how" + str(how); }
        else if (k < 13) {      // calls that are fine
            int a = r.below(6);
            Call c = {"", false};
            if (r.chance(50)) { m.get().f(a); c.text = "m.f(" + str(a) + ")"; } else { m.get().g("a", numbers[a]); c.text = "m.g(a, " + str(a) + ")"; }
            history.push_back(c);
            d = c.text;
        } else if (k == 13) {   // statements that do not fail, and failing ones used as booleans, tell nobody
            seen.clear();
            int a = r.below(6), n = 0;
            for (auto &c : history) n += c.text == "m.f(" + str(a) + ")";
            Verify(Method(m, f).Using(a)).Exactly(n);
            for (auto &c : history) if (c.text == "m.f(" + str(a) + ")") c.verified = true;
            bool fails = Verify(Method(m, g)).Exactly(99), open = VerifyNoOtherInvocations(m);
            expect(ctx, !fails && open == historyText(true).empty() && seen.empty(), "delivery-spurious", str(seen.size()) + " deliveries without failure after" + did);
            d = "verify";
        } else if (k < 19) {
            int what = r.below(7), n = r.below(6);
            if (what == 6 && historyText(true).empty()) what = 3;
            judge(what < 3 ? UNEXPECTED : what < 6 ? SEQUENCE : NOMORE, [&] { failing(what, n); }, [&] { return eventOf(what, n); }, false);
            d = "fail" + str(what);
        } else {                // a failure inside an action
            int what = r.range(3, 6), n = r.below(6);
            if (what == 6 && historyText(true).empty()) what = 3;
            When(Method(other, run)).Do([&](int) { failing(what, n); return 5; });
            judge(what < 6 ? SEQUENCE : NOMORE, [&] { other.get().run(1); }, [&] { return eventOf(what, n); }, true);
            d = "inner" + str(what);
        }
        if (!d.empty()) { did += " " + d; ctx.trace(d); }
    }
    fk.clearEventHandlers();
    fk.resetTestingFrameworkAdapter();
    fk.resetCustomEventFormatter();
}

int main(int argc, char **argv) { return shardMain(argc, argv, theCase); }
