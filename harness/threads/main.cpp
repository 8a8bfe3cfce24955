// Several threads, each with worlds of its own. Every program is first run alone; run
// concurrently with others it must produce the same trace. Built with ThreadSanitizer.
#include "../world/world.hpp"

#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>

using namespace fakeit;

namespace {

struct ProgramRun {
    uint64_t seed;
    std::string trace;
    vh::Ctx ctx;
    long balance;
    ProgramRun() : seed(0), balance(0) {}
};

void runProgram(ProgramRun &r, const w::Profile &p) {
    r.ctx.obs.trace = &r.trace;
    vh::Rng rng(r.seed);
    try {
        w::World world(r.ctx, rng, p);
        world.run();
        r.balance = world.balance;
    } catch (const vh::CaseFailed &) {
    } catch (const std::exception &e) {
        r.ctx.violation("escaped-exception", e.what());
    } catch (...) {
        r.ctx.violation("escaped-exception", "unknown exception");
    }
}

struct Gate {       // lets all threads start at once
    std::mutex m;
    std::condition_variable c;
    int waiting, total;
    bool open;
    explicit Gate(int n) : waiting(0), total(n), open(false) {}
    void pass() {
        std::unique_lock<std::mutex> l(m);
        if (++waiting == total) { open = true; c.notify_all(); }
        while (!open) c.wait(l);
    }
};

void isolation(vh::Ctx &c, vh::Rng &rng) {
    w::Profile p = w::profileFor("trace");
    p.maxHandlers = 0;
    p.minOps = 6;
    p.maxOps = 30;
    p.bigPercent = 0;
    int threads = rng.range(2, 6), each = rng.range(1, 3);
    std::vector<std::vector<std::unique_ptr<ProgramRun>>> alone(threads), together(threads);
    for (int t = 0; t < threads; t++)
        for (int k = 0; k < each; k++) {
            uint64_t s = rng.next();
            alone[t].emplace_back(new ProgramRun());
            together[t].emplace_back(new ProgramRun());
            alone[t].back()->seed = together[t].back()->seed = s;
        }
    bool before = rng.chance(50);      // also meet the very first use of everything concurrently
    if (before) for (auto &v : alone) for (auto &r : v) runProgram(*r, p);
    Gate gate(threads);
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; t++)
        ts.emplace_back([&, t] {
            gate.pass();
            for (auto &r : together[t]) runProgram(*r, p);
        });
    for (auto &t : ts) t.join();
    if (!before) for (auto &v : alone) for (auto &r : v) runProgram(*r, p);
    for (int t = 0; t < threads; t++)
        for (int k = 0; k < each; k++) {
            ProgramRun &a = *alone[t][k], &b = *together[t][k];
            for (auto &v : a.ctx.obs.violations) c.violation("alone", v);
            for (auto &v : b.ctx.obs.violations) c.violation("together", v);
            vh::expect(c, a.trace == b.trace, "trace-differs", "a program run together with other threads behaved differently than alone");
            c.obs.evaluations += a.ctx.obs.evaluations + b.ctx.obs.evaluations;
            c.obs.operations += b.ctx.obs.operations;
            c.obs.distinct.insert(b.ctx.obs.distinct.begin(), b.ctx.obs.distinct.end());
            for (auto &kv : b.ctx.obs.counters) c.obs.counters[kv.first] += kv.second;
            c.obs.count("programs run concurrently");
            c.obs.count("trace bytes compared", (long) a.trace.size());
        }
    c.obs.count("threads started", threads);
    c.obs.situation("isolation " + vh::str(threads) + " threads x " + vh::str(each));
}

struct Step { virtual int at(int) = 0; virtual void mark(int, int) = 0; };

// Calls handed from thread to thread: the history must show them in hand-over order, and unsynchronised
// calls of one thread in program order.
void ordering(vh::Ctx &c, vh::Rng &rng) {
    int threads = rng.range(2, 5), rounds = rng.range(3, 25);
    std::vector<std::unique_ptr<Mock<Step>>> mocks;
    for (int t = 0; t < threads; t++) {
        mocks.emplace_back(new Mock<Step>());
        When(Method((*mocks[t]), at)).AlwaysDo([](int x) { return x + 1; });
        Fake(Method((*mocks[t]), mark));
    }
    std::vector<int> turn;              // which thread makes the k-th handed-over call
    for (int k = 0; k < rounds; k++) turn.push_back(rng.below(threads));
    std::vector<std::vector<int>> extra(threads, std::vector<int>(rounds));
    for (auto &v : extra) for (auto &x : v) x = rng.below(3);
    std::atomic<int> now(0);
    std::vector<std::thread> ts;
    Gate gate(threads);
    std::atomic<int> bad(0);
    for (int t = 0; t < threads; t++)
        ts.emplace_back([&, t] {
            gate.pass();
            Step &s = mocks[t]->get();
            int mine = 0;
            for (int k = 0; k < rounds; k++) {
                for (int i = 0; i < extra[t][k]; i++) s.mark(t, mine++);
                if (turn[k] != t) continue;
                while (now.load(std::memory_order_acquire) != k) std::this_thread::yield();
                if (s.at(k) != k + 1) bad++;
                now.store(k + 1, std::memory_order_release);
            }
            // what this thread alone can say about its own mock
            int own = (int) std::count(turn.begin(), turn.end(), t);
            if (!(bool) Verify(Method((*mocks[t]), at)).Exactly(own)) bad++;
            if (!(bool) Verify(Method((*mocks[t]), mark)).Exactly(mine)) bad++;
        });
    for (auto &t : ts) t.join();
    vh::expect(c, bad == 0, "thread-result", "a thread saw a wrong result or count on its own mock");
    // the collected history of all mocks, through the public event
    struct Collect : EventHandler {
        std::vector<std::string> calls;
        void handle(const UnexpectedMethodCallEvent &) override {}
        void handle(const SequenceVerificationEvent &e) override { for (auto i : e.actualSequence()) calls.push_back(i->format()); }
        void handle(const NoMoreInvocationsVerificationEvent &) override {}
    } collect;
    Fakeit.addEventHandler(collect);
    struct Other { virtual void never() = 0; };
    Mock<Other> other;
    Fake(Method(other, never));
    try {
        if (threads == 2) Using(*mocks[0], *mocks[1]).Verify(Method(other, never));
        else if (threads == 3) Using(*mocks[0], *mocks[1], *mocks[2]).Verify(Method(other, never));
        else if (threads == 4) Using(*mocks[0], *mocks[1], *mocks[2], *mocks[3]).Verify(Method(other, never));
        else Using(*mocks[0], *mocks[1], *mocks[2], *mocks[3], *mocks[4]).Verify(Method(other, never));
    } catch (const SequenceVerificationException &) {
    }
    Fakeit.clearEventHandlers();
    std::vector<int> next(threads, 0);
    int at = 0;
    size_t total = (size_t) rounds;
    for (auto &v : extra) for (auto x : v) total += (size_t) x;
    vh::expect(c, collect.calls.size() == total, "history-size", "the common history has " + vh::str(collect.calls.size()) + " calls instead of " + vh::str(total));
    std::string shape;
    for (auto &s : collect.calls) {
        size_t p = s.rfind('(');
        if (s.find(".at(") != std::string::npos) {
            int k = atoi(s.c_str() + p + 1);
            vh::require(c, k == at, "handover-order", "synchronised calls of different threads out of order: " + s + " where number " + vh::str(at) + " is due");
            at++;
            shape += "@";
        } else {
            int t = atoi(s.c_str() + p + 1), k = atoi(s.c_str() + s.rfind(',') + 1);
            vh::require(c, t >= 0 && t < threads && k == next[t], "program-order", "calls of one thread out of order: " + s);
            next[t]++;
            shape += vh::str(t);
        }
    }
    c.obs.situation("interleaving " + shape);
    c.obs.count("hand-overs", rounds);
    c.obs.count("interleaved calls ordered", (long) total);
}

// One mock used by one thread after the other.
void handover(vh::Ctx &c, vh::Rng &rng) {
    int threads = rng.range(2, 5);
    Mock<Step> mock;
    std::mutex m;
    int calls = 0, bad = 0;
    std::vector<uint64_t> seeds;
    for (int t = 0; t < threads; t++) seeds.push_back(rng.next());
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; t++)
        ts.emplace_back([&, t] {
            vh::Rng r(seeds[t]);
            for (int i = 0; i < 8; i++) {
                std::lock_guard<std::mutex> l(m);
                int v = r.below(1000);
                When(Method(mock, at)).Return(v);
                if (mock.get().at(i) != v) bad++;
                calls++;
                if (!(bool) Verify(Method(mock, at)).Exactly(calls)) bad++;
                if (r.chance(10)) { mock.Reset(); calls = 0; }
                else if (r.chance(10)) { mock.ClearInvocationHistory(); calls = 0; }
            }
        });
    for (auto &t : ts) t.join();
    vh::expect(c, bad == 0, "handover", "a mock used by one thread at a time gave " + vh::str(bad) + " wrong results");
    c.obs.count("mocks handed between threads");
    c.obs.situation("handover " + vh::str(threads) + " " + vh::str(calls));
}

void oneCase(vh::Ctx &c, vh::Rng &rng) {
    int k = rng.below(10);
    if (k < 6) isolation(c, rng);
    else if (k < 9) ordering(c, rng);
    else handover(c, rng);
}

} // namespace

int main(int argc, char **argv) { return vh::shardMain(argc, argv, oneCase); }
