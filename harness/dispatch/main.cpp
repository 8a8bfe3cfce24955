#include "engine.hpp"

using namespace di;

struct Live {
    std::unique_ptr<AnyMock> m;
    const char *cls;
    std::map<int, int> behaviour;      // method -> number
    std::map<int, int> calls;
    int dtor;                          // number or 0
    int dtorCalls;
};

static int nextValue;

static void create(Ctx &c, Live &l, const ClassEntry &e) {
    l.m.reset();
    l.m.reset(e.make());
    l.cls = e.name;
    l.behaviour.clear();
    l.calls.clear();
    l.dtor = 0;
    l.dtorCalls = 0;
    c.obs.count("mocks created");
}

static void stub(Ctx &c, Rng &r, Live &l, int k) {
    int v = ++nextValue;
    l.m->stub(k, v, r.below(3));
    l.behaviour[k] = v;
    c.obs.count("stubbings");
    c.trace(std::string(l.cls) + "::" + l.m->name(k) + " := " + str(v));
}

static void call(Ctx &c, Rng &r, Live &l, int k) {
    bool up = r.chance(40);
    if (l.m->noThrow(k) && !l.behaviour.count(k)) return;          // an unexpected call could only terminate
    hits().clear();
    int got = 0;
    bool unexpected = false;
    std::string other;
    try {
        got = l.m->call(k, up);
    } catch (const fakeit::UnexpectedMethodCallException &) {
        unexpected = true;
    } catch (...) {
        other = "another exception";
    }
    std::string who = std::string(l.cls) + "::" + l.m->name(k) + (up ? " through a base" : "");
    std::string ran;
    for (long h : hits()) ran += " " + str(h);
    bool known = l.behaviour.count(k) != 0;
    c.trace(who + " ->" + ran + (unexpected ? " unexpected" : ""));
    vh::expect(c, other.empty(), "dispatch", who + ": " + other);
    if (known) {
        int v = l.behaviour[k];
        vh::expect(c, !unexpected && hits().size() == 1 && hits()[0] == v, "dispatch", who + ": behaviour " + str(v) + " must run, observed" + (ran.empty() ? " none" : ran) + (unexpected ? " and unexpected call" : ""));
        if (!unexpected) vh::expect(c, got == l.m->want(k, v), "dispatch-result", who + ": result of behaviour " + str(v) + " decoded as " + str(got));
        l.calls[k]++;
        c.obs.count("calls served");
    } else {
        vh::expect(c, unexpected && hits().empty(), "dispatch-unmocked", who + ": never stubbed, observed" + (ran.empty() ? " no behaviour" : ran) + (unexpected ? "" : " and no unexpected call"));
        c.obs.count("calls unexpected");
    }
    c.obs.situation(who + (known ? " stubbed" : " not stubbed"));
}

static void verifyOne(Ctx &c, Live &l, int k) {
    if (!l.behaviour.count(k)) return;
    int n = l.calls.count(k) ? l.calls[k] : 0;
    vh::expect(c, l.m->verify(k, n), "dispatch-record", std::string(l.cls) + "::" + l.m->name(k) + ": " + str(n) + " calls were made but are not recorded for it");
    if (n) vh::expect(c, !l.m->verify(k, n - 1), "dispatch-record", std::string(l.cls) + "::" + l.m->name(k) + ": verification of a wrong count passes");
    c.obs.count("verifications");
}

static void destroyObject(Ctx &c, Rng &r, Live &l) {
    if (!l.m->hasDtor()) return;
    hits().clear();
    l.m->destroyObject(r.below(2));
    std::string who = std::string(l.cls) + " destructor";
    if (l.dtor) {
        l.dtorCalls++;
        vh::expect(c, hits().size() == 1 && hits()[0] == l.dtor, "dispatch-dtor", who + ": behaviour " + str(l.dtor) + " must run once");
        vh::expect(c, l.m->verifyDtor(l.dtorCalls), "dispatch-dtor", who + ": " + str(l.dtorCalls) + " destructions are not recorded");
    } else
        vh::expect(c, hits().empty(), "dispatch-dtor", who + ": not stubbed but something ran");
    c.obs.count("destructions");
    c.obs.situation(who + (l.dtor ? " stubbed" : ""));
}

static void oneCase(Ctx &c, Rng &r) {
    nextValue = r.below(50000);
    int which = vh::option("class").empty() ? r.below((int) classes().size()) : atoi(vh::option("class").c_str());
    std::vector<Live> ls((size_t) r.range(1, 4));
    for (Live &l : ls) {
        create(c, l, classes()[(size_t) which]);
        if (r.chance(50)) which = r.below((int) classes().size());
    }
    int steps = r.range(20, 90);
    if (r.chance(15)) {
        // everything once: every method of one mock, stubbed and called in orders of their own
        Live &l = ls[0];
        int n = l.m->methods();
        std::vector<int> order, calls;
        for (int k = 0; k < n; k++) { if (r.chance(85)) order.push_back(k); calls.push_back(k); }
        for (int k = (int) order.size() - 1; k > 0; k--) std::swap(order[(size_t) k], order[(size_t) r.below(k + 1)]);
        for (int k = n - 1; k > 0; k--) std::swap(calls[(size_t) k], calls[(size_t) r.below(k + 1)]);
        for (int k : order) stub(c, r, l, k);
        for (int k : calls) call(c, r, l, k);
        for (int k : calls) if (n < 100 || r.chance(5)) verifyOne(c, l, k);
        c.obs.count("complete sweeps");
        steps = 10;
    }
    for (int s = 0; s < steps; s++) {
        Live &l = ls[(size_t) r.below((int) ls.size())];
        int n = l.m->methods();
        int k = r.below(n);
        if (r.chance(30) && !l.behaviour.empty()) { auto it = l.behaviour.begin(); std::advance(it, r.below((int) l.behaviour.size())); k = it->first; }
        switch (r.weighted({30, 40, 8, 3, 4, 3, 2})) {
            case 0: stub(c, r, l, k); break;
            case 1: call(c, r, l, k); if (k + 1 < n) call(c, r, l, k + 1); if (k) call(c, r, l, k - 1); break;      // and the neighbours
            case 2: verifyOne(c, l, k); break;
            case 3: if (l.m->hasDtor()) { l.dtor = ++nextValue; l.m->stubDtor(l.dtor); } break;
            case 4: destroyObject(c, r, l); break;
            case 5: l.m->reset(); l.behaviour.clear(); l.calls.clear(); l.dtor = l.dtorCalls = 0; c.obs.count("resets"); break;
            default: create(c, l, classes()[(size_t) r.below((int) classes().size())]);
        }
    }
    for (Live &l : ls) for (auto &b : l.behaviour) if (r.chance(30)) { call(c, r, l, b.first); verifyOne(c, l, b.first); }
    while (!ls.empty()) { std::swap(ls[(size_t) r.below((int) ls.size())], ls.back()); ls.pop_back(); }
}

int main(int argc, char **argv) {
    std::sort(classes().begin(), classes().end(), [](const ClassEntry &a, const ClassEntry &b) { return strcmp(a.name, b.name) < 0; });
    return vh::shardMain(argc, argv, oneCase);
}
