#include "units.hpp"
using namespace vh;

static int callOf(Shared &s, int method) {
    switch (method) {
        case 0: return s.f(1);
        case 1: return s.g(1);
        case 2: return s.h(1);
        default: return s.k(1);
    }
}

static void oneCase(Ctx &c, Rng &r) {
    SharedMock m;
    std::map<int, int> behaviour;
    std::map<int, std::set<int>> users;        // source position number -> methods stubbed with it
    int v = r.below(10000);
    std::vector<Entry> all = unitA(), b = unitB();
    all.insert(all.end(), b.begin(), b.end());
    int steps = r.range(2, 6);
    std::string script;
    for (int s = 0; s < steps; s++) {
        int k = r.below((int) all.size());
        int no = all[(size_t) k].stub(m, ++v);
        behaviour[all[(size_t) k].method] = v;
        users[no].insert(all[(size_t) k].method);
        script += std::string(k < 8 ? " A" : " B") + "/" + "fghk"[all[(size_t) k].method];
        c.obs.count("stubbings");
    }
    bool collides = false;
    for (auto &u : users) if (u.second.size() > 1) collides = true;
    for (auto &x : behaviour) {
        int got = -1;
        try { got = callOf(m.get(), x.first); } catch (const fakeit::UnexpectedMethodCallException &) { got = -2; }
        expect(c, got == x.second, collides ? "same-number" : "different-number", "stubbed in order" + script + ": method " + "fghk"[x.first] + " gives " + str(got) + " instead of " + str(x.second));
        c.obs.count(collides ? "calls with stubbings of the same number in two units" : "calls");
        c.obs.situation(script + str(x.first));
    }
}

int main(int argc, char **argv) { return shardMain(argc, argv, oneCase); }
