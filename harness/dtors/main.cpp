// Destruction of mocked objects (P18): classes with the destructor at every position, smart pointers to mock objects
// held by the "production" side, by recorded arguments, by recorded actions and results, released in random orders.
#include "../common/base.hpp"
#include "fakeit.hpp"

using namespace vh;
using namespace fakeit;

static std::vector<long> &hits() { static std::vector<long> h; return h; }

#define COMMON(SELF) \
    virtual int ping(int) = 0; \
    virtual void take(std::unique_ptr<SELF>) = 0; \
    virtual void share(std::shared_ptr<void>) = 0; \
    virtual std::unique_ptr<SELF> give() = 0; \
    virtual Tok tok(const Tok &) = 0;

struct First { virtual ~First() { hits().push_back(-1); } COMMON(First) };
struct Last { COMMON(Last) virtual ~Last() { hits().push_back(-1); } };
struct Middle { virtual int before() = 0; virtual ~Middle() = default; COMMON(Middle) std::string data; };
struct Base { virtual int b0() = 0; virtual ~Base() { hits().push_back(-1); } virtual int b1() = 0; };
struct Inherited : Base { COMMON(Inherited) Tok member; };
struct Redeclared : Base { int b0() override { return 1; } COMMON(Redeclared) ~Redeclared() override { hits().push_back(-2); } };
struct Rich { virtual int r0() { return 0; } COMMON(Rich) virtual void r1() {} virtual ~Rich() noexcept(true) {} int a = 4; std::vector<int> v; };
struct Wide {
#define W(N) virtual int w##N##0() = 0; virtual int w##N##1() = 0; virtual int w##N##2() = 0; virtual int w##N##3() = 0; virtual int w##N##4() = 0; \
    virtual int w##N##5() = 0; virtual int w##N##6() = 0; virtual int w##N##7() = 0;
    W(0) W(1) W(2) W(3) W(4) W(5) W(6) W(7)
    COMMON(Wide)
    W(8) W(9)
    virtual ~Wide() = default;
    W(A) W(B) W(C)
};
struct Chain0 { virtual void c0() = 0; };
struct Chain1 : Chain0 { virtual void c1() = 0; virtual ~Chain1() {} };
struct Chain2 : Chain1 { COMMON(Chain2) };

struct Held {
    int id;
    // model
    std::deque<long> once;             // remaining numbered actions of the newest destructor stubbing
    long always;                       // its unlimited action, or 0
    bool stubbed;
    int destructions;                  // recorded destructions
    bool fuzzyCount;                   // destructions happened while the history was being cleared
    int pings;
    std::vector<std::shared_ptr<void>> none;
    // what the mock's records hold: number of pointers to the objects of the mocks, by mock id
    std::map<int, int> historyHolds, stubHolds;
    Held() : id(0), always(0), stubbed(false), destructions(0), fuzzyCount(false), pings(0) {}
    virtual ~Held() {}
    virtual const char *cls() const = 0;
    virtual void setup() = 0;
    virtual std::shared_ptr<void> shared() = 0;
    virtual void destroy(int how) = 0;
    virtual void stubDtor(const std::vector<long> &, long, std::shared_ptr<void> captured) = 0;
    virtual void stubDtorToEnd(long, int how) = 0;      // its action clears, resets or destroys the mock
    virtual void fakeDtor() = 0;
    virtual bool verifyDtor(int n) = 0;
    virtual bool verifyPingThenDtor(int n) = 0;
    virtual bool noOther() = 0;
    virtual void takeSelf() = 0;
    virtual void shareWith(std::shared_ptr<void>) = 0;
    virtual std::shared_ptr<void> giveSelf() = 0;
    virtual void keepInAction(std::shared_ptr<void>) = 0;
    virtual void keepInResult() = 0;
    virtual void ping(int) = 0;
    virtual void reset() = 0;
    virtual void clear() = 0;
    virtual void destroyMock() = 0;
    virtual bool spied() const = 0;
};

template<class C> struct Of : Held {
    std::unique_ptr<Mock<C>> m;
    const char *n;
    explicit Of(const char *name) : m(new Mock<C>()), n(name) {}
    const char *cls() const override { return n; }
    bool spied() const override { return false; }
    void setup() override {
        Fake(Method((*m), ping), Method((*m), share), Method((*m), take));
        Mock<C> &x = *m;
        When(Method(x, give)).AlwaysDo([&x]() { return std::unique_ptr<C>(&x.get()); });
    }
    std::shared_ptr<void> shared() override { return std::shared_ptr<C>(&m->get()); }
    void destroy(int how) override {
        switch (how) {
            case 0: delete &m->get(); break;
            case 1: m->get().~C(); break;
            case 2: { std::unique_ptr<C> p(&m->get()); break; }
            case 3: { std::shared_ptr<const C> p(&m->get()); std::shared_ptr<const C> q = p; break; }
            case 4: { C *p = &m->get(); std::default_delete<C>()(p); break; }
            default: { std::vector<std::unique_ptr<C>> v; v.emplace_back(&m->get()); v.clear(); }
        }
    }
    void stubDtor(const std::vector<long> &once, long always, std::shared_ptr<void> captured) override {
        Mock<C> &x = *m;
        auto act = [captured](long v) { return [v, captured]() { hits().push_back(v); }; };
        switch (once.size() * 2 + (always ? 1 : 0)) {
            case 1: if (always % 2) Dtor(x) = act(always); else When(Dtor(x)).AlwaysDo(act(always)); break;
            case 2: When(Dtor(x)).Do(act(once[0])); break;
            case 3: When(Dtor(x)).Do(act(once[0])).AlwaysDo(act(always)); break;
            case 4: When(Dtor(x)).Do(act(once[0])).Do(act(once[1])); break;
            case 5: When(Dtor(x)).Do(act(once[0]), act(once[1])).AlwaysDo(act(always)); break;
            case 6: When(Dtor(x)).Do(act(once[0]), act(once[1]), act(once[2])); break;
            default: When(Dtor(x)).Do(act(once[0])).Do(act(once[1])).Do(act(once[2])).AlwaysDo(act(always));
        }
    }
    void stubDtorToEnd(long v, int how) override {
        When(Dtor((*m))).Do([this, v, how]() {
            if (how == 0) m->ClearInvocationHistory(); else if (how == 1) m->Reset(); else m.reset();
            hits().push_back(v);
        });
    }
    void fakeDtor() override { Fake(Dtor((*m))); }
    bool verifyDtor(int k) override { return Verify(Dtor((*m))).Exactly(k); }
    bool verifyPingThenDtor(int k) override { return Verify(Method((*m), ping) + Dtor((*m))).Exactly(k); }
    bool noOther() override {
        bool a = Verify(Dtor((*m))).Any();
        bool b = VerifyNoOtherInvocations(Dtor((*m)));
        return a && b;
    }
    void takeSelf() override { m->get().take(std::unique_ptr<C>(&m->get())); }
    void shareWith(std::shared_ptr<void> p) override { m->get().share(p); }
    std::shared_ptr<void> giveSelf() override { std::unique_ptr<C> p = m->get().give(); return std::shared_ptr<C>(std::move(p)); }
    void keepInAction(std::shared_ptr<void> p) override { Mock<C> &x = *m; When(Method(x, tok)).AlwaysDo([p](const Tok &t) { return t; }); }
    void keepInResult() override { Mock<C> &x = *m; When(Method(x, give)).Return(std::unique_ptr<C>(&x.get())); }
    void ping(int k) override { m->get().ping(k); }
    void reset() override { m->Reset(); }
    void clear() override { m->ClearInvocationHistory(); }
    void destroyMock() override { m.reset(); }
};

typedef std::unique_ptr<Held> AnyPtr;
static AnyPtr make(int k) {
    switch (k) {
        case 0: return AnyPtr(new Of<First>("First"));
        case 1: return AnyPtr(new Of<Last>("Last"));
        case 2: return AnyPtr(new Of<Middle>("Middle"));
        case 3: return AnyPtr(new Of<Inherited>("Inherited"));
        case 4: return AnyPtr(new Of<Redeclared>("Redeclared"));
        case 5: return AnyPtr(new Of<Rich>("Rich"));
        case 6: return AnyPtr(new Of<Wide>("Wide"));
        default: return AnyPtr(new Of<Chain2>("Chain2"));
    }
}

struct Outside { std::shared_ptr<void> p; int target; };

struct Run {
    Ctx &c;
    Rng &r;
    std::map<int, AnyPtr> mocks;
    std::vector<Outside> outside;
    long next;
    std::string script;
    Run(Ctx &c, Rng &r) : c(c), r(r), next(0) {}

    void say(const std::string &s) { script += " " + s; c.trace(s); }
    Held *any() { if (mocks.empty()) return nullptr; auto it = mocks.begin(); std::advance(it, r.below((int) mocks.size())); return it->second.get(); }

    // the model's effect of n destructions of a mock's object
    void destructions(Held &a, int n, std::vector<long> &want) {
        for (int k = 0; k < n; k++) {
            if (!a.stubbed) continue;
            a.destructions++;
            if (!a.once.empty()) { if (a.once.front()) want.push_back(a.once.front()); a.once.pop_front(); }
            else if (a.always > 0) want.push_back(a.always);
        }
    }
    // would n more destructions find behaviour? (an unexpected call can't be reported from a destructor)
    bool room(Held &a, int n) { return !a.stubbed || a.always != 0 || (int) a.once.size() >= n; }

    void judge(const std::string &what, std::vector<long> want, bool ordered = true) {
        std::vector<long> got = hits();
        if (!ordered) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
        std::string g, w;
        for (long x : hits()) g += " " + str(x);
        for (long x : want) w += " " + str(x);
        expect(c, got == want, "dtor-actions", what + ": actions run" + (g.empty() ? " none" : g) + ", expected" + (w.empty() ? " none" : w) + " after" + script.substr(script.size() > 600 ? script.size() - 600 : 0));
        hits().clear();
        c.obs.situation(what + (want.empty() ? " quiet" : ordered ? " runs" : " runs several"));
    }

    // pointers to the objects of `target` that would be released some day
    int pending(int target) {
        int n = 0;
        for (auto &o : outside) n += o.target == target;
        for (auto &m : mocks) { n += m.second->historyHolds[target]; n += m.second->stubHolds[target]; }
        return n;
    }

    std::vector<long> released(const std::map<int, int> &held, int self, bool selfCounts) {
        std::vector<long> want;
        for (auto &h : held) {
            if (h.first == self && !selfCounts) continue;
            auto it = mocks.find(h.first);
            if (it != mocks.end()) destructions(*it->second, h.second, want);
        }
        return want;
    }

    void step() {
        Held *a = any();
        hits().clear();
        if (!a || (mocks.size() < 4 && r.chance(8))) {
            AnyPtr p = make(r.below(8));
            p->id = (int) ++next;
            p->setup();
            say("mock" + str(p->id) + "=" + p->cls());
            int id = p->id;
            mocks[id] = std::move(p);
            c.obs.count("mocks");
            return;
        }
        std::string who = std::string(a->cls());
        switch (r.weighted({22, 14, 4, 8, 8, 6, 6, 6, 4, 4, 10, 6, 4, 5, 6, 5})) {
            case 0: {
                if (!room(*a, 1 + pending(a->id))) return;
                int how = r.below(6);
                say("destroy" + str(a->id) + "/" + str(how));
                a->destroy(how);
                std::vector<long> want;
                destructions(*a, 1, want);
                judge(who + " destroyed directly, way " + str(how) + (a->stubbed ? ", stubbed" : ""), want);
                c.obs.count("direct destructions");
                return;
            }
            case 1: {
                int pend = pending(a->id);
                std::vector<long> once;
                int k = r.below(4);
                long always = r.chance(70) || k < pend ? ++next : 0;
                if (!k && !always) return;
                for (int i = 0; i < k; i++) once.push_back(++next);
                std::shared_ptr<void> cap;
                bool captures = always && r.chance(25);        // a used-up action would release it from inside a destruction
                if (captures) { cap = a->shared(); a->stubHolds[a->id] += 1; }
                say("stubDtor" + str(a->id) + "(" + str(k) + (always ? ",always" : "") + (captures ? ",self" : "") + ")");
                a->stubDtor(once, always, cap);
                a->once.assign(once.begin(), once.end());
                a->always = always;
                a->stubbed = true;
                c.obs.count("destructor stubbings");
                return;
            }
            case 2:
                say("fakeDtor" + str(a->id));
                a->fakeDtor();
                a->once.clear();
                a->always = -1;          // runs nothing visible, for ever
                a->stubbed = true;
                return;
            case 3: {
                if (!room(*a, 1 + pending(a->id))) return;
                say("own" + str(a->id));
                Outside o = {a->shared(), a->id};
                outside.push_back(o);
                judge(who + " given to an owner", {});
                return;
            }
            case 4: {
                if (outside.empty()) return;
                int k = r.below((int) outside.size());
                Outside o = outside[(size_t) k];
                outside.erase(outside.begin() + k);
                std::vector<long> want;
                Held &t = *mocks[o.target];
                say("release" + str(o.target));
                destructions(t, 1, want);
                o.p.reset();
                judge(std::string(t.cls()) + " released by its owner", want);
                c.obs.count("owners released");
                return;
            }
            case 5:
                if (!room(*a, 1 + pending(a->id))) return;
                say("takeSelf" + str(a->id));
                a->takeSelf();
                a->historyHolds[a->id]++;
                judge(who + " recorded as an argument of its own mock", {});
                c.obs.count("pointers recorded");
                return;
            case 6: {
                Held *b = any();
                if (b->id < a->id) std::swap(a, b);          // the pointed-to mock is the older one
                if (!room(*a, 1 + pending(a->id))) return;
                say("share" + str(a->id) + "with" + str(b->id));
                b->shareWith(a->shared());
                b->historyHolds[a->id]++;
                judge(std::string(a->cls()) + " recorded as an argument of " + b->cls(), {});
                c.obs.count("pointers recorded");
                return;
            }
            case 7: {
                Held *b = any();
                if (b->id < a->id) std::swap(a, b);
                if (!room(*a, 1 + pending(a->id))) return;
                say("action" + str(b->id) + "keeps" + str(a->id));
                b->keepInAction(a->shared());
                b->stubHolds[a->id]++;
                judge(std::string(a->cls()) + " kept in an action of " + b->cls(), {});
                c.obs.count("pointers kept in actions");
                return;
            }
            case 8: {
                if (!room(*a, 1 + pending(a->id))) return;
                say("give" + str(a->id));
                std::shared_ptr<void> p = a->giveSelf();
                judge(who + " handed out", {});
                std::vector<long> want;
                destructions(*a, 1, want);
                p.reset();
                judge(who + " handed out and released", want);
                return;
            }
            case 9: {
                if (!room(*a, 2 + pending(a->id))) return;
                bool use = r.chance(50);
                say("keepResult" + str(a->id) + (use ? "+use" : ""));
                a->keepInResult();
                if (use) {
                    std::vector<long> want;
                    std::shared_ptr<void> p = a->giveSelf();
                    destructions(*a, 1, want);
                    p.reset();
                    judge(who + " kept in a result, handed out and released", want);
                } else
                    a->stubHolds[a->id]++;
                // `give` now has a used-up stubbing: restore one for later
                a->setup();
                return;
            }
            case 10: {
                int n = a->destructions;
                if (a->fuzzyCount || !a->stubbed) return;
                bool ok = a->verifyDtor(n);
                expect(c, ok, "dtor-verify", who + ": " + str(n) + " destructions not recorded after" + script.substr(script.size() > 600 ? script.size() - 600 : 0));
                expect(c, !a->verifyDtor(n + 1), "dtor-verify", who + ": a wrong number of destructions verifies");
                expect(c, a->noOther(), "dtor-verify", who + ": verified destructions are reported as other invocations");
                c.obs.count("destructor verifications");
                c.obs.situation("verify " + who + " " + str(std::min(n, 6)));
                return;
            }
            case 11: {
                // reset: what the mock holds of other mocks is released, what it holds of itself is released without any judgement of the actions
                for (auto &h : a->historyHolds) if (h.second && h.first != a->id && !room(*mocks[h.first], h.second + pending(h.first))) return;
                if (!room(*a, pending(a->id))) return;
                say("reset" + str(a->id));
                std::map<int, int> held = a->historyHolds;
                for (auto &h : a->stubHolds) held[h.first] += h.second;
                bool self = held[a->id] > 0;
                a->historyHolds.clear();
                a->stubHolds.clear();
                std::vector<long> want = released(held, a->id, false);
                a->reset();
                if (!self || !a->stubbed) judge(who + " reset", want, false);
                else { c.obs.count("resets of mocks holding themselves"); c.obs.situation(who + " reset holding itself"); }
                a->once.clear();
                a->always = 0;
                a->stubbed = false;
                a->destructions = a->pings = 0;
                a->fuzzyCount = false;
                a->setup();
                c.obs.count("resets");
                return;
            }
            case 12: {
                say("clear" + str(a->id));
                std::map<int, int> held = a->historyHolds;
                int before = a->destructions;
                (void) before;
                a->historyHolds.clear();
                bool self = held[a->id] > 0 && a->stubbed;
                std::vector<long> want = released(held, a->id, true);
                a->clear();
                a->destructions = a->pings = 0;
                if (self) a->fuzzyCount = true;
                judge(who + " history cleared" + (self ? " holding itself" : ""), want, false);
                c.obs.count("histories cleared");
                return;
            }
            case 13: {
                // destroy a mock nobody else points to
                for (auto &o : outside) if (o.target == a->id) return;
                for (auto &m : mocks) if (m.second.get() != a && (m.second->historyHolds[a->id] || m.second->stubHolds[a->id])) return;
                say("destroyMock" + str(a->id));
                std::map<int, int> held = a->historyHolds;
                for (auto &h : a->stubHolds) held[h.first] += h.second;
                bool self = held[a->id] > 0;
                std::vector<long> want = released(held, a->id, false);
                a->destroyMock();
                judge(who + (self ? " mock holding itself destroyed" : " mock destroyed"), want, false);
                mocks.erase(a->id);
                c.obs.count("mocks destroyed");
                return;
            }
            case 15: {
                // the action of the destructor ends the mock that runs it
                if (pending(a->id)) return;
                std::map<int, int> held = a->historyHolds;
                int how = r.below(3);
                if (how) for (auto &h : a->stubHolds) held[h.first] += h.second;
                for (auto &h : held) if (h.second) return;
                long v = ++next;
                int way = r.below(2);
                say("destroy" + str(a->id) + "/" + str(way) + (how == 0 ? " clearing" : how == 1 ? " resetting" : " ending") + " the mock");
                a->stubDtorToEnd(v, how);
                a->destroy(way);
                judge(who + (how == 0 ? " cleared" : how == 1 ? " reset" : " destroyed") + " by the action of its destructor", {v});
                c.obs.count("mocks ended by the action of a destructor");
                if (how == 2) { mocks.erase(a->id); return; }
                a->destructions = a->pings = 0;
                a->fuzzyCount = false;
                a->once.clear();
                a->always = 0;
                if (how == 1) { a->stubbed = false; a->setup(); }
                else { a->fakeDtor(); a->always = -1; a->stubbed = true; }
                return;
            }
            default: {
                if (!a->stubbed || !room(*a, 3 + pending(a->id)) || a->fuzzyCount) return;
                say("pingThenDestroy" + str(a->id));
                a->clear();
                std::vector<long> want = released(a->historyHolds, a->id, true);
                bool self = a->historyHolds[a->id] > 0;
                a->historyHolds.clear();
                a->destructions = 0;
                if (self) a->fuzzyCount = true;
                a->ping(1);
                a->destroy(r.below(2));
                destructions(*a, 1, want);
                judge(who + " called then destroyed", want, false);
                if (!a->fuzzyCount) {
                    expect(c, a->verifyPingThenDtor(1), "dtor-verify", who + ": call followed by a destruction is not found");
                    expect(c, !a->verifyPingThenDtor(0) && !a->verifyPingThenDtor(2), "dtor-verify", who + ": call followed by a destruction is found a wrong number of times");
                }
                c.obs.count("sequences verified");
            }
        }
    }
};

// A real object whose destructor is stubbed: destroying it runs the actions only, until the mock is gone.
struct Real { virtual int a() { return 1; } virtual ~Real() { hits().push_back(-3); } virtual int b() { return 2; } Tok t{7}; std::string s{"text that needs memory of its own"}; };
struct RealLast : Real { int a() override { return 3; } ~RealLast() override { hits().push_back(-4); } Tok u{8}; };

template<class View, class C> static void spyCase(Ctx &c, Rng &r, const char *name) {
    std::unique_ptr<C> real(new C());
    int before = real->a();
    std::vector<long> want;
    {
        Mock<View> spy(*real);
        bool stubbed = false;
        int n = 0, steps = r.range(1, 8);
        for (int k = 0; k < steps; k++) {
            hits().clear();
            switch (r.below(stubbed ? 5 : 2)) {
                case 0: { long v = 100 + k; When(Dtor(spy)).AlwaysDo([v]() { hits().push_back(v); }); stubbed = true; want = {v}; break; }
                case 1: Fake(Dtor(spy)); stubbed = true; want.clear(); break;
                case 2: spy.Reset(); stubbed = false; n = 0; break;
                case 3: expect(c, (bool) Verify(Dtor(spy)).Exactly(n), "dtor-verify", std::string(name) + ": destructions of a spied object not recorded"); break;
                default:
                    if (r.chance(50)) { View *p = real.get(); delete p; } else real->~C();
                    n++;
                    expect(c, hits() == want, "dtor-actions", std::string(name) + ": destroying a spied object with a stubbed destructor ran " + str(hits().size()) + " actions");
                    expect(c, real->t.get() == 7 && real->s.size() == 33 && real->a() == before && real->b() == 2, "dtor-object", std::string(name) + ": a stubbed destructor destroyed the object");
                    c.obs.count("destructions of spied objects");
                    c.obs.situation(std::string(name) + " spied " + str(n) + str(want.size()));
            }
        }
    }
    hits().clear();
    View *p = real.release();
    delete p;
    bool last = std::is_same<C, RealLast>::value;
    expect(c, last ? hits() == std::vector<long>({-4, -3}) : hits() == std::vector<long>({-3}), "dtor-object", std::string(name) + ": after the mock is gone the object is destroyed " + str(hits().size()) + " times");
}

static void oneCase(Ctx &c, Rng &r) {
    long live = tokStats().live;
    if (r.chance(12)) {
        switch (r.below(3)) {
            case 0: spyCase<Real, Real>(c, r, "Real"); break;
            case 1: spyCase<RealLast, RealLast>(c, r, "RealLast"); break;
            default: spyCase<Real, RealLast>(c, r, "RealLast as Real");
        }
    } else {
        Run run(c, r);
        int steps = r.range(10, 70);
        for (int k = 0; k < steps; k++) run.step();
        hits().clear();
        // release everything in an order that keeps every pointed-to mock alive long enough
        while (!run.outside.empty()) {
            Outside o = run.outside.back();
            run.outside.pop_back();
            std::vector<long> want;
            run.destructions(*run.mocks[o.target], 1, want);
            o.p.reset();
            run.judge("released at the end", want);
        }
        while (!run.mocks.empty()) {
            // newer mocks hold pointers to older ones only
            auto it = run.mocks.end();
            --it;
            Held &a = *it->second;
            std::map<int, int> held = a.historyHolds;
            for (auto &h : a.stubHolds) held[h.first] += h.second;
            std::vector<long> want = run.released(held, a.id, false);
            a.destroyMock();
            run.judge("mock destroyed at the end", want, false);
            run.mocks.erase(it);
        }
    }
    expect(c, tokStats().live == live && tokStats().bad == 0, "values", "values left behind or destroyed twice");
}

int main(int argc, char **argv) { return shardMain(argc, argv, oneCase); }
