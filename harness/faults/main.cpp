// Exceptions from user code (P21): a random scenario is run once to count the points where the framework runs user code
// (copies, moves, comparisons, predicates, actions, handlers, printing) and then again with a fault at each of these points.
// After the fault the scenario goes on against a model in which only the completed operations had an effect.
#include "../common/base.hpp"
#include "fakeit.hpp"

#include <typeinfo>

using namespace vh;
using namespace fakeit;

enum Kind { COPY, MOVE, COMPARE, PREDICATE, ACTION, HANDLER, PRINT };
static const char *kindName[] = {"copy", "move", "compare", "predicate", "action", "handler", "print"};
enum Role { ARG, RESULT, FUNCTOR, THROWN };
static const char *roleName[] = {"argument", "result", "functor", "exception"};

struct Fault { int id; virtual ~Fault() {} explicit Fault(int i) : id(i) {} };
struct DerivedFault : Fault { std::string text; explicit DerivedFault(int i) : Fault(i), text("fault " + str(i)) {} };

static bool armed = false;          // inside a framework statement
static long points = 0, target = 0, target2 = 0;
static Kind faultKind;
static Role faultRole;
static int faultId = 0, faultType = 0;

// what user code throws: types of its own, standard exceptions, no class at all, or what a call of another mock raises
struct Unstubbed { virtual int call(int) = 0; };
[[noreturn]] static void throwFault(int id, int type) {
    switch (type) {
        case 0: throw DerivedFault(id);
        case 1: throw std::bad_alloc();
        case 2: throw std::runtime_error("fault " + str(id));
        case 3: throw std::out_of_range("fault " + str(id));
        case 4: throw id;
        case 5: throw std::string("fault " + str(id));
        case 6: throw (const char *) "fault";
        case 7: throw std::bad_cast();
        case 8: throw std::bad_function_call();
        case 9: throw false;
        case 10: throw true;
        default: {
            Mock<Unstubbed> other;
            other.get().call(id);
            abort();
        }
    }
}

static void point(Kind k, Role r) {
    if (!armed) return;
    points++;
    if (points == target || points == target2) {
        faultKind = k;
        faultRole = r;
        faultId = (int) points;
        bool nested = armed;
        armed = false;                              // the other mock's own handling of its call is not part of the scenario
        struct Back { bool &f; bool v; ~Back() { f = v; } } back = {armed, nested};
        throwFault(faultId, faultType);
    }
}

static long live = 0, bad = 0;
template<int R> struct Val {
    int code;
    Val *self;
    explicit Val(int c) : code(c), self(this) { live++; }
    Val() : code(0), self(this) { live++; }
    Val(const Val &o) : code(o.code), self(this) { if (o.self != &o) bad++; point(COPY, (Role) R); live++; }
    Val(Val &&o) : code(o.code), self(this) { if (o.self != &o) bad++; point(MOVE, (Role) R); live++; o.code = -1; }
    Val &operator=(const Val &o) { if (self != this || o.self != &o) bad++; point(COPY, (Role) R); code = o.code; return *this; }
    ~Val() { if (self != this) bad++; self = nullptr; live--; }
};
typedef Val<ARG> A;
typedef Val<RESULT> B;
typedef Val<FUNCTOR> F;
typedef Val<THROWN> E;
static bool operator==(const A &a, const A &b) { point(COMPARE, ARG); return a.code == b.code; }
static bool operator>(const A &a, const A &b) { point(COMPARE, ARG); return a.code > b.code; }
static bool operator!=(const A &a, const A &b) { point(COMPARE, ARG); return a.code != b.code; }
static std::ostream &operator<<(std::ostream &o, const A &a) { point(PRINT, ARG); return o << "A" << a.code; }

struct I {
    virtual B f(A) = 0;
    virtual B g(const A &, const A &) = 0;
    virtual B h(A, A) = 0;
    virtual void v(A, int) = 0;
};

struct Handler : EventHandler {
    void handle(const UnexpectedMethodCallEvent &) override { point(HANDLER, ARG); }
    void handle(const SequenceVerificationEvent &) override { point(HANDLER, ARG); }
    void handle(const NoMoreInvocationsVerificationEvent &) override { point(HANDLER, ARG); }
};

struct Act {
    F token;
    int result;
    Act(int r) : token(1), result(r) {}
    B operator()(const A &) const { point(ACTION, FUNCTOR); return B(result); }
    B operator()(const A &, const A &) const { point(ACTION, FUNCTOR); return B(result); }
    void operator()(const A &, int) const { point(ACTION, FUNCTOR); }
};
struct Predicate {
    F token;
    int limit;
    Predicate(int l) : token(2), limit(l) {}
    bool operator()(const A &a) const { point(PREDICATE, FUNCTOR); return a.code <= limit; }
    bool operator()(const A &a, const A &b) const { point(PREDICATE, FUNCTOR); return a.code <= limit && b.code <= limit; }
    bool operator()(const A &a, int) const { point(PREDICATE, FUNCTOR); return a.code <= limit; }
};

// ------------------------------------------------------------------ scenario
struct Cond { int form, x, y; };               // 0 none, 1 value(s), 2 Using(Eq), 3 Using(Gt, Any), 4 predicate, 5 Using(Ne)
struct Stmt { int what, method, mock; Cond c; int form, n, r1, r2; int a, b; };

static bool accepts(const Cond &c, int method, int a, int b) {
    bool two = method == 1 || method == 2;
    switch (c.form) {
        case 0: return true;
        case 1: case 2: return a == c.x && (method == 0 || (method == 3 ? b == c.y : b == c.y));
        case 3: return a > c.x;
        case 4: return a <= c.x && (!two || b <= c.x);
        default: return a != c.x;
    }
}

struct MAct { int kind, result; };                // 0 return, 1 throw E, 2 void
struct MStub { Cond c; std::deque<MAct> once; bool always; MAct last; };
struct MCall { int mock, method, a, b; bool verified; long no; };
struct MMock { std::vector<MStub> stubs[4]; };

struct World {
    Ctx &c;
    std::deque<A> args;                  // recorded by reference
    std::unique_ptr<Mock<I>> m[2];
    MMock model[2];
    std::vector<MCall> calls;
    long no;
    std::string script;
    explicit World(Ctx &c) : c(c), no(0) { m[0].reset(new Mock<I>()); m[1].reset(new Mock<I>()); }
    Mock<I> &mock(int k) { return *m[k]; }
};

#define STUBFORMS(EXPR, RESULTS) \
    switch (s.form) { \
        case 0: When(EXPR).Return(B(s.r1)); break; \
        case 1: When(EXPR).Return(B(s.r1), B(s.r2)); break; \
        case 2: When(EXPR).AlwaysReturn(B(s.r1)); break; \
        case 3: When(EXPR).Do(Act(s.r1)).AlwaysDo(Act(s.r2)); break; \
        case 4: When(EXPR).Throw(E(s.r1)).Return(B(s.r2)); break; \
        case 5: EXPR = Act(s.r1); break; \
        case 6: When(EXPR).Return(2_Times(B(s.r1))); break; \
        case 7: { B named(s.r1); When(EXPR).Return(named).AlwaysReturn(named); break; } \
        case 8: { Act act(s.r1); When(EXPR).Do(act); break; } \
        default: When(EXPR).AlwaysThrow(E(s.r1)); }
#define STUBVOID(EXPR) \
    switch (s.form) { \
        case 0: When(EXPR).Return(); break; \
        case 1: When(EXPR).Return().Return(); break; \
        case 2: When(EXPR).AlwaysReturn(); break; \
        case 3: When(EXPR).Do(Act(s.r1)).AlwaysDo(Act(s.r2)); break; \
        case 4: When(EXPR).Throw(E(s.r1)).Return(); break; \
        case 5: EXPR = Act(s.r1); break; \
        case 6: When(EXPR).Do(Act(s.r1)).Do(Act(s.r2)); break; \
        case 7: When(EXPR).Return().AlwaysReturn(); break; \
        case 8: { Act act(s.r1); When(EXPR).Do(act); break; } \
        default: When(EXPR).AlwaysThrow(E(s.r1)); }
#define CONDS1(ME, DO) \
    switch (s.c.form) { \
        case 0: DO(ME); break; \
        case 1: DO(ME(A(s.c.x))); break; \
        case 2: DO(ME.Using(Eq(A(s.c.x)))); break; \
        case 3: DO(ME.Using(Gt(A(s.c.x)))); break; \
        case 4: DO(ME.Matching(Predicate(s.c.x))); break; \
        default: DO(ME.Using(Ne(A(s.c.x)))); }
#define CONDS2(ME, DO) \
    switch (s.c.form) { \
        case 0: DO(ME); break; \
        case 1: DO(ME(A(s.c.x), A(s.c.y))); break; \
        case 2: DO(ME.Using(Eq(A(s.c.x)), A(s.c.y))); break; \
        case 3: DO(ME.Using(Gt(A(s.c.x)), _)); break; \
        case 4: DO(ME.Matching(Predicate(s.c.x))); break; \
        default: DO(ME.Using(Ne(A(s.c.x)), Any<A>())); }
#define CONDSV(ME, DO) \
    switch (s.c.form) { \
        case 0: DO(ME); break; \
        case 1: DO(ME(A(s.c.x), s.c.y)); break; \
        case 2: DO(ME.Using(A(s.c.x), Eq(s.c.y))); break; \
        case 3: DO(ME.Using(Gt(A(s.c.x)), _)); break; \
        case 4: DO(ME.Matching(Predicate(s.c.x))); break; \
        default: DO(ME.Using(Ne(A(s.c.x)), Any<int>())); }

static void doStub(World &w, const Stmt &s) {
    Mock<I> &m = w.mock(s.mock);
#define DO1(E) STUBFORMS(E, 1)
#define DOV(E) STUBVOID(E)
    switch (s.method) {
        case 0: CONDS1(Method(m, f), DO1); break;
        case 1: CONDS2(Method(m, g), DO1); break;
        case 2: CONDS2(Method(m, h), DO1); break;
        default: CONDSV(Method(m, v), DOV);
    }
}
static bool doVerify(World &w, const Stmt &s, int count) {
    Mock<I> &m = w.mock(s.mock);
#define DOC(E) { if (s.form & 1) { bool ok = Verify(E).Exactly(count); return ok; } Verify(E).Exactly(count); return true; }
    switch (s.method) {
        case 0: CONDS1(Method(m, f), DOC); break;
        case 1: CONDS2(Method(m, g), DOC); break;
        case 2: CONDS2(Method(m, h), DOC); break;
        default: CONDSV(Method(m, v), DOC);
    }
    return false;
}

enum Outcome { OK, VALUE, THREW_E, UNEXPECTED, FAULT, FAILED, OTHER };
static const char *outName[] = {"ok", "value", "stubbed exception", "unexpected call", "fault", "failed verification", "other exception"};

struct Result { Outcome o; int value; };
static bool sameFault(const Fault &f) {
    const DerivedFault *d = dynamic_cast<const DerivedFault *>(&f);
    return d && d->id == faultId && d->text == "fault " + str(faultId);
}

template<class Fn> static Result guarded(World &w, Fn fn) {
    Result r = {OK, 0};
    faultId = 0;
    try {
        armed = true;
        r = fn();
        armed = false;
    } catch (const E &e) { armed = false; r.o = THREW_E; r.value = e.code; }
    catch (const VerificationException &) { armed = false; r.o = FAILED; }
    catch (...) {
        armed = false;
        r.o = OTHER;
        int type = -1;
        std::string text;
        try { throw; }
        catch (const Fault &f) { type = sameFault(f) ? 0 : -2; }
        catch (const std::bad_alloc &) { type = 1; }
        catch (const std::out_of_range &e) { type = 3; text = e.what(); }
        catch (const std::runtime_error &e) { type = typeid(e) == typeid(std::runtime_error) ? 2 : -2; text = e.what(); }
        catch (int x) { type = x == faultId ? 4 : -2; }
        catch (const std::string &s) { type = 5; text = s; }
        catch (const char *s) { type = std::string(s) == "fault" ? 6 : -2; }
        catch (const std::bad_cast &) { type = 7; }
        catch (const std::bad_function_call &) { type = 8; }
        catch (bool b) { type = b ? 10 : 9; }
        catch (const UnexpectedMethodCallException &) { type = 11; }
        catch (...) {}
        if (faultId) {
            r.o = FAULT;
            expect(w.c, type == faultType && (text.empty() || text == "fault " + str(faultId)), "fault-changed", "the exception that arrives (" + str(type) + " " + text + ") is not the one thrown (" + str(faultType) + ")" + w.script);
        } else if (type == 11) r.o = UNEXPECTED;
    }
    if (faultId) expect(w.c, r.o == FAULT, "fault-lost", std::string("an exception from ") + kindName[faultKind] + " of " + roleName[faultRole] + " does not reach the caller: " + outName[r.o] + w.script);
    return r;
}

static std::string describe(const Stmt &s) {
    static const char *w[] = {"stub", "call", "verify", "noother", "reset", "clear", "pair"};
    return std::string(" ") + w[s.what] + "(m" + str(s.mock) + " " + "fghv"[s.method] + " cond" + str(s.c.form) + "/" + str(s.c.x) + "," + str(s.c.y) + " form" + str(s.form) + " args " + str(s.a) + "," + str(s.b) + ")";
}

static void step(World &w, const Stmt &s) {
    w.script += describe(s);
    MMock &mm = w.model[s.mock];
    long livePre = live;
    (void) livePre;
    switch (s.what) {
        case 0: {
            Result r = guarded(w, [&]() { doStub(w, s); Result x = {OK, 0}; return x; });
            expect(w.c, r.o == OK || r.o == FAULT, "fault-stubbing", std::string("stubbing ends with ") + outName[r.o] + w.script);
            if (r.o == FAULT) { w.script += "!" + std::string(kindName[faultKind]) + "-" + roleName[faultRole]; w.c.obs.situation("fault " + str(faultType) + " stub " + str(s.form) + " cond " + str(s.c.form) + " method " + str(s.method) + " " + kindName[faultKind] + roleName[faultRole]); w.c.obs.count("faults in stubbing"); return; }
            MStub st;
            st.c = s.c;
            st.always = false;
            int k = s.method == 3 ? 2 : 0;
            MAct a1 = {k, s.r1}, a2 = {k, s.r2}, t1 = {1, s.r1};
            switch (s.form) {
                case 0: case 8: st.once = {a1}; break;
                case 1: st.once = {a1, a2}; break;
                case 2: case 5: st.always = true; st.last = a1; break;
                case 3: st.once = {a1}; st.always = true; st.last = a2; break;
                case 4: st.once = {t1, a2}; break;
                case 6: st.once = {a1, a1}; break;
                case 7: st.once = {a1}; st.always = true; st.last = a1; break;
                default: st.always = true; st.last = t1;
            }
            mm.stubs[s.method].push_back(st);
            w.c.obs.count("stubbings");
            return;
        }
        case 1: {
            I &o = w.mock(s.mock).get();
            w.args.emplace_back(s.a);
            A &x = w.args.back();
            w.args.emplace_back(s.b);
            A &y = w.args.back();
            Result r = guarded(w, [&]() {
                Result q = {VALUE, 0};
                switch (s.method) {
                    case 0: { B res = o.f(x); q.value = res.code; break; }
                    case 1: { B res = o.g(x, y); q.value = res.code; break; }
                    case 2: { B res = o.h(x, y); q.value = res.code; break; }
                    default: o.v(x, s.b); q.o = OK;
                }
                return q;
            });
            std::vector<MStub> &st = mm.stubs[s.method];
            MStub *hit = nullptr;
            for (size_t k = st.size(); k-- > 0;) if (accepts(st[k].c, s.method, s.a, s.b)) { hit = &st[k]; break; }
            if (r.o == FAULT) {
                w.script += "!" + std::string(kindName[faultKind]) + "-" + roleName[faultRole];
                w.c.obs.count("faults in calls");
                w.c.obs.situation("call method " + str(s.method) + " " + kindName[faultKind] + roleName[faultRole] + (hit ? " matched" : ""));
                bool started = faultKind == ACTION || faultRole == RESULT || faultRole == THROWN;
                bool served = hit && (hit->always || !hit->once.empty());
                if (!started && hit && !served && (faultKind == HANDLER || faultKind == PRINT)) {
                    // a used-up stubbing has accepted the call, only the report was interrupted
                    MCall rec = {s.mock, s.method, s.a, s.b, false, w.no++};
                    w.calls.push_back(rec);
                }
                if (!started) return;
                expect(w.c, hit && (hit->always || !hit->once.empty()), "fault-phase", "a call without behaviour ran an action" + w.script);
                if (!hit) return;
            }
            bool served = hit && (hit->always || !hit->once.empty());
            if (hit && !served) {
                // accepted by a used-up stubbing: recorded
                MCall rec = {s.mock, s.method, s.a, s.b, false, w.no++};
                w.calls.push_back(rec);
                expect(w.c, r.o == UNEXPECTED, "model-call", std::string("call of a used-up stubbing ends with ") + outName[r.o] + w.script);
                return;
            }
            if (!hit) { expect(w.c, r.o == UNEXPECTED, "model-call", std::string("call without behaviour ends with ") + outName[r.o] + w.script); return; }
            MAct act = hit->last;
            if (!hit->once.empty()) { act = hit->once.front(); hit->once.pop_front(); }
            MCall rec = {s.mock, s.method, s.a, s.b, false, w.no++};
            w.calls.push_back(rec);
            if (r.o == FAULT) return;
            Outcome want = act.kind == 0 ? VALUE : act.kind == 1 ? THREW_E : OK;
            expect(w.c, r.o == want && (want == OK || r.value == act.result), "model-call", std::string("call gives ") + outName[r.o] + " " + str(r.value) + " instead of " + outName[want] + " " + str(act.result) + w.script);
            w.c.obs.count("calls served");
            return;
        }
        case 2: {
            int n = 0;
            for (MCall &k : w.calls) if (k.mock == s.mock && k.method == s.method && accepts(s.c, s.method, k.a, k.b)) n++;
            int ask = s.n == 0 ? n : s.n == 1 ? n + 1 : n;
            Result r = guarded(w, [&]() { Result q = {doVerify(w, s, ask) ? OK : FAILED, 0}; return q; });
            if (r.o == FAULT) { w.script += "!" + std::string(kindName[faultKind]) + "-" + roleName[faultRole]; w.c.obs.count("faults in verifications"); w.c.obs.situation("verify " + str(s.form & 1) + " cond " + str(s.c.form) + " method " + str(s.method) + " " + kindName[faultKind] + roleName[faultRole] + (n ? " some" : "")); return; }
            expect(w.c, r.o == (ask == n ? OK : FAILED), "model-verify", std::string("verification of ") + str(ask) + " matches ends with " + outName[r.o] + ", true number " + str(n) + w.script);
            if (r.o == OK) for (MCall &k : w.calls) if (k.mock == s.mock && k.method == s.method && accepts(s.c, s.method, k.a, k.b)) k.verified = true;
            w.c.obs.count("verifications");
            return;
        }
        case 3: {
            int open = 0;
            for (MCall &k : w.calls) if (k.mock == s.mock && !k.verified) open++;
            Result r = guarded(w, [&]() { Result q = {OK, 0}; if (s.form & 1) { bool ok = VerifyNoOtherInvocations(w.mock(s.mock)); q.o = ok ? OK : FAILED; } else VerifyNoOtherInvocations(w.mock(s.mock)); return q; });
            if (r.o == FAULT) { w.script += "!" + std::string(kindName[faultKind]); w.c.obs.count("faults in no-other checks"); w.c.obs.situation(std::string("noother ") + kindName[faultKind]); return; }
            expect(w.c, r.o == (open ? FAILED : OK), "model-noother", str(open) + " calls are not verified but the check ends with " + outName[r.o] + w.script);
            return;
        }
        case 4: case 5: {
            Result r = guarded(w, [&]() { if (s.what == 4) w.mock(s.mock).Reset(); else w.mock(s.mock).ClearInvocationHistory(); Result q = {OK, 0}; return q; });
            expect(w.c, r.o == OK, "model-reset", std::string("reset or clearing ends with ") + outName[r.o] + w.script);
            if (s.what == 4) for (auto &st : mm.stubs) st.clear();
            std::vector<MCall> keep;
            for (MCall &k : w.calls) if (k.mock != s.mock) keep.push_back(k);
            w.calls = keep;
            return;
        }
        default: {
            // two patterns over both mocks: f(x) + f(y), no conditions with user code beyond comparisons
            Mock<I> &p = w.mock(0), &q = w.mock(1);
            int n = 0;
            for (size_t k = 0; k + 1 < w.calls.size();) {
                MCall &x = w.calls[k], &y = w.calls[k + 1];
                if (x.mock == 0 && x.method == 0 && x.a == s.a && y.mock == 1 && y.method == 0 && y.a == s.b) { n++; k += 2; } else k++;
            }
            int ask = s.n == 1 ? n + 1 : n;
            Result r = guarded(w, [&]() {
                Result z = {OK, 0};
                if (s.form & 1) { bool ok = Verify(Method(p, f)(A(s.a)) + Method(q, f).Using(A(s.b))).Exactly(ask); z.o = ok ? OK : FAILED; }
                else Verify(Method(p, f).Using(Eq(A(s.a))) + Method(q, f)(A(s.b))).Exactly(ask);
                return z;
            });
            if (r.o == FAULT) { w.script += "!" + std::string(kindName[faultKind]) + "-" + roleName[faultRole]; w.c.obs.count("faults in sequence verifications"); w.c.obs.situation(std::string("pair ") + kindName[faultKind] + roleName[faultRole]); return; }
            expect(w.c, r.o == (ask == n ? OK : FAILED), "model-verify", std::string("sequence verification of ") + str(ask) + " ends with " + outName[r.o] + ", true number " + str(n) + w.script);
            if (r.o == OK)
                for (size_t k = 0; k + 1 < w.calls.size();) {
                    MCall &x = w.calls[k], &y = w.calls[k + 1];
                    if (x.mock == 0 && x.method == 0 && x.a == s.a && y.mock == 1 && y.method == 0 && y.a == s.b) { x.verified = y.verified = true; k += 2; } else k++;
                }
        }
    }
}

static long play(Ctx &c, const std::vector<Stmt> &prog, long t1, long t2) {
    points = 0;
    target = t1;
    target2 = t2;
    Handler handler;
    {
        World w(c);
        Fakeit.addEventHandler(handler);
        try {
            for (const Stmt &s : prog) step(w, s);
        } catch (...) { armed = false; Fakeit.clearEventHandlers(); throw; }
        Fakeit.clearEventHandlers();
        c.trace(w.script);
        target = target2 = 0;
    }
    target = target2 = 0;
    c.obs.count("scenarios run");
    return points;
}

static void oneCase(Ctx &c, Rng &r) {
    std::vector<Stmt> prog;
    int len = r.range(4, 11);
    int res = 1000;
    for (int k = 0; k < len; k++) {
        Stmt s;
        s.what = k < 2 ? 0 : r.weighted({28, 36, 14, 7, 3, 2, 10});
        s.mock = r.chance(65) ? 0 : 1;
        s.method = r.below(4);
        if (r.chance(40)) s.method = 0;
        s.c.form = r.below(6);
        s.c.x = r.range(1, 3);
        s.c.y = r.range(1, 3);
        s.form = r.below(10);
        s.n = r.below(3);
        s.r1 = ++res;
        s.r2 = ++res;
        s.a = r.range(1, 3);
        s.b = r.range(1, 3);
        prog.push_back(s);
    }
    for (int k = 0; k < 3; k++) {              // always probe at the end
        Stmt s = prog[(size_t) r.below((int) prog.size())];
        s.what = k == 0 ? 1 : k == 1 ? 2 : 3;
        prog.push_back(s);
    }
    long before = live;
    bad = 0;
    Ctx dry;
    long n = play(dry, prog, 0, 0);
    for (const std::string &v : dry.obs.violations) c.violation("without-fault", v);
    expect(c, live == before, "value-lifetime", "values left behind without a fault");
    live = before;
    std::vector<long> order;
    for (long k = 1; k <= n; k++) order.push_back(k);
    long limit = c.tier == "quick" ? 45 : 150;
    for (long k = 0; k < (long) order.size(); k++) std::swap(order[(size_t) k], order[(size_t) (k + r.below((int) (order.size() - (size_t) k)))]);
    if ((long) order.size() > limit) order.resize((size_t) limit);
    c.obs.count("fault points", n);
    for (long k : order) {
        long second = r.chance(25) ? k + r.range(1, 12) : 0;
        faultType = r.chance(30) ? 0 : r.below(12);
        play(c, prog, k, second);
        expect(c, live == before, "value-lifetime", "fault at point " + str(k) + (second ? " and " + str(second) : "") + " of " + str(n) + " leaves " + str(live - before) + " values behind");
        expect(c, bad == 0, "value-use", "fault at point " + str(k) + " of " + str(n) + ": a value was used or destroyed after its destruction");
        live = before;
        bad = 0;
    }
    c.obs.count("faults injected", (long) order.size());
}

int main(int argc, char **argv) { return shardMain(argc, argv, oneCase); }
