// The same promises at sizes unit tests do not reach: many stubbings, actions, arguments, calls, terms, mocks, handlers,
// nesting levels and cycles. Every case draws one size; the model is a plain table.
#include "../common/base.hpp"
#include "fakeit.hpp"
#include <climits>

using namespace vh;
using namespace fakeit;

// Sizes around powers of two, up to `max`; the larger ones are drawn as often as the small ones.
// The first size a case draws goes through all magnitudes from case to case.
static long caseNumber;
static int drawSize(Rng &r, int max) {
    int bits = 0;
    while ((2 << bits) <= max) bits++;
    int k = caseNumber >= 0 ? bits - (int) (caseNumber % (bits + 1)) : r.range(0, bits);
    caseNumber = -1;
    int n = (1 << k) + r.range(-2, 2);
    if (r.chance(40)) n += r.below(n / 2 + 1);
    return std::max(1, std::min(n, max));
}

static decltype(fakeit::operator "" _Times(0ull)) times(int n) { return fakeit::operator "" _Times((unsigned long long) n); }

// ------------------------------------------------------------------ methods with many arguments
struct Plain {
    virtual ~Plain() {}
    virtual int f(int) = 0;
    virtual int g(int) = 0;
    virtual void h(int) = 0;
    virtual std::string s(const std::string &) = 0;
};

#define T4(T) T, T, T, T
#define T12(T) T4(T), T4(T), T4(T)
struct Args {
    virtual ~Args() {}
    virtual int a5(int, int, int, int, int) = 0;
    virtual int a8(T4(int), T4(int)) = 0;
    virtual int a9(T4(int), T4(int), int) = 0;
    virtual int a13(T12(int), int) = 0;
    virtual int a17(T12(int), T4(int), int) = 0;
    virtual int a25(T12(int), T12(int), int) = 0;
    virtual int r9(T4(int &), T4(int &), int &) = 0;
    virtual int r17(T12(int &), T4(int &), int &) = 0;
    virtual long m14(char, int, std::string, double, bool, long, const std::string &, short, unsigned, int *, char, long long, std::string, int) = 0;
};

template<size_t...> struct Seq {};
template<size_t N, size_t... I> struct Make : Make<N - 1, N - 1, I...> {};
template<size_t... I> struct Make<0, I...> { typedef Seq<I...> type; };

// One method with N integer arguments.
struct Wide {
    virtual ~Wide() {}
    virtual const char *name() const = 0;
    virtual int count() const = 0;
    virtual void fake() = 0;
    virtual void stubUsing(const std::vector<int> &, const std::vector<bool> &any, int result) = 0;
    virtual void stubMatching(const std::vector<int> &, const std::vector<bool> &any, int result) = 0;
    virtual void stubDo(std::vector<int> *seen) = 0;
    virtual int call(std::vector<int>) = 0;
    virtual bool verify(const std::vector<int> &, const std::vector<bool> &any, int n) = 0;
    virtual std::string reportOf(const std::vector<int> &) = 0;
};

static std::string wideText(const char *method, const std::vector<int> &v) {
    std::ostringstream o;
    o << "m." << method << "(";
    for (size_t i = 0; i < v.size(); i++) o << (i ? ", " : "") << v[i];
    o << ")";
    return o.str();
}

template<class Fn> static std::string reportText(Fn fn) {
    try { fn(); } catch (VerificationException &e) { return e.what(); }
    return "(no failure)";
}

#define WIDE(METHOD, N) \
    struct Wide_##METHOD : Wide { \
        Mock<Args> &m; \
        explicit Wide_##METHOD(Mock<Args> &mock) : m(mock) {} \
        const char *name() const override { return #METHOD; } \
        int count() const override { return N; } \
        void fake() override { Fake(Method(m, METHOD)); } \
        template<size_t... I> void use(const std::vector<int> &v, int result, Seq<I...>) { When(Method(m, METHOD).Using(v[I]...)).AlwaysReturn(result); } \
        void stubUsing(const std::vector<int> &v, const std::vector<bool> &, int result) override { use(v, result, Make<N>::type()); } \
        struct Check { \
            std::vector<int> v; std::vector<bool> any; \
            template<class... A> bool operator()(const A &... a) const { int got[] = {a...}; for (int i = 0; i < N; i++) if (!any[i] && got[i] != v[i]) return false; return sizeof...(A) == N; } \
        }; \
        void stubMatching(const std::vector<int> &v, const std::vector<bool> &any, int result) override { \
            Check c; c.v = v; c.any = any; When(Method(m, METHOD).Matching(c)).AlwaysReturn(result); } \
        struct Record { \
            std::vector<int> *seen; \
            template<class... A> int operator()(const A &... a) const { int got[] = {a...}; seen->assign(got, got + N); return 77; } \
        }; \
        void stubDo(std::vector<int> *seen) override { Record r; r.seen = seen; When(Method(m, METHOD)).AlwaysDo(r); } \
        template<size_t... I> int go(std::vector<int> &v, Seq<I...>) { return m.get().METHOD(v[I]...); } \
        int call(std::vector<int> v) override { return go(v, Make<N>::type()); } \
        template<size_t... I> bool ver(const std::vector<int> &v, int n, Seq<I...>) { return Verify(Method(m, METHOD).Using(v[I]...)).Exactly(n); } \
        bool verify(const std::vector<int> &v, const std::vector<bool> &any, int n) override { \
            if (std::find(any.begin(), any.end(), true) == any.end()) return ver(v, n, Make<N>::type()); \
            Check c; c.v = v; c.any = any; return Verify(Method(m, METHOD).Matching(c)).Exactly(n); } \
        template<size_t... I> std::string rep(const std::vector<int> &v, Seq<I...>) { return reportText([&]() { Verify(Method(m, METHOD).Using(v[I]...)).Exactly(999999); }); } \
        std::string reportOf(const std::vector<int> &v) override { return rep(v, Make<N>::type()); } \
    };
WIDE(a5, 5) WIDE(a8, 8) WIDE(a9, 9) WIDE(a13, 13) WIDE(a17, 17) WIDE(a25, 25)

static void argsCase(Ctx &ctx, Rng &r) {
    Mock<Args> m;
    std::unique_ptr<Wide> w;
    switch (r.below(6)) {
        case 0: w.reset(new Wide_a5(m)); break;
        case 1: w.reset(new Wide_a8(m)); break;
        case 2: w.reset(new Wide_a9(m)); break;
        case 3: w.reset(new Wide_a13(m)); break;
        case 4: w.reset(new Wide_a17(m)); break;
        default: w.reset(new Wide_a25(m));
    }
    int n = w->count();
    std::vector<int> expected, seen;
    for (int i = 0; i < n; i++) expected.push_back(1000 * (i + 1) + r.below(900));
    std::vector<bool> any(n, false);
    int kind = r.below(3);
    if (kind == 1) for (int i = 0; i < n; i++) any[i] = r.chance(20);
    if (kind == 2) w->stubDo(&seen); else w->fake();
    if (kind == 0) w->stubUsing(expected, any, 5);
    if (kind == 1) w->stubMatching(expected, any, 5);
    ctx.trace(std::string("method ") + w->name() + " kind " + str(kind));
    int matching = 0, calls = 0;
    for (int p = -1; p < n; p++) {       // change the argument at position p
        std::vector<int> v = expected;
        if (p >= 0) v[p] += r.chance(50) ? 1 : -1 - r.below(5);
        bool accept = p < 0 || any[p];
        int got = w->call(v);
        calls++;
        if (accept) matching++;
        expect(ctx, got == (kind == 2 ? 77 : accept ? 5 : 0), "wide-args",
               std::string(w->name()) + ": a call that differs at position " + str(p) + " from the expected values gives " + str(got));
        if (kind == 2) expect(ctx, seen == v, "wide-action-args", std::string(w->name()) + ": the action got (" + joinInts(seen) + ") instead of (" + joinInts(v) + ")");
        ctx.obs.situation(std::string("args/") + w->name() + "/" + str(kind) + "/" + str(p) + "/" + str(accept));
    }
    expect(ctx, w->verify(expected, any, matching), "wide-verify", std::string(w->name()) + ": verification does not count " + str(matching) + " of " + str(calls) + " calls");
    std::string text = w->reportOf(expected);
    expect(ctx, text.find("Expected pattern: " + wideText(w->name(), expected)) != std::string::npos && text.find("\n  " + wideText(w->name(), expected)) != std::string::npos,
           "wide-report", std::string(w->name()) + ": the report does not show all arguments: " + text);
    ctx.obs.count("calls", calls);
}

static void outArgsCase(Ctx &ctx, Rng &r) {
    using namespace std::placeholders;
    Mock<Args> m;
    std::vector<int> v(17, 0), set(17, 0);
    for (int i = 0; i < 17; i++) v[i] = -1 - i;
    std::vector<int> want = v;
    int a = r.below(1000), b = 1000 + r.below(1000), c = 2000 + r.below(1000), res = 3000 + r.below(1000);
    int form = r.below(5);
    bool nine = form < 2;
    if (form == 0) { When(Method(m, r9)).AlwaysReturnAndSet(std::move(res), a, b, c, a, b, c, a, b, c); for (int i = 0; i < 9; i++) want[i] = i % 3 == 0 ? a : i % 3 == 1 ? b : c; }
    if (form == 1) { When(Method(m, r9)).AlwaysReturnAndSet(std::move(res), _9 <= a, _1 <= b, _5 <= c); want[8] = a; want[0] = b; want[4] = c; }
    if (form == 2) { When(Method(m, r17)).AlwaysReturnAndSet(std::move(res), _17 <= a, _16 <= b, _10 <= c); want[16] = a; want[15] = b; want[9] = c; }
    if (form == 3) { When(Method(m, r17)).AlwaysReturnAndSet(std::move(res), _1 <= a, _2 <= b, _3 <= c, _11 <= b, _12 <= c, _13 <= a, _17 <= c);
        want[0] = a; want[1] = b; want[2] = c; want[10] = b; want[11] = c; want[12] = a; want[16] = c; }
    if (form == 4) { When(Method(m, r17)).AlwaysReturnAndSet(std::move(res), a, b, c, b, c, a, c, a, b, a, b, c, b, c, a, c, a);
        int all[] = {a, b, c, b, c, a, c, a, b, a, b, c, b, c, a, c, a}; for (int i = 0; i < 17; i++) want[i] = all[i]; }
    for (int k = r.range(1, 4); k > 0; k--) {
        std::vector<int> x = v;
        int got = nine ? m.get().r9(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8])
                       : m.get().r17(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15], x[16]);
        expect(ctx, got == res, "wide-out-result", "form " + str(form) + " returned " + str(got) + " instead of " + str(res));
        expect(ctx, x == want, "wide-out-args", "form " + str(form) + " left (" + joinInts(x) + ") instead of (" + joinInts(want) + ")");
        ctx.obs.situation("outargs/" + str(form) + "/" + str(a % 50) + "/" + str(k));
    }
}

static void mixedArgsCase(Ctx &ctx, Rng &r) {
    Mock<Args> m;
    struct V { char c; int i; std::string s; double d; bool b; long l; std::string cs; short sh; unsigned u; int *p; char c2; long long ll; std::string s2; int last; };
    static int cells[2];
    V v = {(char) ('a' + r.below(26)), r.below(100), std::string(r.below(60), 's'), r.below(100) / 4.0, r.chance(50), r.below(1000), "c" + str(r.below(9)), (short) r.below(99), (unsigned) r.below(99),
           &cells[r.below(2)], (char) ('A' + r.below(26)), (long long) r.next() >> 3, std::string(r.below(60), 't'), r.below(100)};
    auto call = [&](const V &x) { return m.get().m14(x.c, x.i, x.s, x.d, x.b, x.l, x.cs, x.sh, x.u, x.p, x.c2, x.ll, x.s2, x.last); };
    V seen;
    std::string csSeen;
    Fake(Method(m, m14));
    auto same = [](const V &a, const V &b) {
        return a.c == b.c && a.i == b.i && a.s == b.s && a.d == b.d && a.b == b.b && a.l == b.l && a.cs == b.cs && a.sh == b.sh && a.u == b.u && a.p == b.p && a.c2 == b.c2 && a.ll == b.ll &&
               a.s2 == b.s2 && a.last == b.last;
    };
    When(Method(m, m14).Using(v.c, v.i, v.s, v.d, v.b, v.l, v.cs, v.sh, v.u, v.p, v.c2, v.ll, v.s2, v.last)).AlwaysDo(
        [&](char &c, int &i, std::string &s, double &d, bool &b, long &l, const std::string &cs, short &sh, unsigned &u, int *&p, char &c2, long long &ll, std::string &s2, int &last) -> long {
            V x = {c, i, s, d, b, l, cs, sh, u, p, c2, ll, s2, last};
            seen = x;
            return 9;
        });
    std::deque<V> keep;
    int hits = 0;
    for (int p = -1; p < 14; p++) {
        V x = v;
        switch (p) {
            case 0: x.c++; break; case 1: x.i++; break; case 2: x.s += "!"; break; case 3: x.d += 0.5; break; case 4: x.b = !x.b; break; case 5: x.l--; break; case 6: x.cs += "?"; break;
            case 7: x.sh++; break; case 8: x.u++; break; case 9: x.p = x.p == cells ? cells + 1 : cells; break; case 10: x.c2++; break; case 11: x.ll++; break; case 12: x.s2 += "."; break;
            case 13: x.last++; break;
        }
        keep.push_back(x);
        long got = call(keep.back());
        if (p < 0) hits++;
        expect(ctx, got == (p < 0 ? 9 : 0), "wide-mixed", "a call differing at position " + str(p) + " gives " + str(got));
        if (p < 0) expect(ctx, same(seen, v), "wide-mixed-args", "the action of the method with fourteen arguments got other values");
        ctx.obs.situation("mixed/" + str(p) + "/" + str(v.i % 10));
    }
    bool ok = Verify(Method(m, m14).Using(v.c, v.i, v.s, v.d, v.b, v.l, v.cs, v.sh, v.u, v.p, v.c2, v.ll, v.s2, v.last)).Exactly(hits);
    expect(ctx, ok, "wide-mixed-verify", "verification with fourteen arguments does not count one call");
}

// ------------------------------------------------------------------ stubbings of one method
static void stubbingsCase(Ctx &ctx, Rng &r, int max) {
    struct S { int kind, a, b, left, result; };     // left: remaining actions, -1 without end
    std::vector<S> st;
    Mock<Plain> m;
    int n = drawSize(r, max);
    int span = std::max(4, r.chance(50) ? n : n / 4);
    auto call = [&](int arg) {
        int want = -1;
        for (size_t i = st.size(); i-- > 0;) {
            S &s = st[i];
            bool hit = s.kind == 0 ? true : s.kind == 1 ? arg == s.a : arg >= s.a && arg <= s.b;
            if (!hit) continue;
            if (s.left != 0) { want = s.result; if (s.left > 0) s.left--; }
            break;
        }
        int got = -1;
        try { got = m.get().f(arg); } catch (UnexpectedMethodCallException &) {}
        expect(ctx, got == want, "many-stubbings", "call f(" + str(arg) + ") with " + str(st.size()) + " stubbings gives " + str(got) + " instead of " + str(want));
        ctx.obs.count("calls");
    };
    for (int k = 0; k < n; k++) {
        S s = {r.weighted({k == 0 ? 20 : 1, 60, 30}), r.below(span), 0, r.chance(70) ? -1 : r.range(1, 3), 10 + k};
        s.b = s.a + r.below(4);
        int left = s.left;
        switch (s.kind) {
            case 0: if (left < 0) When(Method(m, f)).AlwaysReturn(s.result); else When(Method(m, f)).Return(times(left)(s.result)); break;
            case 1: if (left < 0) When(Method(m, f).Using(s.a)).AlwaysReturn(s.result); else When(Method(m, f).Using(s.a)).Return(times(left)(s.result)); break;
            default: {
                int a = s.a, b = s.b;
                auto in = [a, b](int &x) { return x >= a && x <= b; };
                if (left < 0) When(Method(m, f).Matching(in)).AlwaysReturn(s.result); else When(Method(m, f).Matching(in)).Return(times(left)(s.result));
            }
        }
        st.push_back(s);
        if (r.chance(20)) call(r.below(span + 4));
    }
    for (int k = std::min(300, 20 + n); k > 0; k--) call(r.below(span + 4));
    // each of the oldest ones that nothing newer hides
    for (int k = 0; k < std::min(n, 100); k++) call(st[k].a);
    ctx.obs.situation("stubbings/" + str(n));
}

// ------------------------------------------------------------------ actions of one stubbing
static void actionsCase(Ctx &ctx, Rng &r, int max, int maxCalls) {
    Mock<Plain> m;
    int n = drawSize(r, max), total = 0;
    std::vector<std::pair<int, int>> want;      // times, result; a negative result is thrown
    std::vector<int> ran(n, 0);
    bool forever = r.chance(30);
    {
        auto method = Method(m, f);
        auto p = When(method);
        for (int k = 0; k < n; k++) {
            int reps = r.chance(90) ? 1 : r.range(2, 40);
            if (r.chance(2)) reps = drawSize(r, maxCalls / 4);
            if (total + reps > maxCalls) reps = 1;
            total += reps;
            int res = 1 + k;
            int how = r.below(4);
            if (how == 0) { if (reps == 1) p.Return(res); else p.Return(times(reps)(res)); }
            else if (how == 1) { if (reps == 1) p.Throw(res); else p.Throw(times(reps)(res)); res = -res; }
            else {
                std::function<int(int &)> fn = [&ran, k, res](int &) { ran[k]++; return res; };
                if (reps == 1) p.Do(fn); else p.Do(times(reps)(fn));
            }
            want.push_back(std::make_pair(reps, res));
        }
        if (forever) { p.AlwaysReturn(1000000); }
    }
    long calls = 0;
    for (size_t k = 0; k < want.size(); k++)
        for (int t = 0; t < want[k].first; t++) {
            int got = 0;
            try { got = m.get().f(t); } catch (int e) { got = -e; } catch (UnexpectedMethodCallException &) { got = 0; }
            calls++;
            if (!expect(ctx, got == want[k].second, "many-actions",
                        "repetition " + str(t) + " of action " + str(k) + " of " + str(n) + " gives " + str(got) + " instead of " + str(want[k].second))) return;
        }
    for (int t = 0; t < 3; t++) {
        int got = 0;
        bool unexpected = false;
        try { got = m.get().f(-1); } catch (UnexpectedMethodCallException &) { unexpected = true; } catch (int e) { got = -e; }
        calls++;
        expect(ctx, forever ? got == 1000000 && !unexpected : unexpected, "many-actions-end", "after " + str(n) + " actions a call gives " + str(got));
    }
    ctx.obs.count("calls", calls);
    bool all = Verify(Method(m, f)).Exactly((int) calls);
    expect(ctx, all, "many-actions-recorded", "not all of " + str(calls) + " calls are in the history");
    ctx.obs.situation("actions/" + str(n) + "/" + str(total));
}

// ------------------------------------------------------------------ one action for many calls
static void repeatsCase(Ctx &ctx, Rng &r, int max) {
    Mock<Plain> m;
    Plain &p = m.get();
    int n = drawSize(r, max), form = r.below(4), ran = 0;
    if (form == 3 && n > 2000) form = 2;
    bool endless = form < 3 && n > 1000 && r.chance(25);        // far more calls than the case makes
    int quantity = endless ? (r.chance(50) ? INT_MAX - r.below(3) : (1 << r.range(17, 30)) + r.range(-2, 2)) : n;
    if (form == 0) When(Method(m, f)).Return(times(quantity)(7)).Return(8);
    else if (form == 1) When(Method(m, f)).Do(times(quantity)([&ran](int) { ran++; return 7; })).Return(8);
    else if (form == 2) When(Method(m, s)).Return(times(quantity)(std::string("seven"))).Return(std::string("eight"));
    else When(Method(m, f)).Throw(times(quantity)(7)).Return(8);
    auto call = [&]() {
        try { if (form == 2) { std::string t = p.s("x"); return t == "seven" ? 7 : t == "eight" ? 8 : -1; } int v = p.f(1); return form == 3 && v == 7 ? -1 : v; }
        catch (int e) { return form == 3 ? e : -1; }
        catch (UnexpectedMethodCallException &) { return 0; }
    };
    int clearAt = r.chance(30) ? r.below(n) : -1;
    for (int k = 0; k < n; k++) {
        int got = call();
        if (!expect(ctx, got == 7, "many-repetitions", "call " + str(k + 1) + " of an action given for " + str(quantity) + " calls gives " + str(got))) return;
        if (k == clearAt) m.ClearInvocationHistory();
    }
    int got = call();
    expect(ctx, got == (endless ? 7 : 8), "many-repetitions-end", "the call after " + str(n) + " calls of an action given for " + str(quantity) + " gives " + str(got));
    if (!endless) { got = call(); expect(ctx, got == 0, "many-repetitions-end", "the call after all actions gives " + str(got)); }
    if (form == 1) expect(ctx, ran == n + endless, "many-repetitions-run", "the action ran " + str(ran) + " times in " + str(n) + " calls");
    ctx.obs.count("calls", n + 1);
    ctx.obs.situation("repeats/" + str(form) + "/" + str(n) + "/" + str(endless));
}

// ------------------------------------------------------------------ long histories
struct Collect : EventHandler {
    std::vector<std::string> calls, open;
    int expected, actual;
    void handle(const UnexpectedMethodCallEvent &) override {}
    void handle(const SequenceVerificationEvent &e) override {
        for (Invocation *i : e.actualSequence()) calls.push_back(i->format());
        expected = e.expectedCount();
        actual = e.actualCount();
    }
    void handle(const NoMoreInvocationsVerificationEvent &e) override { for (Invocation *i : e.unverifedIvocations()) open.push_back(i->format()); }
};

static void historyCase(Ctx &ctx, Rng &r, int max) {
    Mock<Plain> a, b;
    Fake(Method(a, f), Method(a, g), Method(b, f), Method(b, g));
    std::vector<std::pair<int, int>> h;         // method, argument
    static const char *names[] = {"a.f", "a.g", "b.f", "b.g"};
    int n = drawSize(r, max), span = r.range(2, 9);
    auto call = [&](int which, int arg) {
        if (which == 0) a.get().f(arg); else if (which == 1) a.get().g(arg); else if (which == 2) b.get().f(arg); else b.get().g(arg);
        h.push_back(std::make_pair(which, arg));
    };
    if (r.chance(30)) {     // an earlier history that is cleared
        int before = drawSize(r, max);
        for (int k = 0; k < before; k++) call(r.below(4), r.below(span));
        a.ClearInvocationHistory();
        b.ClearInvocationHistory();
        h.clear();
        ctx.obs.count("calls", before);
    }
    for (int k = 0; k < n; k++) call(r.below(4), r.below(span));
    ctx.obs.count("calls", n);
    auto countOf = [&](int which, int arg) { int c = 0; for (auto &x : h) c += x.first == which && (arg < 0 || x.second == arg); return c; };
    int arg = r.below(span);
    int fa = countOf(0, -1), ga = countOf(1, arg);
    bool ok = Verify(Method(a, f)).Exactly(fa);
    expect(ctx, ok, "long-history-count", "a.f was called " + str(fa) + " times in a history of " + str(n));
    ok = Verify(Method(a, g).Using(arg)).Exactly(ga);
    expect(ctx, ok, "long-history-count", "a.g(" + str(arg) + ") was called " + str(ga) + " times in a history of " + str(n));
    ok = Verify(Method(a, g).Using(arg)).Exactly(ga + 1);
    expect(ctx, !ok, "long-history-count", "a wrong count is accepted in a history of " + str(n));
    // consecutive pairs over both mocks, earliest first and without overlap
    int pairs = 0;
    for (size_t k = 0; k + 1 < h.size(); k++)
        if (h[k].first == 0 && h[k + 1].first == 3) { pairs++; k++; }
    ok = Verify(Method(a, f) + Method(b, g)).Exactly(pairs);
    expect(ctx, ok, "long-history-pairs", "a.f directly followed by b.g " + str(pairs) + " times in a history of " + str(n));
    // terms with gaps
    int gaps = 0;
    for (size_t k = 0, want = 0; k < h.size(); k++)
        if (h[k].first == (want == 0 ? 0 : want == 1 ? 2 : 1) && (want != 1 || h[k].second == arg)) { if (++want == 3) { gaps++; want = 0; } }
    ok = Verify(Method(a, f), Method(b, f).Using(arg), Method(a, g)).Exactly(gaps);
    expect(ctx, ok, "long-history-gaps", "a.f ... b.f(" + str(arg) + ") ... a.g " + str(gaps) + " times in a history of " + str(n));
    // the whole history as the handlers get it
    Collect c;
    auto &fk = Fakeit;
    fk.addEventHandler(c);
    std::string text = reportText([&]() { Verify(Method(a, f), Method(b, f)).Exactly(n + 1); });
    std::string other = reportText([&]() { VerifyNoOtherInvocations(a, b); });
    fk.clearEventHandlers();
    bool same = c.calls.size() == h.size();
    size_t k = 0;
    for (; same && k < h.size(); k++) same = c.calls[k] == std::string(names[h[k].first]) + "(" + str(h[k].second) + ")";
    expect(ctx, same, "long-history-order", "the reported history of " + str(h.size()) + " calls has " + str(c.calls.size()) + " and differs at " + str(k));
    expect(ctx, c.expected == n + 1, "long-history-event", "the event has expected count " + str(c.expected));
    // not covered so far
    std::vector<bool> covered(h.size(), false);
    for (size_t i = 0; i < h.size(); i++) covered[i] = h[i].first == 0 || (h[i].first == 1 && h[i].second == arg);
    for (size_t i = 0; i + 1 < h.size(); i++) if (h[i].first == 0 && h[i + 1].first == 3) { covered[i] = covered[i + 1] = true; i++; }
    std::vector<size_t> cur;
    for (size_t i = 0, want = 0; i < h.size(); i++)
        if (h[i].first == (want == 0 ? 0 : want == 1 ? 2 : 1) && (want != 1 || h[i].second == arg)) {
            cur.push_back(i);
            if (++want == 3) { for (size_t x : cur) covered[x] = true; cur.clear(); want = 0; }
        }
    std::vector<std::string> open;
    for (size_t i = 0; i < h.size(); i++) if (!covered[i]) open.push_back(std::string(names[h[i].first]) + "(" + str(h[i].second) + ")");
    expect(ctx, c.open == open, "long-history-open", "the calls reported as not covered are " + str(c.open.size()) + ", not the right " + str(open.size()) + " of " + str(h.size()));
    // report text: the first fifty only
    std::ostringstream o;
    o << "Actual sequence : total of " << h.size() << " actual invocations:\n";
    for (size_t i = 0; i < h.size() && i < 50; i++) o << (i ? "\n" : "") << "  " << names[h[i].first] << "(" << h[i].second << ")";
    if (h.size() > 50) o << "\n  ...";
    expect(ctx, text.size() >= o.str().size() && text.compare(text.size() - o.str().size(), std::string::npos, o.str()) == 0, "long-history-report", "the report ends with: " + text.substr(0, 2000));
    // nothing is added, dropped or reordered by verifying: verify what is left and close
    ok = Verify(Method(a, f)).Exactly(fa);
    expect(ctx, ok, "long-history-again", "the second count of a.f differs");
    Verify(Method(a, f)).Any(); Verify(Method(a, g)).Any(); Verify(Method(b, f)).Any(); Verify(Method(b, g)).Any();
    bool closed = VerifyNoOtherInvocations(a, b);
    expect(ctx, closed, "long-history-closed", "calls are left after all were verified");
    bool none = Unverified.Verify(Method(a, f)).Never();
    expect(ctx, none, "long-history-unverified", "unverified calls are left after all were verified");
    ctx.obs.situation("history/" + str(n) + "/" + str(span));
}

// ------------------------------------------------------------------ long patterns
static void patternCase(Ctx &ctx, Rng &r, int max) {
    Mock<Plain> m;
    Fake(Method(m, f), Method(m, g));
    int n = drawSize(r, max), reps = r.range(1, 3), tail = r.below(n + 1);
    auto F = Method(m, f);
    auto G = Method(m, g);
    bool pair = r.chance(50);
    for (int k = 0; k < n * reps + tail; k++) { m.get().f(k); if (pair) m.get().g(k); }
    auto ok1 = [&]() -> bool { return pair ? (bool) Verify((F + G) * n).Exactly(reps + tail / n) : (bool) Verify(F * n).Exactly(reps + tail / n); };
    expect(ctx, ok1(), "long-pattern", "a term repeated " + str(n) + " times does not occur " + str(reps + tail / n) + " times in " + str(n * reps + tail) + " repetitions");
    std::string text = reportText([&]() { if (pair) Verify((F + G) * n).Exactly(9999999); else Verify(F * n).Exactly(9999999); });
    std::string want = std::string("Expected pattern: ") + (pair ? "(m.f( Any arguments ) + m.g( Any arguments )) * " : "m.f( Any arguments ) * ") + str(n) + "\nExpected matches: exactly 9999999\nActual matches  : " + str(reps + tail / n) + "\n";
    // names come from the variable of the mock
    expect(ctx, text.find(want) != std::string::npos, "long-pattern-report", "the report is " + text.substr(0, 400));
    // a long chain built step by step
    int len = std::min(n, 200);
    std::deque<decltype(F + F)> chain;
    std::string shown = "m.f( Any arguments )";
    for (int k = 1; k < len; k++) {
        bool g = pair && k % 2;
        if (chain.empty()) { if (g) chain.push_back(F + G); else chain.push_back(F + F); }
        else { auto &last = chain.back(); if (g) chain.push_back(last + G); else chain.push_back(last + F); }
        shown += g ? " + m.g( Any arguments )" : " + m.f( Any arguments )";
    }
    if (!chain.empty()) {
        int calls = (n * reps + tail) * (pair ? 2 : 1);
        int times = 0;
        // greedy, earliest first; with pairs an occurrence starts at an even call
        for (int at = 0; at + len <= calls;) { if (!pair || at % 2 == 0) { times++; at += len; } else at++; }
        bool ok = Verify(chain.back()).Exactly(times);
        expect(ctx, ok, "long-chain", "a chain of " + str(len) + " terms does not occur " + str(times) + " times in " + str(calls) + " calls");
        text = reportText([&]() { Verify(chain.back()).Exactly(9999999); });
        expect(ctx, text.find("Expected pattern: " + shown + "\n") != std::string::npos, "long-chain-report", "the report is " + text.substr(0, 400));
    }
    // many terms separated by commas
    bool ok = Verify(F, F, F, F, F, F, F, F, F, F, F, F).Exactly((n * reps + tail) / 12);
    expect(ctx, ok, "many-terms", "twelve terms in " + str(n * reps + tail) + " calls");
    ctx.obs.count("calls", n * reps + tail);
    ctx.obs.situation("pattern/" + str(n) + "/" + str(reps) + "/" + str(tail % 7) + "/" + str(pair));
}

// ------------------------------------------------------------------ extreme counts
static void countsCase(Ctx &ctx, Rng &r) {
    Mock<Plain> m;
    Fake(Method(m, f));
    int calls = r.below(5);
    for (int k = 0; k < calls; k++) m.get().f(k);
    static const int pool[] = {0, 1, 2, 3, 4, 5, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 30, 2147483647, -1, -2, -3, -128, -32768, -2147483647 - 1};
    int q = pool[r.below(sizeof pool / sizeof *pool)];
    int form = r.below(4);
    auto run = [&]() -> int {       // 0: false, 1: true, 2: refused
        try {
            switch (form) {
                case 0: return (bool) Verify(Method(m, f)).Exactly(q);
                case 1: return (bool) Verify(Method(m, f)).Exactly(Quantity(q));
                case 2: return (bool) Verify(Method(m, f)).AtLeast(q);
                default: return (bool) Verify(Method(m, f)).AtLeast(Quantity(q));
            }
        } catch (std::invalid_argument &) { return 2; }
    };
    int want = q < 0 ? 2 : form < 2 ? calls == q : calls >= q;
    int got = 3;
    try { got = run(); } catch (VerificationException &) { got = 4; }
    expect(ctx, got == want, "extreme-count", "form " + str(form) + " with count " + str(q) + " and " + str(calls) + " calls gives " + str(got) + " instead of " + str(want));
    if (want == 0) {
        std::string text = reportText([&]() {
            switch (form) {
                case 0: Verify(Method(m, f)).Exactly(q); break;
                case 1: Verify(Method(m, f)).Exactly(Quantity(q)); break;
                case 2: Verify(Method(m, f)).AtLeast(q); break;
                default: Verify(Method(m, f)).AtLeast(Quantity(q));
            }
        });
        std::string line = std::string("Expected matches: ") + (form < 2 ? "exactly " : "at least ") + str(q) + "\nActual matches  : " + str(calls) + "\n";
        expect(ctx, text.find(line) != std::string::npos, "extreme-count-report", text);
    }
    ctx.obs.situation("counts/" + str(form) + "/" + str(q) + "/" + str(calls));
}

// ------------------------------------------------------------------ many mocks at a time
struct Data { virtual ~Data() {} virtual int f(int) = 0; int i; char c[5]; virtual Tok t() = 0; long l; };

static void mocksCase(Ctx &ctx, Rng &r, int max) {
    int n = drawSize(r, max);
    std::vector<std::unique_ptr<Mock<Data>>> v;
    long live = tokStats().live;
    for (int k = 0; k < n; k++) {
        v.emplace_back(new Mock<Data>);
        Mock<Data> &m = *v.back();
        Data &d = m.get();
        expect(ctx, d.i == 0 && d.l == 0 && !d.c[0] && !d.c[4], "many-mocks-zero", "the data of mock " + str(k) + " does not start zeroed");
        d.i = k; d.l = -k; d.c[4] = (char) k;
        When(Method(m, f)).AlwaysReturn(k + 1);
        if (k % 3) When(Method(m, t)).AlwaysReturn(Tok(k));
    }
    for (int t = std::min(4 * n, 2000); t > 0; t--) {
        int k = r.below(n);
        if (!v[k]) continue;
        Data &d = v[k]->get();
        int got = d.f(0);
        expect(ctx, got == k + 1 && d.i == k && d.l == -k && d.c[4] == (char) k, "many-mocks", "mock " + str(k) + " of " + str(n) + " answers " + str(got));
        if (k % 3) { int code = d.t().get(); expect(ctx, code == k, "many-mocks", "mock " + str(k) + " of " + str(n) + " returns T" + str(code)); }
        if (r.chance(20)) v[k].reset();
    }
    ctx.obs.count("mocks", n);
    while (!v.empty()) { size_t k = r.below((int) v.size()); std::swap(v[k], v.back()); v.pop_back(); }
    expect(ctx, tokStats().live <= live + 1, "many-mocks-values", str(tokStats().live - live) + " values are alive after all mocks are destroyed");
    ctx.obs.situation("mocks/" + str(n));
}

// ------------------------------------------------------------------ nesting
static void depthCase(Ctx &ctx, Rng &r, int max) {
    Mock<Plain> m;
    Plain &p = m.get();
    int n = drawSize(r, max);
    bool alternate = r.chance(50), once = r.chance(50);
    // each call counts down through the other (or the same) method; stubbed once per level or for all levels
    std::function<int(int &)> step = [&](int &k) -> int { if (k == 0) return 0; return 1 + (alternate && k % 2 ? p.g(k - 1) : p.f(k - 1)); };
    if (once) {
        When(Method(m, f)).Do(times(n + 1)(step));
        When(Method(m, g)).Do(times(n + 1)(step));
    } else {
        When(Method(m, f)).AlwaysDo(step);
        When(Method(m, g)).AlwaysDo(step);
    }
    int got = -1;
    try { got = p.f(n); } catch (UnexpectedMethodCallException &) {}
    expect(ctx, got == n, "deep-nesting", "a call nested " + str(n) + " levels deep gives " + str(got));
    Collect c;
    auto &fk = Fakeit;
    fk.addEventHandler(c);
    reportText([&]() { Verify(Method(m, f), Method(m, g)).Exactly(n + 5); });
    fk.clearEventHandlers();
    bool ok = (int) c.calls.size() == n + 1;
    for (int k = 0; ok && k <= n; k++) {
        int arg = n - k;
        bool g = alternate && k > 0 && (arg + 1) % 2;
        ok = c.calls[k] == std::string(g ? "m.g(" : "m.f(") + str(arg) + ")";
    }
    expect(ctx, ok, "deep-nesting-order", "the history of " + str(n + 1) + " nested calls is not in the order of the calls");
    ctx.obs.count("calls", n + 1);
    ctx.obs.situation("depth/" + str(n) + "/" + str(alternate) + str(once));
}

// ------------------------------------------------------------------ cycles of reset and clear
static void cyclesCase(Ctx &ctx, Rng &r, int max) {
    Mock<Plain> m;
    int n = drawSize(r, max);
    for (int k = 0; k < n; k++) {
        int x = r.below(1000), calls = r.below(4);
        if (r.chance(50)) When(Method(m, f)).AlwaysReturn(x); else When(Method(m, f)).Return(times(calls + 1)(x));
        int bad = 0;
        for (int c = 0; c < calls; c++) if (m.get().f(c) != x) bad++;
        bool ok = Verify(Method(m, f)).Exactly(calls);
        expect(ctx, ok && !bad, "cycles", "in cycle " + str(k) + " of " + str(n) + " the new stubbing does not behave as given");
        if (r.chance(60)) {
            m.Reset();
            bool unexpected = false;
            try { m.get().f(0); } catch (UnexpectedMethodCallException &) { unexpected = true; }
            expect(ctx, unexpected, "cycles-reset", "a method answers after Reset number " + str(k));
        } else m.ClearInvocationHistory();
    }
    ctx.obs.situation("cycles/" + str(n));
}

// ------------------------------------------------------------------ handlers
struct Numbered : EventHandler {
    int id;
    std::vector<int> *log;
    void handle(const UnexpectedMethodCallEvent &) override { log->push_back(id); }
    void handle(const SequenceVerificationEvent &) override { log->push_back(id); }
    void handle(const NoMoreInvocationsVerificationEvent &) override { log->push_back(id); }
};

static void handlersCase(Ctx &ctx, Rng &r, int max) {
    Mock<Plain> m;
    When(Method(m, f).Using(1)).AlwaysReturn(1);
    m.get().f(1);
    std::vector<int> log, want;
    std::deque<Numbered> hs;
    int n = drawSize(r, max);
    auto &fk = Fakeit;
    bool cleared = false;
    for (int k = 0; k < n; k++) {
        hs.emplace_back();
        hs.back().id = k;
        hs.back().log = &log;
        fk.addEventHandler(hs.back());
        want.push_back(k);
        if (r.chance(200 / n)) {
            log.clear();
            int what = r.below(3), raised = 0;
            try { if (what == 0) Verify(Method(m, f)).Exactly(2); else if (what == 1) VerifyNoOtherInvocations(m); else m.get().f(2); }
            catch (VerificationException &) { raised = 1; } catch (UnexpectedMethodCallException &) { raised = 1; }
            expect(ctx, raised == 1 && log == want, "many-handlers", "with " + str(want.size()) + " handlers a failure of kind " + str(what) + " reached " + joinInts(log).substr(0, 200));
        }
        if (r.chance(2)) { fk.clearEventHandlers(); want.clear(); cleared = true; }
    }
    log.clear();
    reportText([&]() { Verify(Method(m, f)).Exactly(2); });
    expect(ctx, log == want, "many-handlers", "with " + str(want.size()) + " handlers a failure reached " + str(log.size()));
    fk.clearEventHandlers();
    ctx.obs.situation("handlers/" + str(n) + "/" + str(cleared));
}

// ------------------------------------------------------------------ long texts
static void textCase(Ctx &ctx, Rng &r, int max) {
    Mock<Plain> m;
    int n = drawSize(r, max);
    std::string text;
    for (int k = 0; k < n; k++) text += (char) ('a' + r.below(26));
    When(Method(m, s)).AlwaysDo([](const std::string &x) { return x + x; });
    std::string got = m.get().s(text);
    expect(ctx, got == text + text, "long-text", "a text of " + str(n) + " characters is not returned as stubbed");
    std::string other = text;
    other[r.below(n)] = '!';
    bool a = Verify(Method(m, s).Using(text)).Exactly(1), b = Verify(Method(m, s).Using(other)).Never();
    expect(ctx, a && b, "long-text-match", "texts of " + str(n) + " characters are not told apart");
    std::string rep = reportText([&]() { Verify(Method(m, s).Using(other)).Exactly(1); });
    expect(ctx, rep.find("m.s(" + other + ")\n") != std::string::npos && rep.find("  m.s(" + text + ")") != std::string::npos, "long-text-report", "a text of " + str(n) + " characters is not reported completely");
    ctx.obs.situation("text/" + str(n));
}

// ------------------------------------------------------------------ long lists given to one statement
struct Many {
    virtual ~Many() {}
    virtual int m0(int x) { return 1000 + x; }
    virtual int m1(int x) { return 2000 + x; }
    virtual int m2(int x) { return 3000 + x; }
    virtual int m3(int x) { return 4000 + x; }
    virtual int m4(int x) { return 5000 + x; }
    virtual int m5(int x) { return 6000 + x; }
    virtual int m6(int x) { return 7000 + x; }
    virtual int m7(int x) { return 8000 + x; }
    virtual int m8(int x) { return 9000 + x; }
    virtual int m9(int x) { return 10000 + x; }
};
static int callMany(Many &o, int k, int x) {
    switch (k) {
        case 0: return o.m0(x); case 1: return o.m1(x); case 2: return o.m2(x); case 3: return o.m3(x); case 4: return o.m4(x);
        case 5: return o.m5(x); case 6: return o.m6(x); case 7: return o.m7(x); case 8: return o.m8(x); default: return o.m9(x);
    }
}
static bool countMany(Mock<Many> &m, int k, int n) {
    switch (k) {
        case 0: return Verify(Method(m, m0)).Exactly(n); case 1: return Verify(Method(m, m1)).Exactly(n); case 2: return Verify(Method(m, m2)).Exactly(n);
        case 3: return Verify(Method(m, m3)).Exactly(n); case 4: return Verify(Method(m, m4)).Exactly(n); case 5: return Verify(Method(m, m5)).Exactly(n);
        case 6: return Verify(Method(m, m6)).Exactly(n); case 7: return Verify(Method(m, m7)).Exactly(n); default: return Verify(Method(m, m8)).Exactly(n);
    }
}
struct Give { int v; int operator()(int) const { return v; } };
#define NINE(M) Method(M, m0), Method(M, m1), Method(M, m2), Method(M, m3), Method(M, m4), Method(M, m5), Method(M, m6), Method(M, m7), Method(M, m8)

static void actionListCase(Ctx &ctx, Rng &r) {
    Mock<Many> m;
    int v[9];
    for (int i = 0; i < 9; i++) v[i] = (i + 1) * 1000 + r.below(900);
    int form = r.below(5);
    std::vector<int> want(v, v + 9);
    switch (form) {
        case 0: When(Method(m, m3)).Return(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]); break;
        case 1: When(Method(m, m3)).Throw(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]); break;
        case 2: When(Method(m, m3)).Do(Give{v[0]}, Give{v[1]}, Give{v[2]}, Give{v[3]}, Give{v[4]}, Give{v[5]}, Give{v[6]}, Give{v[7]}, Give{v[8]}); break;
        case 3: When(Method(m, m3)).Return(v[0], times(2)(v[1]), v[2], v[3], times(3)(v[4]), v[5], v[6], v[7], times(2)(v[8]));
            want = {v[0], v[1], v[1], v[2], v[3], v[4], v[4], v[4], v[5], v[6], v[7], v[8], v[8]}; break;
        default: When(Method(m, m3)).Throw(v[0], v[1], times(2)(v[2]), v[3], v[4]).Return(v[5], v[6]).Do(Give{v[7]}, Give{v[8]}, Give{v[0]}, times(2)(Give{v[1]}));
            want = {v[0], v[1], v[2], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[0], v[1], v[1]};
    }
    for (size_t i = 0; i < want.size(); i++) {
        int got = -1;
        bool thrown = false;
        try { got = m.get().m3((int) i); } catch (int e) { got = e; thrown = true; } catch (const UnexpectedMethodCallException &) { got = -2; }
        bool throws = form == 1 || (form == 4 && i < 6);
        expect(ctx, got == want[i] && thrown == throws, "action-list", "form " + str(form) + ": call " + str(i) + " gives " + str(got) + " instead of " + str(want[i]));
        ctx.obs.situation("actionlist/" + str(form) + "/" + str(i) + "/" + str(v[0] % 20));
    }
    bool ended = false;
    try { m.get().m3(1); } catch (const UnexpectedMethodCallException &) { ended = true; } catch (int) { }
    expect(ctx, ended, "action-list-end", "form " + str(form) + ": more actions than listed");
}

static void methodListCase(Ctx &ctx, Rng &r) {
    Many object;
    int form = r.below(3);
    Mock<Many> faked, spied(object);
    Mock<Many> &m = form == 0 ? faked : spied;
    if (form == 0) Fake(NINE(m)); else if (form == 1) Spy(NINE(m)); else SpyWithoutVerify(NINE(m));
    std::vector<int> n(10, 0);
    for (int c = r.range(10, 40); c > 0; c--) {
        int k = r.below(10), x = r.below(500), got = -1;
        try { got = callMany(m.get(), k, x); } catch (const UnexpectedMethodCallException &) { got = -2; }
        int want = form == 0 ? (k == 9 ? -2 : 0) : (k + 1) * 1000 + x;
        expect(ctx, got == want, "method-list", "form " + str(form) + ": method " + str(k) + " gives " + str(got) + " instead of " + str(want));
        n[k]++;
    }
    for (int k = 0; k < 9; k++) {
        expect(ctx, countMany(m, k, n[k]), "method-list-count", "form " + str(form) + ": method " + str(k) + " is not counted " + str(n[k]) + " times");
        ctx.obs.situation("methodlist/" + str(form) + "/" + str(k) + "/" + str(n[k]));
    }
    bool rest = VerifyNoOtherInvocations(m);
    expect(ctx, rest, "method-list-rest", "form " + str(form) + ": calls besides the ones made");
}

static void patternListCase(Ctx &ctx, Rng &r) {
    Mock<Many> m;
    Fake(NINE(m));
    std::vector<int> calls;
    bool chain = r.chance(40);
    for (int round = r.range(1, 4); round > 0; round--)
        for (int k = 0; k < 9; k++) {
            if (r.chance(chain ? 4 : 25)) calls.push_back(r.below(9));
            if (!r.chance(4)) calls.push_back(k);
        }
    for (size_t i = 0; i < calls.size(); i++) callMany(m.get(), calls[i], (int) i);
    std::vector<bool> covered(calls.size(), false);
    int count = 0;
    for (size_t at = 0; ; ) {
        std::vector<size_t> hit;
        if (chain) {
            for (size_t p = at; p + 9 <= calls.size() && hit.empty(); p++) {
                bool all = true;
                for (int k = 0; k < 9; k++) all = all && calls[p + k] == k;
                if (all) for (int k = 0; k < 9; k++) hit.push_back(p + k);
            }
        } else {
            size_t p = at;
            for (int k = 0; k < 9; k++) {
                while (p < calls.size() && calls[p] != k) p++;
                if (p == calls.size()) break;
                hit.push_back(p++);
            }
        }
        if (hit.size() < 9) break;
        count++;
        for (size_t i : hit) covered[i] = true;
        at = hit.back() + 1;
    }
    auto holds = [&](int n) -> bool {
        if (chain) return Verify(Method(m, m0) + Method(m, m1) + Method(m, m2) + Method(m, m3) + Method(m, m4) + Method(m, m5) + Method(m, m6) + Method(m, m7) + Method(m, m8)).Exactly(n);
        return Verify(NINE(m)).Exactly(n);
    };
    std::string w = (chain ? "nine terms joined" : "nine terms listed") + std::string(" over ") + joinInts(calls);
    expect(ctx, !holds(count + 1), "pattern-list", w + ": counted more than " + str(count));
    bool none = VerifyNoOtherInvocations(m);
    expect(ctx, none == calls.empty(), "pattern-list-failed-covers", w + ": a failed verification covers calls");
    expect(ctx, holds(count), "pattern-list", w + ": not counted " + str(count) + " times");
    size_t open = std::count(covered.begin(), covered.end(), false);
    none = VerifyNoOtherInvocations(m);
    expect(ctx, none == (open == 0), "pattern-list-rest", w + ": " + str((int) open) + " calls are not covered, but the check says otherwise");
    none = VerifyNoOtherInvocations(NINE(m));
    expect(ctx, none == (open == 0), "pattern-list-rest", w + ": " + str((int) open) + " calls are not covered, but the check of all methods says otherwise");
    ctx.obs.situation("patternlist/" + str(chain) + "/" + str((int) calls.size()) + "/" + str(count) + "/" + str((int) open));
}

static void sourceListCase(Ctx &ctx, Rng &r) {
    Mock<Many> a, b, c, d, e, f, g, h, i;
    Mock<Many> *all[] = {&a, &b, &c, &d, &e, &f, &g, &h, &i};
    for (Mock<Many> *m : all) { Mock<Many> &x = *m; Fake(Method(x, m0)); }
    std::vector<int> n(9, 0);
    int calls = r.range(5, 40);
    for (int k = 0; k < calls; k++) { int to = r.below(9); n[to]++; all[to]->get().m0(k); }
    int total = calls - n[8];
    // the sources are a to h; the ninth mock is left out
    for (int k = 0; k < 9; k++) {
        Mock<Many> &x = *all[k];
        bool right = Using(a, b, c, d, e, f, g, h).Verify(Method(x, m0)).Exactly(k < 8 ? n[k] : 0);
        expect(ctx, right, "source-list", "mock " + str(k) + ": not " + str(k < 8 ? n[k] : 0) + " calls in a list of eight sources");
        ctx.obs.situation("sourcelist/" + str(k) + "/" + str(n[k]));
    }
    bool none = VerifyNoOtherInvocations(a, b, c, d, e, f, g, h);
    expect(ctx, none, "source-list-rest", "calls of eight verified mocks are not covered");
    none = VerifyNoOtherInvocations(a, b, c, d, e, f, g, h, i);
    expect(ctx, none == (n[8] == 0), "source-list-rest", "the ninth mock has " + str(n[8]) + " calls that are not covered");
    int late = r.below(9), more = r.range(1, 3);
    for (int k = 0; k < more; k++) all[late]->get().m0(k);
    Mock<Many> &x = *all[late];
    int fresh = more + (late == 8 ? n[8] : 0);
    std::string rep = reportText([&]() { VerifyNoOtherInvocations(a, b, c, d, e, f, g, h, i); });
    int lines = 0;
    for (size_t p = rep.find("\n  "); p != std::string::npos; p = rep.find("\n  ", p + 1)) lines++;
    expect(ctx, lines == more + n[8], "source-list-report", "the report of nine sources lists " + str(lines) + " calls instead of " + str(more + n[8]));
    bool right = Using(Unverified(a, b, c, d, e, f, g, h, i)).Verify(Method(x, m0)).Exactly(fresh);
    expect(ctx, right, "source-list-unverified", "mock " + str(late) + ": not " + str(fresh) + " new calls in a list of nine sources");
    right = Using(a, b, c, d, e, f, g, h, i).Verify(Method(a, m0) + Method(b, m0) + Method(c, m0) + Method(d, m0) + Method(e, m0) + Method(f, m0) + Method(g, m0) + Method(h, m0) + Method(i, m0)).Any();
    expect(ctx, right && total >= 0, "source-list-any", "any number of calls is refused");
}

static void listsCase(Ctx &ctx, Rng &r) {
    switch (r.below(4)) {
        case 0: actionListCase(ctx, r); break;
        case 1: methodListCase(ctx, r); break;
        case 2: patternListCase(ctx, r); break;
        default: sourceListCase(ctx, r);
    }
}

// ------------------------------------------------------------------ main
static void oneCase(Ctx &ctx, Rng &r) {
    std::string kind = option("kind", "args");
    bool big = ctx.tier == "thorough";
    caseNumber = ctx.caseNo;
    ctx.trace("kind " + kind);
    if (kind == "args") { int k = r.below(10); if (k < 6) argsCase(ctx, r); else if (k < 8) outArgsCase(ctx, r); else mixedArgsCase(ctx, r); }
    else if (kind == "lists") listsCase(ctx, r);
    else if (kind == "stubbings") stubbingsCase(ctx, r, big ? 3000 : 600);
    else if (kind == "actions") actionsCase(ctx, r, big ? 6000 : 1200, big ? 300000 : 90000);
    else if (kind == "repeats") repeatsCase(ctx, r, big ? 600000 : 140000);
    else if (kind == "history") historyCase(ctx, r, big ? 200000 : 80000);
    else if (kind == "pattern") patternCase(ctx, r, big ? 3000 : 800);
    else if (kind == "counts") countsCase(ctx, r);
    else if (kind == "mocks") mocksCase(ctx, r, big ? 4000 : 1000);
    else if (kind == "depth") depthCase(ctx, r, big ? 1500 : 600);
    else if (kind == "cycles") cyclesCase(ctx, r, big ? 4000 : 800);
    else if (kind == "handlers") handlersCase(ctx, r, big ? 2000 : 400);
    else if (kind == "text") textCase(ctx, r, big ? 1 << 20 : 1 << 17);
    else { fprintf(stderr, "no such kind\n"); exit(3); }
}

int main(int argc, char **argv) { return shardMain(argc, argv, oneCase); }
