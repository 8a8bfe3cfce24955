// Argument conditions (P04): every relation, in stubbing and in verification, for every type of the sweep, against the
// relation computed by the language itself. Expected values live in variables that are changed and destroyed as
// soon as the condition has been written.
#pragma once
#include "values.hpp"

namespace ty {

template<class T> struct IT {
    virtual int val(T) = 0;
    virtual int cref(const T &) = 0;
    virtual int two(T, const T &) = 0;
    virtual int five(T, const T &, T, const T &, T) = 0;
};

struct RPlain { static const char *name() { return "plain"; } template<class T> static T &make(T &t) { return t; } template<class A, class E> static bool holds(const A &a, const E &e) { return a == e; } };
#define VH_REL(R, F, OP) struct R { static const char *name() { return #F; } template<class T> static auto make(T &t) -> decltype(fakeit::F(t)) { return fakeit::F(t); } template<class A, class E> static bool holds(const A &a, const E &e) { return a OP e; } };
VH_REL(REq, Eq, ==) VH_REL(RNe, Ne, !=) VH_REL(RLt, Lt, <) VH_REL(RLe, Le, <=) VH_REL(RGt, Gt, >) VH_REL(RGe, Ge, >=)

// values that are not distinguishable by == or not equal to themselves
template<class T, bool = std::is_floating_point<T>::value> struct Edges { static std::vector<T> get() { return std::vector<T>(); } };
template<class T> struct Edges<T, true> {
    static std::vector<T> get() {
        T e[] = {std::numeric_limits<T>::quiet_NaN(), (T) -0.0, std::numeric_limits<T>::denorm_min(), -std::numeric_limits<T>::denorm_min()};
        return std::vector<T>(e, e + 4);
    }
};
template<class T> struct Pool {
    std::vector<T> v;
    Pool() { for (int i = 0; i < V<T>::count; i++) v.push_back(V<T>::make(i)); for (T &e : Edges<T>::get()) v.push_back(e); }
    int size() const { return (int) v.size(); }
    int pick(Rng &r) const { return r.below(size()); }
    T get(int i) const { return v[(size_t) i]; }
};
template<> struct Pool<bool> {
    int size() const { return 2; }
    int pick(Rng &r) const { return r.below(2); }
    bool get(int i) const { return i == 1; }
};

inline void judge(Ctx &c, const std::string &what, int got, int want) {
    c.obs.count(want ? "accepted" : "rejected");
    vh::expect(c, got == want, "condition", what + (want ? ": should be accepted" : ": should be rejected"));
}

// what a verification says about the number of matches: exactly want and nothing else
#define VH_COUNT_IS(C, WHAT, CTX, WANT) do { \
        int want_ = (WANT); \
        bool ok_ = Verify(CTX).Exactly(want_); \
        vh::expect(C, ok_, "condition-verify", WHAT + ": " + str(want_) + " matching calls were made"); \
        bool more_ = Verify(CTX).AtLeast(want_ + 1); \
        vh::expect(C, !more_, "condition-verify", WHAT + ": only " + str(want_) + " matching calls were made"); \
    } while (0)


template<class T, class R> void relation(Ctx &c, Rng &r) {
    Pool<T> p;
    int k = p.pick(r), other = p.pick(r);
    const T e = p.get(k);
    std::unique_ptr<T> var(new T(e));
    fakeit::Mock<IT<T>> m;
    IT<T> &i = m.get();
    bool val = r.chance(50);
    std::string what = std::string(V<T>::name()) + " " + R::name() + " value#" + str(k) + (val ? "" : " by reference");
    if (val) {
        When(Method(m, val)).AlwaysReturn(0);
        When(Method(m, val).Using(R::make(*var))).AlwaysReturn(1);
    } else {
        When(Method(m, cref)).AlwaysReturn(0);
        When(Method(m, cref).Using(R::make(*var))).AlwaysReturn(1);
    }
    *var = p.get(other);
    var.reset();
    std::vector<int> calls;
    for (int n = 0; n < p.size(); n++) calls.push_back(n);
    for (int n = r.below(4); n > 0; n--) calls.push_back(p.pick(r));
    std::deque<T> alive;            // a reference argument is recorded as such
    for (int n : calls) {
        alive.push_back(p.get(n));
        T &a = alive.back();
        int got = val ? i.val(a) : i.cref(a);
        judge(c, what + " with #" + str(n), got, R::holds(a, e));
    }
    c.obs.situation(what);
    // the same answer in verification, for this and another expected value
    int ks[2] = {k, other};
    for (int kk : ks) {
        T x = p.get(kk);
        int want = 0;
        for (int n : calls) want += R::holds(p.get(n), x);
        std::string w = what + " verified against #" + str(kk);
        if (val) VH_COUNT_IS(c, w, Method(m, val).Using(R::make(x)), want);
        else VH_COUNT_IS(c, w, Method(m, cref).Using(R::make(x)), want);
    }
}

template<class T, class R1, class R2> void pairOf(Ctx &c, Rng &r) {
    Pool<T> p;
    int k1 = p.pick(r), k2 = p.pick(r);
    std::unique_ptr<T> v1(new T(p.get(k1))), v2(new T(p.get(k2)));
    fakeit::Mock<IT<T>> m;
    IT<T> &i = m.get();
    When(Method(m, two)).AlwaysReturn(0);
    When(Method(m, two).Using(R1::make(*v1), R2::make(*v2))).AlwaysReturn(1);
    T e1 = *v1, e2 = *v2;
    *v1 = e2;
    *v2 = e1;
    v1.reset();
    v2.reset();
    std::string what = std::string(V<T>::name()) + " two(" + R1::name() + " #" + str(k1) + ", " + R2::name() + " #" + str(k2) + ")";
    for (int n = 0; n < 12; n++) {
        int a = n == 0 ? k1 : n == 1 ? k2 : p.pick(r), b = n == 0 ? k2 : n == 1 ? k1 : r.chance(30) ? k2 : p.pick(r);
        T x = p.get(a), y = p.get(b);
        judge(c, what + " with #" + str(a) + ",#" + str(b), i.two(x, y), R1::holds(x, e1) && R2::holds(y, e2));
        c.obs.situation(what + str(a == k1) + str(b == k2));
    }
}

// one position constrained at a time, and wildcards everywhere else
template<class T> void positions(Ctx &c, Rng &r) {


    Pool<T> p;
    int pos = r.below(6), k = p.pick(r);
    T e = p.get(k);
    fakeit::Mock<IT<T>> m;
    IT<T> &i = m.get();
    When(Method(m, five)).AlwaysReturn(0);
    switch (pos) {
        case 0: When(Method(m, five).Using(e, _, _, _, _)).AlwaysReturn(1); break;
        case 1: When(Method(m, five).Using(_, fakeit::Eq(e), Any(), _, _)).AlwaysReturn(1); break;
        case 2: When(Method(m, five).Using(_, Any(), e, _, _)).AlwaysReturn(1); break;
        case 3: When(Method(m, five).Using(Any(), _, _, e, _)).AlwaysReturn(1); break;
        case 4: When(Method(m, five).Using(_, _, _, Any(), fakeit::Eq(e))).AlwaysReturn(1); break;
        default: When(Method(m, five).Using(_, Any(), _, _, Any())).AlwaysReturn(1);
    }
    for (int n = 0; n < 10; n++) {
        int k5[5];
        for (int &x : k5) x = p.pick(r);
        if (n % 2 && pos < 5) k5[pos] = k;
        T a[5] = {p.get(k5[0]), p.get(k5[1]), p.get(k5[2]), p.get(k5[3]), p.get(k5[4])};
        std::string what = std::string(V<T>::name()) + " position " + str(pos) + " #" + str(k) + " with #" + str(k5[0]) + "," + str(k5[1]) + "," + str(k5[2]) + "," + str(k5[3]) + "," + str(k5[4]);
        judge(c, what, i.five(a[0], a[1], a[2], a[3], a[4]), pos == 5 || a[pos] == e);
        c.obs.situation(what);
    }
}

// values given in call notation
template<class T> void callForm(Ctx &c, Rng &r) {
    Pool<T> p;
    int k1 = p.pick(r), k2 = p.pick(r);
    std::unique_ptr<T> v1(new T(p.get(k1))), v2(new T(p.get(k2)));
    fakeit::Mock<IT<T>> m;
    IT<T> &i = m.get();
    When(Method(m, two)).AlwaysReturn(0);
    When(Method(m, two)(*v1, *v2)).AlwaysReturn(1);
    T e1 = *v1, e2 = *v2;
    *v1 = e2;
    *v2 = e1;
    v1.reset();
    v2.reset();
    std::string what = std::string(V<T>::name()) + " two(#" + str(k1) + ", #" + str(k2) + ")";
    for (int n = 0; n < 8; n++) {
        int a = n < 2 || r.chance(50) ? k1 : p.pick(r), b = n < 1 || r.chance(50) ? k2 : p.pick(r);
        T x = p.get(a), y = p.get(b);
        judge(c, what + " with #" + str(a) + ",#" + str(b), i.two(x, y), x == e1 && y == e2);
        c.obs.situation(what + " call form" + str(a) + str(b));
    }
}

template<class T> void predicate(Ctx &c, Rng &r) {
    Pool<T> p;
    int k = p.pick(r), k2 = p.pick(r);
    T e = p.get(k), e2 = p.get(k2);
    fakeit::Mock<IT<T>> m;
    IT<T> &i = m.get();
    When(Method(m, val)).AlwaysReturn(0);
    When(Method(m, val).Matching([e](const T &a) { return a == e; })).AlwaysReturn(1);
    When(Method(m, two)).AlwaysReturn(0);
    When(Method(m, two).Matching([e, e2](const T &a, const T &b) { return a == e && b == e2; })).AlwaysReturn(1);
    int matches = 0, calls = 0;
    for (int n = 0; n < p.size(); n++) {
        T a = p.get(n);
        judge(c, std::string(V<T>::name()) + " predicate #" + str(k) + " with #" + str(n), i.val(a), a == e);
        matches += a == e;
        calls++;
        T b = p.get(r.chance(50) ? k2 : p.pick(r));
        judge(c, std::string(V<T>::name()) + " predicate on two", i.two(a, b), a == e && b == e2);
        c.obs.situation(std::string(V<T>::name()) + " predicate " + str(k) + " " + str(n));
    }
    std::string w = std::string(V<T>::name()) + " predicate verified";
    VH_COUNT_IS(c, w, Method(m, val).Matching([&](const T &a) { return a == e; }), matches);
    VH_COUNT_IS(c, w, Method(m, val).Using(fakeit::_), calls);
    VH_COUNT_IS(c, w, Method(m, val).Using(fakeit::Any()), calls);
}

template<class T, bool ordered> struct Kinds;
template<class T> struct Kinds<T, true> {
    static void run(Ctx &c, Rng &r) {
        switch (r.below(13)) {
            case 0: relation<T, RNe>(c, r); break;
            case 1: relation<T, RLt>(c, r); break;
            case 2: relation<T, RLe>(c, r); break;
            case 3: relation<T, RGt>(c, r); break;
            case 4: relation<T, RGe>(c, r); break;
            case 5: relation<T, RPlain>(c, r); break;
            case 6: relation<T, REq>(c, r); break;
            case 7: pairOf<T, RPlain, RGt>(c, r); break;
            case 8: pairOf<T, RLe, RNe>(c, r); break;
            case 9: pairOf<T, RGe, RLt>(c, r); break;
            case 10: positions<T>(c, r); break;
            case 11: callForm<T>(c, r); break;
            default: predicate<T>(c, r);
        }
    }
};
template<class T> struct Kinds<T, false> {
    static void run(Ctx &c, Rng &r) {
        switch (r.below(6)) {
            case 0: relation<T, RPlain>(c, r); break;
            case 1: relation<T, REq>(c, r); break;
            case 2: pairOf<T, REq, RPlain>(c, r); break;
            case 3: positions<T>(c, r); break;
            case 4: callForm<T>(c, r); break;
            default: predicate<T>(c, r);
        }
    }
};
template<class T> void condCase(Ctx &c, Rng &r) { Kinds<T, V<T>::ordered>::run(c, r); }

} // namespace ty
