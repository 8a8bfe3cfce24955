// Result fidelity (P06): what callers receive for every way of stubbing a result.
#pragma once
#include "values.hpp"

namespace ty {

template<class T> struct IR {
    virtual T val(int) = 0;
    virtual const T cval() = 0;
    virtual T &ref() = 0;
    virtual const T &cref() const = 0;
    virtual T *ptr(int, int) = 0;
    virtual const T *cptr() = 0;
    virtual void nothing(T) = 0;
    virtual T outv(int &) = 0;
    virtual T &outr(int *) = 0;
    virtual ~IR() {}
};

template<class T> struct Boom { T t; int n; explicit Boom(T x, int k) : t(x), n(k) {} virtual ~Boom() {} virtual int kind() const { return 1; } };
template<class T> struct BiggerBoom : Boom<T> { std::string s; explicit BiggerBoom(T x, int k) : Boom<T>(x, k), s("a text that is long enough to be elsewhere " + str(k)) {} int kind() const override { return 2; } };

template<class T> bool identical(const T &a, const T &b) { return a == b; }
inline bool identical(const float &a, const float &b) { return !memcmp(&a, &b, sizeof a); }
inline bool identical(const double &a, const double &b) { return !memcmp(&a, &b, sizeof a); }

template<class T> struct Results {
    Ctx &c;
    Rng &r;
    fakeit::Mock<IR<T>> m;
    IR<T> &i;
    std::string what;
    Results(Ctx &cc, Rng &rr) : c(cc), r(rr), i(m.get()) {}
    T make(int k) { return V<T>::make(k); }
    int pick() { return r.below(V<T>::count); }
    void same(const T &got, int k) {
        vh::expect(c, identical(got, make(k)), "result-value", what + ": not value#" + str(k));
        c.obs.situation(what + " #" + str(k));
    }
    template<class F> void unexpected(F f) {
        bool thrown = false;
        try { f(); } catch (const UnexpectedMethodCallException &) { thrown = true; }
        vh::expect(c, thrown, "result-exhausted", what + ": served more often than stubbed");
    }

    void values() {
        int a = pick(), b = pick(), d = pick(), e = pick(), form = r.below(9);
        what = std::string(V<T>::name()) + " by value, form " + str(form);
        std::vector<int> want;
        bool always = false;
        {
            T va = make(a), vb = make(b), vd = make(d), ve = make(e);
            switch (form) {
                case 0: When(Method(m, val)).Return(va); want = {a}; break;
                case 1: When(Method(m, val)).Return(make(a)); want = {a}; break;
                case 2: When(Method(m, val)).Return(va, vb, make(d)); want = {a, b, d}; break;
                case 3: When(Method(m, val)).Return(va).Return(make(b)).Return(vd, ve); want = {a, b, d, e}; break;
                case 4: When(Method(m, val)).Return(2_Times(va), vb, 3_Times(vd)); want = {a, a, b, d, d, d}; break;
                case 5: When(Method(m, val)).AlwaysReturn(va); want = {a, a, a, a, a}; always = true; break;
                case 6: Method(m, val) = va; want = {a, a, a, a}; always = true; break;
                case 7: When(Method(m, val)).Return(vb).AlwaysReturn(make(a)); want = {b, a, a, a, a}; always = true; break;
                default: When(Method(m, val)).Return(Times<2>::of(va)).Do([vd](int) { return vd; }).Return(1_Time(vb)); want = {a, a, d, b};
            }
            va = vb = vd = ve = make(pick());      // the variables do not matter any more
        }
        for (int k : want) { T got = i.val(k); same(got, k); }
        if (!always) unexpected([&] { i.val(0); });
    }
    void constValues() {
        int a = pick(), b = pick(), form = r.below(4);
        what = std::string("const ") + V<T>::name() + " by value, form " + str(form);
        T va = make(a), vb = make(b);
        switch (form) {
            case 0: When(Method(m, cval)).Return(va).Return(vb); break;
            case 1: When(Method(m, cval)).Return(va, vb); break;
            case 2: When(Method(m, cval)).Do([va] { return va; }).AlwaysReturn(vb); break;
            default: When(Method(m, cval)).AlwaysDo([&] { return a == -1 ? make(b) : make(a); });
        }
        va = vb = make(pick());
        same(i.cval(), a);
        if (form == 3) a = -1;
        same(i.cval(), b);
    }
    void references() {
        int a = pick(), form = r.below(6);
        what = std::string(V<T>::name()) + " by reference, form " + str(form);
        T x = make(a), y = make(pick());
        const T cx = x, cy = y;
        switch (form) {
            case 0:
                When(Method(m, ref)).Return(x).Return(y).Return(x);
                vh::expect(c, &i.ref() == &x && &i.ref() == &y && &i.ref() == &x, "result-identity", what);
                unexpected([&] { i.ref(); });
                break;
            case 1:
                When(Method(m, ref)).AlwaysReturn(x);
                for (int n = 0; n < 4; n++) vh::expect(c, &i.ref() == &x, "result-identity", what);
                break;
            case 2:
                Method(m, ref) = x;
                for (int n = 0; n < 4; n++) vh::expect(c, &i.ref() == &x, "result-identity", what);
                break;
            case 3:
                When(Method(m, cref)).Return(cx).Return(x).Return(cy);
                vh::expect(c, &i.cref() == &cx && &i.cref() == &x && &i.cref() == &cy, "result-identity", what);
                unexpected([&] { i.cref(); });
                break;
            case 4:
                When(Method(m, cref)).AlwaysReturn(cx);
                for (int n = 0; n < 4; n++) vh::expect(c, &i.cref() == &cx, "result-identity", what);
                break;
            default:
                When(Method(m, ref)).AlwaysDo([&]() -> T & { return y; });
                vh::expect(c, &i.ref() == &y, "result-identity", what);
        }
        if (form < 3) {
            int k = pick();
            if (form == 0) When(Method(m, ref)).Return(x);
            i.ref() = make(k);         // writes through
            vh::expect(c, x == make(k), "result-identity", what + ": writing through the result");
        }
        c.obs.situation(what);
    }
    void pointers() {
        int form = r.below(5);
        what = std::string(V<T>::name()) + " by pointer, form " + str(form);
        T x = make(pick()), y = make(pick());
        T *null = nullptr;
        switch (form) {
            case 0:
                When(Method(m, ptr)).Return(&x, &y, null, &x);
                vh::expect(c, i.ptr(1, 2) == &x && i.ptr(1, 2) == &y && i.ptr(1, 2) == nullptr && i.ptr(1, 2) == &x, "result-identity", what);
                unexpected([&] { i.ptr(1, 2); });
                break;
            case 1:
                When(Method(m, ptr)).Return(2_Times(&x)).AlwaysReturn(&y);
                vh::expect(c, i.ptr(1, 2) == &x && i.ptr(1, 2) == &x && i.ptr(1, 2) == &y && i.ptr(1, 2) == &y, "result-identity", what);
                break;
            case 2:
                When(Method(m, cptr)).AlwaysReturn(&x);
                vh::expect(c, i.cptr() == &x && i.cptr() == &x, "result-identity", what);
                break;
            case 3:
                Method(m, cptr) = &y;
                vh::expect(c, i.cptr() == &y && i.cptr() == &y, "result-identity", what);
                break;
            default:
                When(Method(m, ptr)).Return(nullptr);
                vh::expect(c, i.ptr(3, 4) == nullptr, "result-identity", what);
        }
        c.obs.situation(what);
    }
    void defaults() {
        int form = r.below(4);
        what = std::string(V<T>::name()) + " default, form " + str(form);
        switch (form) {
            case 0:
                Fake(Method(m, val), Method(m, cval), Method(m, ref), Method(m, cref), Method(m, ptr), Method(m, cptr), Method(m, nothing));
                break;
            case 1:
                When(Method(m, val)).Return();
                When(Method(m, cval)).Return();
                When(Method(m, ref)).Return();
                When(Method(m, cref)).Return();
                When(Method(m, ptr)).Return();
                When(Method(m, cptr)).Return();
                When(Method(m, nothing)).Return();
                break;
            case 2:
                When(Method(m, val)).AlwaysReturn();
                When(Method(m, cval)).AlwaysReturn();
                When(Method(m, ref)).AlwaysReturn();
                When(Method(m, cref)).AlwaysReturn();
                When(Method(m, ptr)).AlwaysReturn();
                When(Method(m, cptr)).AlwaysReturn();
                When(Method(m, nothing)).AlwaysReturn();
                break;
            default:
                Fake(Method(m, val).Using(Gt(3)));
                Fake(Method(m, cval));
                Fake(Method(m, ref), Method(m, cref));
                Fake(Method(m, ptr).Using(1, _), Method(m, cptr));
                Fake(Method(m, nothing));
        }
        dirtyStack(r.below(255));
        T got = i.val(4);
        vh::expect(c, got == T(), "result-default", what + ": by value");
        dirtyStack(r.below(255));
        T got2 = i.cval();
        vh::expect(c, got2 == T(), "result-default", what + ": by const value");
        T &rr = i.ref();
        vh::expect(c, rr == T(), "result-default", what + ": by reference");
        const T &cr = i.cref();
        vh::expect(c, cr == T(), "result-default", what + ": by const reference");
        vh::expect(c, i.ptr(1, 1) == nullptr && i.cptr() == nullptr, "result-default", what + ": pointer");
        i.nothing(make(pick()));
        if (form == 1) { unexpected([&] { i.val(4); }); unexpected([&] { i.ref(); }); unexpected([&] { i.nothing(make(0)); }); }
        else {
            T again = i.val(5);
            vh::expect(c, again == T(), "result-default", what + ": again");
        }
        c.obs.situation(what);
    }
    // results given together with output arguments
    void withOutput() {
        int a = pick(), b = pick(), form = r.below(5);
        what = std::string(V<T>::name()) + " with output argument, form " + str(form);
        T x = make(a), y = make(b);
        std::vector<int> want;
        bool always = true;
        switch (form) {
            case 0: When(Method(m, outv)).ReturnAndSet(make(a), 3).ReturnAndSet(make(b), 3); want = {a, b}; always = false; break;
            case 1: When(Method(m, outv)).AlwaysReturnAndSet(make(a), 3); want = {a, a, a, a}; break;
            case 2: When(Method(m, outv)).ReturnAndSet(make(b), fakeit::placeholders::_1 <= 3).AlwaysReturnAndSet(std::move(x), fakeit::placeholders::_1 <= 3); want = {b, a, a, a}; break;
            case 3: When(Method(m, outr)).ReturnAndSet(x, 3).ReturnAndSet(y, 3); break;
            default: When(Method(m, outr)).AlwaysReturnAndSet(y, 3);
        }
        for (int k : want) { int out = 0; T got = i.outv(out); same(got, k); vh::expect(c, out == 3, "result-output", what + ": output argument"); }
        if (!always) { int out = 0; unexpected([&] { i.outv(out); }); }
        if (form == 3) {
            int out = 0;
            vh::expect(c, &i.outr(&out) == &x && &i.outr(&out) == &y && out == 3, "result-identity", what);
            unexpected([&] { i.outr(&out); });
        }
        if (form == 4) for (int n = 0; n < 3; n++) { int out = 0; vh::expect(c, &i.outr(&out) == &y && out == 3, "result-identity", what); }
        c.obs.situation(what + str(a));
    }
    static __attribute__((noinline)) void dirtyStack(int v) {
        volatile char b[2000];
        for (size_t n = 0; n < sizeof b; n++) b[n] = (char) v;
    }
    template<class E, class F> void throws(F call, int k, int n, int kind) {
        bool ok = false;
        try { call(); }
        catch (const E &e) { ok = typeid(e) == typeid(E) && e.t == make(k) && e.n == n && e.kind() == kind; }
        catch (...) {}
        vh::expect(c, ok, "result-exception", what + ": wrong exception");
    }
    void exceptions() {
        int k = pick(), k2 = pick(), form = r.below(6);
        what = std::string(V<T>::name()) + " thrown, form " + str(form);
        Boom<T> e(make(k), 7);
        BiggerBoom<T> b(make(k2), 8);
        switch (form) {
            case 0: When(Method(m, val)).Throw(e).Throw(b); break;
            case 1: When(Method(m, val)).Throw(e, b); break;
            case 2: When(Method(m, nothing)).Throw(e, b); break;
            case 3: When(Method(m, val)).Throw(2_Times(e), b); break;
            case 4: When(Method(m, ref)).Throw(e).AlwaysThrow(b); break;
            default: When(Method(m, val)).AlwaysThrow(make(k));
        }
        e.t = make(pick());
        e.n = 1;
        b.s = "";
        b.t = make(pick());
        b.n = 2;
        std::function<void()> call = [&] { if (form == 2) i.nothing(make(0)); else if (form == 4) i.ref(); else i.val(1); };
        if (form == 5) {
            for (int n = 0; n < 3; n++) {
                bool ok = false;
                try { call(); } catch (const T &t) { ok = identical(t, make(k)); } catch (...) {}
                vh::expect(c, ok, "result-exception", what);
            }
        } else {
            throws<Boom<T>>(call, k, 7, 1);
            if (form == 3) throws<Boom<T>>(call, k, 7, 1);
            throws<BiggerBoom<T>>(call, k2, 8, 2);
            if (form == 4) throws<BiggerBoom<T>>(call, k2, 8, 2);
            else unexpected(call);
        }
        c.obs.situation(what + str(k));
    }
    void run() {
        switch (r.below(9)) {
            case 0: case 1: case 2: values(); break;
            case 8: withOutput(); break;
            case 3: constValues(); break;
            case 4: references(); break;
            case 5: pointers(); break;
            case 6: defaults(); break;
            default: exceptions();
        }
    }
};
template<class T> void resultsCase(Ctx &c, Rng &r) { Results<T>(c, r).run(); }

} // namespace ty
