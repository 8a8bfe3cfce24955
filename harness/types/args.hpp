// Argument fidelity (P05): what stub code, predicates, spied implementations and the history see, compared with what
// the caller passed; caller variables are changed after every call.
#pragma once
#include "values.hpp"

namespace ty {

template<class T> struct IA {
    virtual int val(T) = 0;
    virtual int cref(const T &) = 0;
    virtual int ref(T &) = 0;
    virtual int rref(T &&) = 0;
    virtual int ptr(T *) = 0;
    virtual int cptr(const T *) = 0;
    virtual int mix(char, T, double, T &, const T &, T *, short, T, float) = 0;
    virtual int many(T, T, T, T, T, T, T, T, T, T) = 0;
    virtual void none(T) const = 0;
    virtual ~IA() {}
};

// what the code behind a call saw
template<class T> struct Seen {
    std::vector<T> values;
    std::vector<const void *> where;
    std::string odd;          // scalar neighbours
    void v(const T &t) { values.push_back(t); }
    void r(const T &t) { values.push_back(t); where.push_back(&t); }
    void clear() { values.clear(); where.clear(); odd.clear(); }
};
template<> struct Seen<bool> {
    std::deque<bool> values;
    std::vector<const void *> where;
    std::string odd;
    void v(const bool &t) { values.push_back(t); }
    void r(const bool &t) { values.push_back(t); where.push_back(&t); }
    void clear() { values.clear(); where.clear(); odd.clear(); }
};

template<class T> struct RA : IA<T> {
    Seen<T> *s;
    T mark;
    RA() : s(nullptr), mark() {}
    int val(T a) override { s->v(a); a = mark; return 1; }
    int cref(const T &a) override { s->r(a); return 2; }
    int ref(T &a) override { s->r(a); a = mark; return 3; }
    int rref(T &&a) override { s->r(a); T taken(std::move(a)); a = mark; return 4; }
    int ptr(T *a) override { s->r(*a); *a = mark; return 5; }
    int cptr(const T *a) override { s->r(*a); return 6; }
    int mix(char c, T a, double d, T &b, const T &e, T *p, short h, T z, float f) override {
        s->v(a); s->r(b); s->r(e); s->r(*p); s->v(z);
        s->odd = str((int) c) + " " + str(d) + " " + str(h) + " " + str(f);
        b = mark;
        *p = mark;
        return 7;
    }
    int many(T a, T b, T c, T d, T e, T f, T g, T h, T i, T j) override {
        s->v(a); s->v(b); s->v(c); s->v(d); s->v(e); s->v(f); s->v(g); s->v(h); s->v(i); s->v(j);
        return 8;
    }
    void none(T a) const override { s->v(a); }
};

enum How { BY_DO, BY_ALWAYSDO, BY_ASSIGN, BY_PREDICATE, BY_SPY, HOWS };
inline const char *howName(int h) { static const char *n[] = {"Do", "AlwaysDo", "assignment", "predicate", "spy"}; return n[h]; }

#define VH_INSTALL(HOW, MOCK, M, LAMBDA, PRED) VH_INSTALL_SPY(HOW, MOCK, M, LAMBDA, PRED, Spy)
#define VH_INSTALL_SPY(HOW, MOCK, M, LAMBDA, PRED, SPY) \
    switch (HOW) { \
        case BY_DO: When(Method(MOCK, M)).Do(LAMBDA).Do(LAMBDA).Do(LAMBDA); break; \
        case BY_ALWAYSDO: When(Method(MOCK, M)).AlwaysDo(LAMBDA); break; \
        case BY_ASSIGN: Method(MOCK, M) = LAMBDA; break; \
        case BY_PREDICATE: When(Method(MOCK, M).Matching(PRED)).AlwaysReturn(0); break; \
        default: SPY(Method(MOCK, M)); }

template<class T> struct Args {
    Ctx &c;
    Rng &r;
    RA<T> real;
    Seen<T> s;
    int how;
    std::string what;
    std::unique_ptr<fakeit::Mock<IA<T>>> m;
    T mark;

    Args(Ctx &cc, Rng &rr) : c(cc), r(rr), how(rr.below(HOWS)), mark(V<T>::make(V<T>::count - 1)) {
        real.s = &s;
        real.mark = mark;
        m.reset(how == BY_SPY ? new fakeit::Mock<IA<T>>(real) : new fakeit::Mock<IA<T>>());
    }
    T make(int k) { return V<T>::make(k); }
    int pick() { return r.below(V<T>::count); }

    void sawValue(size_t n, int k) {
        vh::expect(c, n < s.values.size() && s.values[n] == make(k), "argument-value", what + ": argument " + str(n) + " did not arrive as value#" + str(k));
    }
    void sawObject(size_t n, const void *p) {
        vh::expect(c, n < s.where.size() && s.where[n] == p, "argument-identity", what + ": not the caller's object");
    }
    // whether the stub code of this run writes to what it was given
    bool writes() const { return how != BY_PREDICATE; }
    void callerSees(const T &var, int before) {
        vh::expect(c, var == (writes() ? mark : make(before)), "argument-write", what + (writes() ? ": the caller does not see what the stub wrote" : ": the caller's variable changed"));
    }

    void run() {
        int kind = r.below(9);
        static const char *names[] = {"value", "const reference", "reference", "rvalue reference", "pointer", "pointer to const", "mixed", "ten values", "void method"};
        what = std::string(V<T>::name()) + " by " + names[kind] + " seen by " + howName(how);
        c.trace(what);
        T &mk = mark;
        Seen<T> &sn = s;
        IA<T> &i = m->get();
        fakeit::Mock<IA<T>> &mock = *m;
        std::vector<int> ks;
        int calls = 1 + r.below(3);
        switch (kind) {
            case 0: {
                auto l = [&sn](const T &a) { sn.v(a); return 0; };
                auto p = [&sn](const T &a) { sn.v(a); return true; };
                if (r.chance(50)) {
                    auto l2 = [&sn, &mk](T a) { sn.v(a); a = mk; return 0; };      // its own copy
                    VH_INSTALL(how, mock, val, l2, p)
                } else VH_INSTALL(how, mock, val, l, p)
                for (int n = 0; n < calls; n++) {
                    int k = pick();
                    ks.push_back(k);
                    s.clear();
                    T var = make(k);
                    i.val(var);
                    sawValue(0, k);
                    vh::expect(c, var == make(k), "argument-write", what + ": the caller's variable changed");
                    var = make(pick());
                    c.obs.situation(what + " #" + str(k));
                }
                std::vector<T> want;
                recorded(ks, [&](const std::function<bool(const T &)> &f) { return bool(Verify(Method(mock, val).Matching([f](const T &a) { return f(a); })).Exactly(calls)); });
                break;
            }
            case 1: {
                auto l = [&sn](const T &a) { sn.r(a); return 0; };
                auto p = [&sn](const T &a) { sn.r(a); return true; };
                VH_INSTALL(how, mock, cref, l, p)
                for (int n = 0; n < calls; n++) {
                    int k = pick();
                    s.clear();
                    const T var = make(k);
                    i.cref(var);
                    sawValue(0, k);
                    sawObject(0, &var);
                    c.obs.situation(what + " #" + str(k));
                }
                break;
            }
            case 2: {
                auto l = [&sn, &mk](T &a) { sn.r(a); a = mk; return 0; };
                auto p = [&sn](T &a) { sn.r(a); return true; };
                VH_INSTALL(how, mock, ref, l, p)
                for (int n = 0; n < calls; n++) {
                    int k = pick();
                    s.clear();
                    T var = make(k);
                    i.ref(var);
                    sawValue(0, k);
                    sawObject(0, &var);
                    callerSees(var, k);
                    c.obs.situation(what + " #" + str(k));
                }
                break;
            }
            case 3: {
                auto l = [&sn, &mk](T &a) { sn.r(a); T taken(std::move(a)); a = mk; return 0; };
                auto p = [&sn](T &a) { sn.r(a); return true; };
                VH_INSTALL_SPY(how, mock, rref, l, p, SpyWithoutVerify)     // the form for what cannot be copied
                for (int n = 0; n < calls; n++) {
                    int k = pick();
                    s.clear();
                    T var = make(k);
                    i.rref(std::move(var));
                    sawValue(0, k);
                    sawObject(0, &var);
                    callerSees(var, k);
                    c.obs.situation(what + " #" + str(k));
                }
                break;
            }
            case 4: {
                auto l = [&sn, &mk](T *a) { sn.r(*a); *a = mk; return 0; };
                auto p = [&sn](T *a) { sn.r(*a); return true; };
                VH_INSTALL(how, mock, ptr, l, p)
                for (int n = 0; n < calls; n++) {
                    int k = pick();
                    s.clear();
                    T var = make(k);
                    i.ptr(&var);
                    sawValue(0, k);
                    sawObject(0, &var);
                    callerSees(var, k);
                    c.obs.situation(what + " #" + str(k));
                }
                break;
            }
            case 5: {
                auto l = [&sn](const T *a) { sn.r(*a); return 0; };
                auto p = [&sn](const T *a) { sn.r(*a); return true; };
                VH_INSTALL(how, mock, cptr, l, p)
                for (int n = 0; n < calls; n++) {
                    int k = pick();
                    s.clear();
                    T var = make(k);
                    i.cptr(&var);
                    sawValue(0, k);
                    sawObject(0, &var);
                    vh::expect(c, var == make(k), "argument-write", what + ": the caller's variable changed");
                    c.obs.situation(what + " #" + str(k));
                }
                break;
            }
            case 6: {
                auto see = [&sn](char ch, const T &a, double d, T &b, const T &e, T *p, short h, const T &z, float f) {
                    sn.v(a); sn.r(b); sn.r(e); sn.r(*p); sn.v(z);
                    sn.odd = str((int) ch) + " " + str(d) + " " + str(h) + " " + str(f);
                };
                auto l = [see, &mk](char ch, const T &a, double d, T &b, const T &e, T *p, short h, T z, float f) { see(ch, a, d, b, e, p, h, z, f); b = mk; *p = mk; return 0; };
                auto p = [see](char ch, const T &a, double d, T &b, const T &e, T *p, short h, const T &z, float f) { see(ch, a, d, b, e, p, h, z, f); return true; };
                VH_INSTALL(how, mock, mix, l, p)
                int k[5];
                for (int &x : k) x = pick();
                char ch = (char) r.below(100);
                short h = (short) r.range(-30000, 30000);
                double d = r.range(-1000, 1000) / 4.;
                float f = (float) r.range(-1000, 1000) / 8.f;
                T b = make(k[1]), pv = make(k[3]);
                const T e = make(k[2]);
                s.clear();
                i.mix(ch, make(k[0]), d, b, e, &pv, h, make(k[4]), f);
                for (size_t n = 0; n < 5; n++) sawValue(n, k[n]);
                sawObject(0, &b);
                sawObject(1, &e);
                sawObject(2, &pv);
                callerSees(b, k[1]);
                callerSees(pv, k[3]);
                vh::expect(c, s.odd == str((int) ch) + " " + str(d) + " " + str(h) + " " + str(f), "argument-value", what + ": plain neighbours arrived as " + s.odd);
                for (int x : k) c.obs.situation(what + " #" + str(x));
                bool same = false;
                T wa = make(k[0]), wz = make(k[4]);
                bool ok = Verify(Method(mock, mix).Matching([&](char ch2, const T &a, double d2, T &, const T &, T *p2, short h2, const T &z, float f2) {
                    same = ch2 == ch && a == wa && d2 == d && p2 == &pv && h2 == h && z == wz && f2 == f;
                    return true;
                })).Exactly(1);
                vh::expect(c, ok && same, "argument-record", what + ": the recorded call differs");
                break;
            }
            case 7: {
                auto l = [&sn](const T &a, const T &b, const T &cc, const T &d, const T &e, const T &f, const T &g, const T &h, const T &x, const T &j) {
                    sn.v(a); sn.v(b); sn.v(cc); sn.v(d); sn.v(e); sn.v(f); sn.v(g); sn.v(h); sn.v(x); sn.v(j);
                    return 0;
                };
                auto p = [l](const T &a, const T &b, const T &cc, const T &d, const T &e, const T &f, const T &g, const T &h, const T &x, const T &j) { l(a, b, cc, d, e, f, g, h, x, j); return true; };
                VH_INSTALL(how, mock, many, l, p)
                int k[10];
                for (int &x : k) x = pick();
                s.clear();
                i.many(make(k[0]), make(k[1]), make(k[2]), make(k[3]), make(k[4]), make(k[5]), make(k[6]), make(k[7]), make(k[8]), make(k[9]));
                for (size_t n = 0; n < 10; n++) { sawValue(n, k[n]); c.obs.situation(what + " #" + str(k[n]) + "@" + str(n)); }
                s.clear();
                bool ok = Verify(Method(mock, many).Matching(p)).Exactly(1);
                vh::expect(c, ok, "argument-record", what + ": the call was not recorded once");
                for (size_t n = 0; n < 10; n++) sawValue(n, k[n]);
                break;
            }
            default: {
                if (how == BY_PREDICATE) how = BY_ALWAYSDO;
                auto l = [&sn](const T &a) { sn.v(a); };
                switch (how) {
                    case BY_DO: When(Method(mock, none)).Do(l).Do(l).Do(l); break;
                    case BY_ALWAYSDO: When(Method(mock, none)).AlwaysDo(l); break;
                    case BY_ASSIGN: Method(mock, none) = l; break;
                    default: Spy(Method(mock, none));
                }
                for (int n = 0; n < calls; n++) {
                    int k = pick();
                    ks.push_back(k);
                    s.clear();
                    i.none(make(k));
                    sawValue(0, k);
                    c.obs.situation(what + " #" + str(k));
                }
                recorded(ks, [&](const std::function<bool(const T &)> &f) { return bool(Verify(Method(mock, none).Matching([f](const T &a) { return f(a); })).Exactly(calls)); });
            }
        }
    }
    // the by-value arguments of all calls, in order, as the history has them
    template<class F> void recorded(const std::vector<int> &ks, F verify) {
        size_t n = 0;
        bool same = true;
        bool ok = verify([&](const T &a) { same = same && n < ks.size() && a == make(ks[n]); n++; return true; });
        vh::expect(c, ok && same && n == ks.size(), "argument-record", what + ": the history does not hold the arguments of the " + str(ks.size()) + " calls");
    }
};

template<class T> void argsCase(Ctx &c, Rng &r) { Args<T>(c, r).run(); }

} // namespace ty
