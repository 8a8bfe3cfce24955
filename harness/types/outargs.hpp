// Output arguments (P07): every argument of every call is compared with what it must hold afterwards.
#pragma once
#include "values.hpp"

namespace ty {

template<class T> struct IO {
    virtual int f3(T &, T *, T &) = 0;
    virtual void p3(T *, T &, T *) = 0;
    virtual int mix(int, T &, const T &, T *, T, T &&) = 0;
    virtual T res(T &, int) = 0;
    virtual T &rres(const T *, T &) = 0;
    virtual void ten(T &, T &, T *, T &, T &, T *, T &, T &, T &, T *) = 0;
    virtual int two(T *, std::string &) const = 0;
    virtual ~IO() {}
};

template<class T> struct Outs {
    Ctx &c;
    Rng &r;
    fakeit::Mock<IO<T>> m;
    IO<T> &i;
    std::string what;
    Outs(Ctx &cc, Rng &rr) : c(cc), r(rr), i(m.get()) {}
    T make(int k) { return V<T>::make(k); }
    int pick() { return r.below(V<T>::count); }
    void arg(int pos, const T &v, int k, bool set) {
        vh::expect(c, v == make(k), set ? "out-set" : "out-kept", what + ": argument " + str(pos) + (set ? " was not set" : " was changed"));
        c.obs.situation(what + " @" + str(pos) + (set ? "=" : "~") + str(k));
    }
    template<class F> void unexpected(F f) {
        if (sizeof(T) == 1) return;         // pointers to characters are reported as texts
        bool t = false;
        try { f(); } catch (const UnexpectedMethodCallException &) { t = true; }
        vh::expect(c, t, "out-exhausted", what + ": served more often than stubbed");
    }

    // values in variables that change as soon as the statement is over
    struct Vals {
        int k[4];
        std::vector<std::unique_ptr<T>> v;
        Vals(Outs &o) { for (int &x : k) { x = o.pick(); v.emplace_back(new T(o.make(x))); } }
        T &operator[](int n) { return *v[(size_t) n]; }
        void gone(Outs &o) { for (auto &p : v) { *p = o.make(o.pick()); p.reset(); } }
    };

    void three() {
        namespace ph = fakeit::placeholders;
        int form = r.below(9);
        what = std::string(V<T>::name()) + " f3 form " + str(form);
        Vals v(*this);
        int set[3] = {-1, -1, -1};          // index into v
        bool always = false;
        switch (form) {
            case 0: When(Method(m, f3)).ReturnAndSet(7, v[0], v[1], v[2]); set[0] = 0; set[1] = 1; set[2] = 2; break;
            case 1: When(Method(m, f3)).ReturnAndSet(7, make(v.k[0])); set[0] = 0; break;
            case 2: When(Method(m, f3)).AlwaysReturnAndSet(7, v[3], make(v.k[1])); set[0] = 3; set[1] = 1; always = true; break;
            case 3: When(Method(m, f3)).ReturnAndSet(7, ph::_2 <= v[0]); set[1] = 0; break;
            case 4: When(Method(m, f3)).ReturnAndSet(7, ph::_3 <= v[0], ph::_1 <= make(v.k[1])); set[2] = 0; set[0] = 1; break;
            case 5: When(Method(m, f3)).AlwaysReturnAndSet(7, ph::_3 <= v[0]); set[2] = 0; always = true; break;
            case 6: When(Method(m, f3)).AlwaysReturnAndSet(7, ph::_2 <= v[0], ph::_3 <= v[1], ph::_1 <= v[2]); set[1] = 0; set[2] = 1; set[0] = 2; always = true; break;
            case 7: When(Method(m, f3)).AlwaysReturnAndSet(7, ph::_1 <= v[1], ph::_2 <= make(v.k[2])); set[0] = 1; set[1] = 2; always = true; break;
            default: When(Method(m, f3)).ReturnAndSet(7, ph::_1 <= v[0], ph::_2 <= v[1], ph::_3 <= v[3]); set[0] = 0; set[1] = 1; set[2] = 3;
        }
        v.gone(*this);
        for (int n = always ? 3 : 1; n > 0; n--) {
            int b[3] = {pick(), pick(), pick()};
            T x = make(b[0]), y = make(b[1]), z = make(b[2]);
            int got = i.f3(x, &y, z);
            vh::expect(c, got == 7, "out-result", what);
            arg(1, x, set[0] < 0 ? b[0] : v.k[set[0]], set[0] >= 0);
            arg(2, y, set[1] < 0 ? b[1] : v.k[set[1]], set[1] >= 0);
            arg(3, z, set[2] < 0 ? b[2] : v.k[set[2]], set[2] >= 0);
        }
        if (!always) { T x = make(0), y = make(0), z = make(0); unexpected([&] { i.f3(x, &y, z); }); }
    }
    void procedure() {
        namespace ph = fakeit::placeholders;
        what = std::string(V<T>::name()) + " p3";
        Vals v(*this);
        // a chain: each step sets other arguments
        When(Method(m, p3)).ReturnAndSet(v[0], v[1]).ReturnAndSet(ph::_3 <= v[2]).ReturnAndSet(ph::_2 <= v[3], ph::_3 <= v[0]).AlwaysReturnAndSet(make(v.k[1]), v[2], v[3]);
        v.gone(*this);
        int set[5][3] = {{0, 1, -1}, {-1, -1, 2}, {-1, 3, 0}, {1, 2, 3}, {1, 2, 3}};
        for (int n = 0; n < 5; n++) {
            int b[3] = {pick(), pick(), pick()};
            T x = make(b[0]), y = make(b[1]), z = make(b[2]);
            i.p3(&x, y, &z);
            what = std::string(V<T>::name()) + " p3 step " + str(n);
            arg(1, x, set[n][0] < 0 ? b[0] : v.k[set[n][0]], set[n][0] >= 0);
            arg(2, y, set[n][1] < 0 ? b[1] : v.k[set[n][1]], set[n][1] >= 0);
            arg(3, z, set[n][2] < 0 ? b[2] : v.k[set[n][2]], set[n][2] >= 0);
        }
    }
    void mixed() {
        namespace ph = fakeit::placeholders;
        int form = r.below(4);
        what = std::string(V<T>::name()) + " mix form " + str(form);
        Vals v(*this);
        int s2 = -1, s4 = -1;
        switch (form) {
            case 0: When(Method(m, mix)).AlwaysReturnAndSet(9, ph::_2 <= v[0]); s2 = 0; break;
            case 1: When(Method(m, mix)).AlwaysReturnAndSet(9, ph::_4 <= v[0], ph::_2 <= v[1]); s4 = 0; s2 = 1; break;
            case 2: When(Method(m, mix)).AlwaysReturnAndSet(9, ph::_4 <= v[3]); s4 = 3; break;
            default: When(Method(m, mix)).AlwaysReturnAndSet(9, ph::_2 <= v[2], ph::_4 <= v[0]); s2 = 2; s4 = 0; break;
        }
        v.gone(*this);
        int b[5];
        for (int n = 0; n < 2; n++) {
            for (int &x : b) x = pick();
            int plain = r.below(1000);
            T a2 = make(b[0]), a4 = make(b[2]), a5 = make(b[3]), a6 = make(b[4]);
            const T a3 = make(b[1]);
            int got = i.mix(plain, a2, a3, &a4, a5, std::move(a6));
            vh::expect(c, got == 9, "out-result", what);
            arg(2, a2, s2 < 0 ? b[0] : v.k[s2], s2 >= 0);
            arg(3, a3, b[1], false);
            arg(4, a4, s4 < 0 ? b[2] : v.k[s4], s4 >= 0);
            arg(5, a5, b[3], false);
            arg(6, a6, b[4], false);
            // what was passed by value stays recorded
            int matches = 0;
            T w5 = make(b[3]);
            bool ok = Verify(Method(m, mix).Matching([&](int p, const T &, const T &, T *, const T &e, T &) { bool y = p == plain && e == w5; matches += y; return true; })).Exactly(1);
            vh::expect(c, ok && matches == 1, "out-record", what + ": the recorded by-value arguments differ");
            m.ClearInvocationHistory();
        }
    }
    void results() {
        namespace ph = fakeit::placeholders;
        what = std::string(V<T>::name()) + " result and argument";
        int kr = pick(), ka = pick(), kb = pick();
        T val = make(ka);
        bool pos = r.chance(50);
        if (pos) When(Method(m, res)).AlwaysReturnAndSet(make(kr), val);
        else When(Method(m, res)).AlwaysReturnAndSet(make(kr), ph::_1 <= val);
        T target = make(kb);
        When(Method(m, rres)).AlwaysReturnAndSet(target, ph::_2 <= val);
        val = make(kb);
        for (int n = 0; n < 3; n++) {
            T x = make(pick());
            T got = i.res(x, n);
            vh::expect(c, got == make(kr), "out-result", what + ": wrong result in call " + str(n));
            arg(1, x, ka, true);
            T y = make(pick());
            const T p = make(kb);
            T &ref = i.rres(&p, y);
            vh::expect(c, &ref == &target, "out-result", what + ": not the object stubbed");
            arg(1, p, kb, false);
            arg(2, y, ka, true);
        }
    }
    void tenArgs() {
        namespace ph = fakeit::placeholders;
        int form = r.below(3);
        what = std::string(V<T>::name()) + " ten form " + str(form);
        Vals v(*this);
        int set[10];
        for (int &x : set) x = -1;
        switch (form) {
            case 0: When(Method(m, ten)).AlwaysReturnAndSet(ph::_10 <= v[0], ph::_1 <= v[1], ph::_6 <= v[2]); set[9] = 0; set[0] = 1; set[5] = 2; break;
            case 1: When(Method(m, ten)).AlwaysReturnAndSet(ph::_9 <= v[0], ph::_3 <= v[1], ph::_4 <= v[2], ph::_8 <= v[3]); set[8] = 0; set[2] = 1; set[3] = 2; set[7] = 3; break;
            default: When(Method(m, ten)).AlwaysReturnAndSet(v[0], v[1], v[2], v[3], v[2], v[1], v[0]); for (int n = 0; n < 7; n++) set[n] = n < 4 ? n : 6 - n;
        }
        v.gone(*this);
        int b[10];
        std::deque<T> a;
        for (int &x : b) { x = pick(); a.push_back(make(x)); }
        i.ten(a[0], a[1], &a[2], a[3], a[4], &a[5], a[6], a[7], a[8], &a[9]);
        for (int n = 0; n < 10; n++) arg(n + 1, a[(size_t) n], set[n] < 0 ? b[n] : v.k[set[n]], set[n] >= 0);
    }
    void text() {
        namespace ph = fakeit::placeholders;
        what = std::string(V<T>::name()) + " and text";
        int k = pick(), form = r.below(3);
        std::string big = "a text that is certainly not stored within the string object itself";
        {
            T val = make(k);
            std::string s = big;
            if (form == 0) When(Method(m, two)).AlwaysReturnAndSet(1, val, s);
            else if (form == 1) When(Method(m, two)).AlwaysReturnAndSet(1, ph::_2 <= s, ph::_1 <= val);
            else When(Method(m, two)).AlwaysReturnAndSet(1, ph::_2 <= big, ph::_1 <= val);
            s = "gone";
            val = make(pick());
        }
        for (int n = 0; n < 3; n++) {
            T x = make(pick());
            std::string t = "old";
            i.two(&x, t);
            arg(1, x, k, true);
            vh::expect(c, t == big, "out-set", what + ": text is '" + t + "'");
        }
    }
    void run() {
        switch (r.below(9)) {
            case 0: case 1: case 2: three(); break;
            case 3: procedure(); break;
            case 4: case 5: mixed(); break;
            case 6: results(); break;
            case 7: tenArgs(); break;
            default: text();
        }
    }
};
template<class T> void outsCase(Ctx &c, Rng &r) { Outs<T>(c, r).run(); }

} // namespace ty
