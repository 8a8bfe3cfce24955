// Parameter lists that do not fit the sweep: move-only values, arrays, functions, abstract classes, twenty parameters.
#include "args.hpp"

namespace ty {

struct Abs { virtual int id() const = 0; virtual ~Abs() {} };
struct Conc : Abs { int n; explicit Conc(int x) : n(x) {} int id() const override { return n; } };
struct NoCopy { int n; explicit NoCopy(int x) : n(x) {} NoCopy(const NoCopy &) = delete; NoCopy &operator=(const NoCopy &) = delete; };
typedef std::unique_ptr<Tok> UTok;

struct IM {
    virtual int mo(UTok) = 0;
    virtual int mor(UTok &&) = 0;
    virtual int mol(UTok &) = 0;
    virtual int mocr(const UTok &) = 0;
    virtual int mo3(int, UTok, Tok, UTok &&, std::string) = 0;
    virtual int arr(int (&)[4], const char (&)[5]) = 0;
    virtual int fun(int (&)(int), FnPtr) = 0;
    virtual int abs(Abs &, const Abs &, Abs *) = 0;
    virtual int nc(NoCopy &, const NoCopy &, NoCopy &&) = 0;
    virtual int vol(volatile int *, const volatile int *) = 0;
    virtual int dbl(int **, Tok *&, const Tok *const &) = 0;
    virtual int wide(char, short, int, long, float, double, long double, Tok, const Tok &, Tok &, Big, TwoFloats, Mixed, Odd3, Small, bool, unsigned char, std::string, int *, Level) = 0;
    virtual int wide(long double, char, long double, char, Big, char, TwoLongs, float, float, float, float, float, float, float, float, float, int) const = 0;
    virtual ~IM() {}
};

struct RealM : IM {
    std::vector<std::string> log;
    UTok taken;
    int mo(UTok p) override { log.push_back("mo" + str(p ? p->get() : -1)); taken = std::move(p); return 1; }
    int mor(UTok &&p) override { log.push_back("mor" + str(p ? p->get() : -1)); taken = std::move(p); return 1; }
    int mol(UTok &p) override { log.push_back("mol" + str(p ? p->get() : -1)); taken = std::move(p); return 1; }
    int mocr(const UTok &p) override { log.push_back("mocr" + str(p ? p->get() : -1)); return 1; }
    int mo3(int i, UTok p, Tok t, UTok &&q, std::string s) override { log.push_back("mo3" + str(i) + "," + str(p->get()) + "," + str(t.get()) + "," + str(q->get()) + "," + s); taken = std::move(q); return 1; }
    int arr(int (&a)[4], const char (&b)[5]) override { log.push_back("arr" + str(a[0]) + str(a[3]) + b); a[1] = 77; return 1; }
    int fun(int (&f)(int), FnPtr g) override { log.push_back("fun" + str(f(3)) + str(g(4))); return 1; }
    int abs(Abs &a, const Abs &b, Abs *p) override { log.push_back("abs" + str(a.id()) + str(b.id()) + str(p->id())); return 1; }
    int nc(NoCopy &a, const NoCopy &b, NoCopy &&d) override { log.push_back("nc" + str(a.n) + str(b.n) + str(d.n)); a.n = 91; d.n = 92; return 1; }
    int vol(volatile int *a, const volatile int *b) override { log.push_back("vol" + str((int) *a) + str((int) *b)); *a = 93; return 1; }
    int dbl(int **a, Tok *&b, const Tok *const &) override { *a = intPool() + 5; b = nullptr; log.push_back("dbl"); return 1; }
    int wide(char, short, int, long, float, double, long double, Tok, const Tok &, Tok &, Big, TwoFloats, Mixed, Odd3, Small, bool, unsigned char, std::string, int *, Level) override { return 1; }
    int wide(long double, char, long double, char, Big, char, TwoLongs, float, float, float, float, float, float, float, float, float, int) const override { return 1; }
};

void moveOnly(Ctx &c, Rng &r) {
    RealM real;
    bool spy = r.chance(40);
    std::unique_ptr<fakeit::Mock<IM>> mock(spy ? new fakeit::Mock<IM>(real) : new fakeit::Mock<IM>());
    fakeit::Mock<IM> &m = *mock;
    IM &i = m.get();
    int kind = r.below(5), code = 100 + r.below(900);
    bool take = r.chance(60);
    UTok p(new Tok(code));
    const Tok *raw = p.get();
    UTok taken;
    int seen = -1;
    const void *where = nullptr;
    std::string what = std::string("move-only ") + str(kind) + (spy ? " spied" : take ? " taken" : " looked at");
    auto l = [&](UTok &a) { seen = a ? a->get() : -2; where = &a; if (take) taken = std::move(a); return 5; };
    auto lc = [&](const UTok &a) { seen = a ? a->get() : -2; where = &a; return 5; };
    if (spy) {
        SpyWithoutVerify(Method(m, mo));
        SpyWithoutVerify(Method(m, mor));
        Spy(Method(m, mol));
        Spy(Method(m, mocr));
        SpyWithoutVerify(Method(m, mo3));
        int got = 0;
        if (kind == 0) got = i.mo(std::move(p));
        if (kind == 1) got = i.mor(std::move(p));
        if (kind == 2) got = i.mol(p);
        if (kind == 3) got = i.mocr(p);
        std::string want = (kind == 0 ? "mo" : kind == 1 ? "mor" : kind == 2 ? "mol" : "mocr") + str(code);
        if (kind == 4) { UTok q(new Tok(code + 1)); got = i.mo3(7, std::move(p), Tok(8), std::move(q), "str"); want = "mo37," + str(code) + ",8," + str(code + 1) + ",str"; vh::expect(c, !q, "argument-move", what + ": not moved from"); }
        vh::expect(c, got == 1 && real.log.size() == 1 && real.log[0] == want, "argument-value", what + ": the real method saw " + (real.log.empty() ? "nothing" : real.log[0]) + " not " + want);
        if (kind < 3) vh::expect(c, real.taken.get() == raw && !p, "argument-move", what + ": the object was not handed over");
        if (kind == 3) vh::expect(c, p.get() == raw, "argument-move", what + ": the caller lost the object");
    } else {
        When(Method(m, mo)).AlwaysDo(l);
        When(Method(m, mor)).AlwaysDo(l);
        When(Method(m, mol)).AlwaysDo(l);
        When(Method(m, mocr)).AlwaysDo(lc);
        int t3 = 0, i3 = 0;
        std::string s3;
        const UTok *first = nullptr;
        int firstCode = 0;
        When(Method(m, mo3)).AlwaysDo([&](int x, UTok &a, Tok &t, UTok &b, std::string &s) { i3 = x; first = &a; firstCode = a->get(); t3 = t.get(); s3 = s; return l(b); });
        int got = 0;
        UTok q(new Tok(code));
        const Tok *rawq = q.get();
        if (kind == 0) got = i.mo(std::move(p));
        if (kind == 1) got = i.mor(std::move(p));
        if (kind == 2) got = i.mol(p);
        if (kind == 3) got = i.mocr(p);
        if (kind == 4) {
            got = i.mo3(7, std::move(p), Tok(8), std::move(q), "some text which is not short at all");
            vh::expect(c, i3 == 7 && t3 == 8 && firstCode == code && s3 == "some text which is not short at all", "argument-value", what + ": neighbours differ");
        }
        vh::expect(c, got == 5 && seen == code, "argument-value", what + ": stub saw " + str(seen));
        bool moves = take && kind != 3;
        const Tok *r2 = kind == 4 ? rawq : raw;
        UTok &src = kind == 4 ? q : p;
        if (moves) vh::expect(c, taken.get() == r2 && !src, "argument-move", what + ": the stub could not take the object");
        else if (kind != 0) vh::expect(c, src.get() == r2, "argument-move", what + ": the caller lost the object");
        if (kind != 0) vh::expect(c, where == (const void *) &src, "argument-identity", what + ": not the caller's object");
        else if (!moves) {
            bool same = false;
            bool ok = Verify(Method(m, mo).Matching([&](const UTok &a) { same = a.get() == raw; return true; })).Exactly(1);
            vh::expect(c, ok && same, "argument-record", what + ": the recorded argument is not the one passed");
        }
    }
    c.obs.situation(what);
}

void oddities(Ctx &c, Rng &r) {
    RealM real;
    bool spy = r.chance(50);
    std::unique_ptr<fakeit::Mock<IM>> mock(spy ? new fakeit::Mock<IM>(real) : new fakeit::Mock<IM>());
    fakeit::Mock<IM> &m = *mock;
    IM &i = m.get();
    std::string what = spy ? "spied " : "stubbed ";
    std::string seen;
    switch (r.below(6)) {
        case 0: {
            int a[4] = {r.below(9), 0, 0, r.below(9)};
            int (*pa)[4] = nullptr;
            const char t[5] = "four";
            if (spy) Spy(Method(m, arr));
            else When(Method(m, arr)).AlwaysDo([&](int (&x)[4], const char (&y)[5]) { pa = &x; seen = "arr" + str(x[0]) + str(x[3]) + y; x[1] = 77; return 1; });
            i.arr(a, t);
            if (spy) seen = real.log.empty() ? "" : real.log[0];
            vh::expect(c, seen == "arr" + str(a[0]) + str(a[3]) + "four" && a[1] == 77 && (spy || pa == &a), "argument-value", what + "array reference: " + seen);
            what += "arrays";
            break;
        }
        case 1: {
            if (spy) Spy(Method(m, fun));
            else When(Method(m, fun)).AlwaysDo([&](int (&f)(int), FnPtr g) { seen = "fun" + str(f(3)) + str(g(4)); return 1; });
            i.fun(someFunction<1>, &someFunction<2>);
            if (spy) seen = real.log.empty() ? "" : real.log[0];
            vh::expect(c, seen == "fun" + str(someFunction<1>(3)) + str(someFunction<2>(4)), "argument-value", what + "functions: " + seen);
            what += "functions";
            break;
        }
        case 2: {
            Conc a(r.below(9)), b(r.below(9)), d(r.below(9));
            const Abs *pa = nullptr, *pb = nullptr, *pd = nullptr;
            if (spy) Spy(Method(m, abs));
            else When(Method(m, abs)).AlwaysDo([&](Abs &x, const Abs &y, Abs *z) { pa = &x; pb = &y; pd = z; seen = "abs" + str(x.id()) + str(y.id()) + str(z->id()); return 1; });
            i.abs(a, b, &d);
            if (spy) seen = real.log.empty() ? "" : real.log[0];
            vh::expect(c, seen == "abs" + str(a.n) + str(b.n) + str(d.n) && (spy || (pa == &a && pb == &b && pd == &d)), "argument-value", what + "abstract: " + seen);
            what += "abstract classes";
            break;
        }
        case 3: {
            NoCopy a(r.below(9)), b(r.below(9)), d(r.below(9));
            std::string want = "nc" + str(a.n) + str(b.n) + str(d.n);
            if (spy) SpyWithoutVerify(Method(m, nc));
            else When(Method(m, nc)).AlwaysDo([&](NoCopy &x, const NoCopy &y, NoCopy &z) { seen = "nc" + str(x.n) + str(y.n) + str(z.n); x.n = 91; z.n = 92; return 1; });
            i.nc(a, b, std::move(d));
            if (spy) seen = real.log.empty() ? "" : real.log[0];
            vh::expect(c, seen == want && a.n == 91 && d.n == 92, "argument-value", what + "not copyable: " + seen);
            what += "not copyable";
            break;
        }
        case 4: {
            int n = 0;
            int *ip = nullptr;
            Tok t(5);
            Tok *tp = &t;
            const Tok *ct = &t;
            Tok **where = nullptr;
            if (spy) Spy(Method(m, dbl));
            else When(Method(m, dbl)).AlwaysDo([&](int **a, Tok *&b, const Tok *const &d) { *a = intPool() + 5; where = &b; b = nullptr; n = d == &t; return 1; });
            i.dbl(&ip, tp, ct);
            vh::expect(c, ip == intPool() + 5 && tp == nullptr && ct == &t && (spy || (n == 1 && where == &tp)), "argument-value", what + "pointers to pointers");
            what += "pointers to pointers";
            break;
        }
        default: {
            volatile int a = r.below(99), b = r.below(99);
            std::string want = "vol" + str((int) a) + str((int) b);
            if (spy) Spy(Method(m, vol));
            else When(Method(m, vol)).AlwaysDo([&](volatile int *x, const volatile int *y) { seen = "vol" + str((int) *x) + str((int) *y); *x = 93; return 1; });
            i.vol(&a, &b);
            if (spy) seen = real.log.empty() ? "" : real.log[0];
            vh::expect(c, seen == want && a == 93, "argument-value", what + "volatile: " + seen);
            what += "volatile";
        }
    }
    c.obs.situation(what);
}

void wide(Ctx &c, Rng &r) {
    fakeit::Mock<IM> m;
    IM &i = m.get();
    char ch = (char) r.below(127); short sh = (short) r.range(-32768, 32767); int in = (int) r.next(); long lo = (long) r.next();
    float fl = (float) r.below(1000) / 8; double db = (double) r.next(); long double ld = (long double) r.next() / 3;
    int kt = r.below(30), kr = r.below(30), kl = r.below(30), kb = r.below(30), kf = r.below(30), km = r.below(30), ko = r.below(30), ks = r.below(30);
    bool bo = r.chance(50); unsigned char uc = (unsigned char) r.below(256); std::string st = text(r.below(20)); int *ip = intPool() + r.below(30); Level le = V<Level>::make(r.below(3));
    const Tok cr(kr);
    Tok lr(kl);
    bool same = false;
    int calls = 0;
    auto cmp = [&](char a, short b, int d, long e, float f, double g, long double h, const Tok &t, const Tok &u, Tok &v, const Big &w, const TwoFloats &x, const Mixed &y, const Odd3 &z, const Small &s, bool bb, unsigned char cc, const std::string &ss, int *pp, Level ll) {
        calls++;
        same = a == ch && b == sh && d == in && e == lo && f == fl && g == db && h == ld && t.get() == kt && &u == &cr && &v == &lr && w == V<Big>::make(kb) && x == V<TwoFloats>::make(kf) &&
               y == V<Mixed>::make(km) && z == V<Odd3>::make(ko) && s == V<Small>::make(ks) && bb == bo && cc == uc && ss == st && pp == ip && ll == le;
        return 3;
    };
    When(OverloadedMethod(m, wide, int(char, short, int, long, float, double, long double, Tok, const Tok &, Tok &, Big, TwoFloats, Mixed, Odd3, Small, bool, unsigned char, std::string, int *, Level))).AlwaysDo(cmp);
    int got = i.wide(ch, sh, in, lo, fl, db, ld, Tok(kt), cr, lr, V<Big>::make(kb), V<TwoFloats>::make(kf), V<Mixed>::make(km), V<Odd3>::make(ko), V<Small>::make(ks), bo, uc, st, ip, le);
    vh::expect(c, got == 3 && same && calls == 1, "argument-value", "twenty parameters arrived wrongly");
    c.obs.situation("wide " + str(kt) + " " + str(kb) + " " + st + str(bo));

    TwoLongs tl = V<TwoLongs>::make(kf);
    Big big = V<Big>::make(kb);
    bool same2 = false;
    auto cmp2 = [&](long double a, char b, long double d, char e, const Big &f, char g, const TwoLongs &h, float f1, float f2, float f3, float f4, float f5, float f6, float f7, float f8, float f9, int z) {
        same2 = a == ld && b == ch && d == -ld && e == 'e' && f == big && g == 'g' && h == tl && f1 == fl && f2 == 2 && f3 == 3 && f4 == 4 && f5 == 5 && f6 == 6 && f7 == 7 && f8 == 8 && f9 == 9 && z == in;
        return 4;
    };
    When(ConstOverloadedMethod(m, wide, int(long double, char, long double, char, Big, char, TwoLongs, float, float, float, float, float, float, float, float, float, int))).AlwaysDo(cmp2);
    int got2 = const_cast<const IM &>(i).wide(ld, ch, -ld, 'e', big, 'g', tl, fl, 2, 3, 4, 5, 6, 7, 8, 9, in);
    vh::expect(c, got2 == 4 && same2, "argument-value", "seventeen parameters arrived wrongly");
    c.obs.situation("wide const " + str(kf) + " " + str(kb) + str(ch));
}

static Register r1("move-only 1", &moveOnly), r2("move-only 2", &moveOnly), r3("oddities", &oddities), r4("wide", &wide);

} // namespace ty
