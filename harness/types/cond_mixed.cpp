// Conditions whose expected type differs from the argument type, C-string comparisons, approximate comparison,
// arrays, and conditions over many arguments.
#include "cond.hpp"
#include <cmath>

namespace ty {

struct Derived1 : Base { Derived1() : Base(7) {} };

struct IMixed {
    virtual int ll(long long) = 0;
    virtual int i(int) = 0;
    virtual int l(long) = 0;
    virtual int d(double) = 0;
    virtual int f(float) = 0;
    virtual int uc(unsigned char) = 0;
    virtual int b(bool) = 0;
    virtual int s(std::string) = 0;
    virtual int sr(const std::string &) = 0;
    virtual int cc(const char *) = 0;
    virtual int mc(char *) = 0;
    virtual int p(Base *) = 0;
    virtual int sp(SharedInt) = 0;
    virtual int ld(long double) = 0;
    virtual int six(int, const std::string &, double, const char *, Level, Tok) = 0;
    virtual int arr(const int (&)[3]) = 0;
    virtual int sh(short) = 0;
    virtual int sc(signed char) = 0;
};

struct Strs {
    std::vector<std::string> v;
    Strs() {
        const char *a[] = {"", "a", "ab", "abc", "abcd", "abd", "b", "B", "\xff\xfe", "a\x80", "abc ", "a long text that does not fit in a small buffer", "a long text that does not fit in a small buffes"};
        for (const char *s : a) v.push_back(s);
        for (int n : {70, 260, 1100}) for (const char *end : {"", "a", "b"}) v.push_back(std::string(n, 'x') + end);     // differ late
    }
};

// relations of C strings as strcmp defines them
#define VH_STR(R, F, OP) struct R { static const char *name() { return #F; } \
    static auto make(const std::string &t) -> decltype(F(t)) { return F(t); } \
    static bool holds(int cmp) { return cmp OP 0; } \
    static bool onNull() { return std::string(#OP) == "!="; } \
    template<class M> static void stub(M &ctx, int how, const std::string &e) { \
        char buf[1200]; strcpy(buf, e.c_str()); const char *p = buf; std::string copy = e; \
        switch (how) { \
            case 0: When(ctx.Using(F(copy))).AlwaysReturn(1); break; \
            case 1: When(ctx.Using(F(p))).AlwaysReturn(1); break; \
            case 2: When(ctx.Using(F(buf))).AlwaysReturn(1); break; \
            default: When(ctx.Using(F(std::string(e)))).AlwaysReturn(1); } \
        memset(buf, 'z', sizeof buf); copy = "zz"; } };
VH_STR(SEq, StrEq, ==) VH_STR(SNe, StrNe, !=) VH_STR(SLt, StrLt, <) VH_STR(SLe, StrLe, <=) VH_STR(SGt, StrGt, >) VH_STR(SGe, StrGe, >=)

template<class R> void cstrings(Ctx &c, Rng &r) {
    static Strs pool;
    fakeit::Mock<IMixed> m;
    IMixed &i = m.get();
    std::string e = r.pick(pool.v);
    int how = r.below(4);
    bool mutableArg = r.chance(40);
    if (mutableArg) { When(Method(m, mc)).AlwaysReturn(0); auto ctx = Method(m, mc); R::stub(ctx, how, e); }
    else { When(Method(m, cc)).AlwaysReturn(0); auto ctx = Method(m, cc); R::stub(ctx, how, e); }
    std::deque<std::string> alive;
    for (const std::string &s : pool.v) {
        alive.push_back(s);
        char *a = &alive.back()[0];
        int got = mutableArg ? i.mc(a) : i.cc(a);
        judge(c, std::string(R::name()) + "(\"" + e + "\") form " + str(how) + " with \"" + s + "\"", got, R::holds(strcmp(a, e.c_str())));
    }
    int nulls = r.below(3);     // a null pointer is no text: it differs from all and has no order
    for (int n = 0; n < nulls; n++) judge(c, std::string(R::name()) + "(\"" + e + "\") with a null pointer", mutableArg ? i.mc(nullptr) : i.cc(nullptr), R::onNull());
    for (int n = 0; n < 3; n++) {
        const std::string &x = r.pick(pool.v);
        int want = R::onNull() ? nulls : 0;
        for (const std::string &s : alive) want += R::holds(strcmp(s.c_str(), x.c_str()));
        std::string w = std::string(R::name()) + "(\"" + x + "\") verified";
        if (mutableArg) VH_COUNT_IS(c, w, Method(m, mc).Using(R::make(x)), want);
        else VH_COUNT_IS(c, w, Method(m, cc).Using(R::make(x)), want);
        c.obs.situation(w + str(want) + str(mutableArg) + str(how) + e);
    }
}

template<class E> void keep(const E &) {}

// one argument type, another expected type; METHOD names the method
#define VH_MIXED(FN, METHOD, A, E) \
    template<class R> void FN##_(Ctx &c, Rng &r, const std::vector<A> &as, const std::vector<E> &es) { \
        fakeit::Mock<IMixed> m; \
        IMixed &i = m.get(); \
        E e = es[(size_t) r.below((int) es.size())]; \
        std::unique_ptr<E> var(new E(e)); \
        When(Method(m, METHOD)).AlwaysReturn(0); \
        When(Method(m, METHOD).Using(R::make(*var))).AlwaysReturn(1); \
        *var = es[(size_t) r.below((int) es.size())]; \
        var.reset(); \
        int want = 0; \
        std::string what = std::string(#A) + " " + R::name() + " " + #E; \
        std::deque<A> alive(as.begin(), as.end()); \
        for (A &a : alive) { \
            bool w = R::holds(a, e); \
            want += w; \
            judge(c, what, i.METHOD(a), w); \
        } \
        c.obs.situation(what + str(want)); \
        VH_COUNT_IS(c, what, Method(m, METHOD).Using(R::make(e)), want); \
    } \
    void FN(Ctx &c, Rng &r, const std::vector<A> &as, const std::vector<E> &es) { \
        switch (r.below(6)) { \
            case 0: FN##_<REq>(c, r, as, es); break; \
            case 1: FN##_<RNe>(c, r, as, es); break; \
            case 2: FN##_<RLt>(c, r, as, es); break; \
            case 3: FN##_<RLe>(c, r, as, es); break; \
            case 4: FN##_<RGt>(c, r, as, es); break; \
            default: FN##_<RGe>(c, r, as, es); } \
    }
#pragma GCC diagnostic ignored "-Wsign-compare"
VH_MIXED(llInt, ll, long long, int)
VH_MIXED(iLl, i, int, long long)
VH_MIXED(dInt, d, double, int)
VH_MIXED(dFloat, d, double, float)
VH_MIXED(fDouble, f, float, double)
VH_MIXED(ldDouble, ld, long double, double)
VH_MIXED(ucInt, uc, unsigned char, int)
VH_MIXED(bInt, b, bool, int)
typedef const char *CStr;
VH_MIXED(sCstr, s, std::string, CStr)
VH_MIXED(srCstr, sr, std::string, CStr)
VH_MIXED(ccStr, cc, CStr, std::string)

void mixedCase(Ctx &c, Rng &r) {
    std::vector<int> ints = {0, 1, -1, 255, 256, 300, -256, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()};
    std::vector<long long> lls = {0, 1, -1, 255, 1ll << 32, (1ll << 32) + 1, -(1ll << 32), 0x7fffffffll, -0x80000000ll, 0xffffffffll, std::numeric_limits<long long>::max()};
    std::vector<double> ds = {0, -0.0, 1, -1, .5, 254.5, 255, 1e300, .1, (double) .1f, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), 2147483647., 2147483647.5};
    std::vector<float> fs = {0.f, 1.f, .1f, .5f, 16777216.f, std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN()};
    std::vector<long double> lds = {0.L, .1L, (long double) .1, 1.L, 1e300L};
    static Strs strs;
    std::vector<const char *> cs;
    for (const std::string &s : strs.v) cs.push_back(s.c_str());
    switch (r.below(18)) {
        case 0: llInt(c, r, lls, ints); break;
        case 1: iLl(c, r, ints, lls); break;
        case 2: dInt(c, r, ds, ints); break;
        case 3: dFloat(c, r, ds, fs); break;
        case 4: fDouble(c, r, fs, ds); break;
        case 5: ldDouble(c, r, lds, ds); break;
        case 6: { std::vector<unsigned char> u = {0, 1, 44, 127, 128, 255}; ucInt(c, r, u, ints); break; }
        case 7: { std::vector<bool> bs = {false, true}; bInt(c, r, bs, ints); break; }
        case 8: sCstr(c, r, strs.v, cs); break;
        case 9: srCstr(c, r, strs.v, cs); break;
        case 10: ccStr(c, r, cs, strs.v); break;
        case 11: cstrings<SEq>(c, r); break;
        case 12: cstrings<SNe>(c, r); break;
        case 13: cstrings<SLt>(c, r); break;
        case 14: cstrings<SLe>(c, r); break;
        case 15: cstrings<SGt>(c, r); break;
        case 16: cstrings<SGe>(c, r); break;
        default: {
            fakeit::Mock<IMixed> m;
            IMixed &i = m.get();
            Base b;
            Derived1 d;
            Derived1 *dp = &d;
            SharedInt sp = std::make_shared<int>(3);
            When(Method(m, p)).AlwaysReturn(0);
            When(Method(m, sp)).AlwaysReturn(0);
            if (r.chance(50)) {
                When(Method(m, p).Using(dp)).AlwaysReturn(1);
                When(Method(m, sp).Using(sp)).AlwaysReturn(1);
                dp = nullptr;
                judge(c, "Base* with Derived*", i.p(&d), 1);
                judge(c, "Base* with Base*", i.p(&b), 0);
                judge(c, "Base* with nullptr", i.p(nullptr), 0);
                judge(c, "shared_ptr equal", i.sp(sp), 1);
                judge(c, "shared_ptr other", i.sp(std::make_shared<int>(3)), 0);
            } else {
                When(Method(m, p).Using(nullptr)).AlwaysReturn(1);
                When(Method(m, sp).Using(nullptr)).AlwaysReturn(1);
                judge(c, "Base* nullptr with nullptr", i.p(nullptr), 1);
                judge(c, "Base* nullptr with an object", i.p(&b), 0);
                judge(c, "shared_ptr nullptr with null", i.sp(SharedInt()), 1);
                judge(c, "shared_ptr nullptr with object", i.sp(sp), 0);
            }
            c.obs.situation("pointers and nullptr");
        }
    }
}

void approxCase(Ctx &c, Rng &r) {
    fakeit::Mock<IMixed> m;
    IMixed &i = m.get();
    // exactly representable, so that the limit itself can be met
    double e = r.range(-8, 8) * .25, margin = r.below(9) * .125;
    double var = e, mv = margin;
    int which = r.below(3);
    std::string what = "ApproxEq(" + str(e) + "," + str(margin) + ") on " + str(which);
    if (which == 0) { When(Method(m, d)).AlwaysReturn(0); When(Method(m, d).Using(ApproxEq(var, mv))).AlwaysReturn(1); }
    else if (which == 1) { When(Method(m, f)).AlwaysReturn(0); When(Method(m, f).Using(ApproxEq(var, mv))).AlwaysReturn(1); }
    else { e = r.range(-5, 5); margin = r.below(4); var = e; mv = margin; When(Method(m, i)).AlwaysReturn(0); When(Method(m, i).Using(ApproxEq((int) var, (int) mv))).AlwaysReturn(1); }
    var = 1e9;
    mv = 1e9;
    int matches = 0;
    for (int n = 0; n < 14; n++) {
        double a = n == 0 ? e + margin : n == 1 ? e - margin : n == 2 ? e + margin + .0625 : n == 3 ? e - margin - .0625 : r.range(-40, 40) * .0625;
        if (n == 4) a = std::numeric_limits<double>::quiet_NaN();
        if (n == 5) a = std::numeric_limits<double>::infinity();
        if (n == 6) a = -std::numeric_limits<double>::infinity();
        if (which == 2) a = n == 0 ? e + margin : n == 1 ? e - margin : n == 2 ? e + margin + 1 : n == 3 ? e - margin - 1 : r.range(-12, 12);
        bool want = std::fabs(a - e) <= margin;
        int got = which == 0 ? i.d(a) : which == 1 ? i.f((float) a) : i.i((int) a);
        judge(c, what + " with " + str(a), got, want);
        matches += want;
    }
    c.obs.situation(what);
    if (which == 0) VH_COUNT_IS(c, what, Method(m, d).Using(ApproxEq(e, margin)), matches);
    if (which == 1) VH_COUNT_IS(c, what, Method(m, f).Using(ApproxEq((float) e, margin)), matches);
    if (which == 2) VH_COUNT_IS(c, what, Method(m, i).Using(ApproxEq((int) e, (int) margin)), matches);
}

// whole numbers of all magnitudes, judged in a wider type
#define VH_APPROX(METHOD, A, E, M) { \
        std::vector<A> as = {0, 1, (A) -1, 2, std::numeric_limits<A>::max(), std::numeric_limits<A>::min(), (A) (std::numeric_limits<A>::max() - 1), (A) (std::numeric_limits<A>::min() + 1), (A) (std::numeric_limits<A>::max() / 2)}; \
        std::vector<E> es = {0, 1, -1, std::numeric_limits<E>::max(), std::numeric_limits<E>::min(), (E) (std::numeric_limits<E>::max() - 2), (E) (std::numeric_limits<E>::min() / 2)}; \
        std::vector<M> ms = {0, 1, 2, std::numeric_limits<M>::max(), (M) (std::numeric_limits<M>::max() / 2)}; \
        E e = r.pick(es); M mg = r.pick(ms); \
        std::string what = std::string("ApproxEq(" #E " ") + str((long long) e) + ", " #M " " + str((double) mg) + ") on " #A; \
        When(Method(m, METHOD)).AlwaysReturn(0); \
        When(Method(m, METHOD).Using(ApproxEq(e, mg))).AlwaysReturn(1); \
        int want = 0; \
        for (A a : as) { \
            __int128 d = (__int128) a - e; \
            if (d < 0) d = -d; \
            bool in = (long double) d <= (long double) mg; \
            want += in; \
            judge(c, what + " with " + str((long long) a), m.get().METHOD(a), in); \
        } \
        VH_COUNT_IS(c, what, Method(m, METHOD).Using(ApproxEq(e, mg)), want); \
        c.obs.situation(what); \
        break; }
void approxWholeCase(Ctx &c, Rng &r) {
    fakeit::Mock<IMixed> m;
    switch (r.below(10)) {
        case 0: VH_APPROX(i, int, int, int)
        case 1: VH_APPROX(i, int, long long, int)
        case 2: VH_APPROX(ll, long long, long long, long long)
        case 3: VH_APPROX(ll, long long, int, unsigned)
        case 4: VH_APPROX(sh, short, short, short)
        case 5: VH_APPROX(sc, signed char, int, double)
        case 6: VH_APPROX(uc, unsigned char, int, int)
        case 7: VH_APPROX(l, long, short, float)
        case 8: VH_APPROX(i, int, signed char, unsigned long long)
        default: VH_APPROX(i, int, int, double)
    }
}

void manyCase(Ctx &c, Rng &r) {
    static Strs strs;
    fakeit::Mock<IMixed> m;
    IMixed &i = m.get();
    int ei = r.below(3);
    std::string es = r.pick(strs.v), ec = r.pick(strs.v);
    double ed = r.below(3) * .5;
    Level el = V<Level>::make(r.below(3));
    int et = r.below(3);
    int form = r.below(7);
    When(Method(m, six)).AlwaysReturn(0);
    {
        // all expected values in variables that are gone afterwards
        int xi = ei;
        std::string xs = es, xc = ec;
        double xd = ed;
        Level xl = el;
        Tok xt(et);
        switch (form) {
            case 0: When(Method(m, six).Using(xi, xs, xd, StrEq(xc), xl, xt)).AlwaysReturn(1); break;
            case 1: When(Method(m, six).Using(_, xs, _, StrLe(xc), _, Ge(xt))).AlwaysReturn(1); break;
            case 2: When(Method(m, six).Using(Gt(xi), Any(), ApproxEq(xd, .5), _, Ne(xl), _)).AlwaysReturn(1); break;
            case 3: When(Method(m, six).Using(Le(xi), Ne(xs), Lt(xd), StrGe(xc), Any(), Lt(xt))).AlwaysReturn(1); break;
            case 4: When(Method(m, six).Using(_, _, _, StrNe(xc), Ge(xl), Eq(xt))).AlwaysReturn(1); break;
            case 5: When(Method(m, six).Using(Ne(xi), Gt(xs), Ge(xd), _, Lt(xl), Ne(xt))).AlwaysReturn(1); break;
            default: When(Method(m, six).Matching([=](int a, const std::string &b, double, const char *d, Level, Tok &f) { return a == xi && b != xs && xc == d && f != xt; })).AlwaysReturn(1);
        }
        xi = 99; xs = "x"; xc = "x"; xd = 99; xt.code = 99;
    }
    for (int n = 0; n < 16; n++) {
        int a = r.chance(60) ? ei : r.below(3);
        std::string b = r.chance(60) ? es : r.pick(strs.v), cs = r.chance(60) ? ec : r.pick(strs.v);
        double d = r.chance(60) ? ed : r.below(5) * .5;
        Level l = r.chance(60) ? el : V<Level>::make(r.below(3));
        int t = r.chance(60) ? et : r.below(3);
        int cmp = strcmp(cs.c_str(), ec.c_str());
        bool want = false;
        switch (form) {
            case 0: want = a == ei && b == es && d == ed && cmp == 0 && l == el && t == et; break;
            case 1: want = b == es && cmp <= 0 && t >= et; break;
            case 2: want = a > ei && std::fabs(d - ed) <= .5 && l != el; break;
            case 3: want = a <= ei && b != es && d < ed && cmp >= 0 && t < et; break;
            case 4: want = cmp != 0 && l >= el && t == et; break;
            case 5: want = a != ei && b > es && d >= ed && l < el && t != et; break;
            default: want = a == ei && b != es && cmp == 0 && t != et;
        }
        judge(c, "six arguments, form " + str(form), i.six(a, b, d, cs.c_str(), l, Tok(t)), want);
        c.obs.situation("six " + str(form) + " " + str(a == ei) + str(b == es) + str(cs == ec) + str(d == ed) + str(l == el) + str(t == et) + str(ei) + str(et));
    }
}

void arrayCase(Ctx &c, Rng &r) {
    // an array given as expected value is remembered by content
    static Strs strs;
    fakeit::Mock<IMixed> m;
    IMixed &i = m.get();
    char buf[1200];
    std::string e = r.pick(strs.v);
    strcpy(buf, e.c_str());
    When(Method(m, s)).AlwaysReturn(0);
    int form = r.below(3);
    if (form == 0) When(Method(m, s).Using(buf)).AlwaysReturn(1);
    else if (form == 1) When(Method(m, s).Using(Eq(buf))).AlwaysReturn(1);
    else When(Method(m, s).Using(Ne(buf))).AlwaysReturn(1);
    strcpy(buf, "overwritten");
    int matches = 0;
    for (const std::string &s : strs.v) {
        bool want = form == 2 ? s != e : s == e;
        matches += want;
        judge(c, "array \"" + e + "\" form " + str(form) + " with \"" + s + "\"", i.s(s), want);
    }
    strcpy(buf, e.c_str());
    std::string w = "array verified";
    if (form == 2) VH_COUNT_IS(c, w, Method(m, s).Using(Ne(buf)), matches);
    else VH_COUNT_IS(c, w, Method(m, s).Using(buf), matches);
    c.obs.situation("array " + e + str(form));
    judge(c, "array other text", i.s("overwritten"), form == 2);
}

static Register r1("mixed 1", &mixedCase), r2("mixed 2", &mixedCase), r3("mixed 3", &mixedCase), r4("approx", &approxCase), r7("approx whole", &approxWholeCase), r5("many", &manyCase), r6("array", &arrayCase);

} // namespace ty
