// Templates that bind one virtual method of one interface to the type-erased
// operations the world uses. Everything goes through the documented macros.
#pragma once

#include "world.hpp"

namespace w {

using namespace fakeit;

// -------------------------------------------------------------- encodings
template<class T> struct Enc;

template<class T> std::string showNum(T v) { std::ostringstream o; o << v; return o.str(); }

template<> struct Enc<int> {
    static const int cls = ORD;
    static int make(int c) { return c; }
    static int code(int v) { return v; }
    static std::string fmt(int c) { return showNum(c); }
    static int def() { return 0; }
};
template<> struct Enc<long> {
    static const int cls = ORD;
    static long make(int c) { return 3000000000L + c; }
    static int code(long v) { return v == 0 ? DEFCODE : (int) (v - 3000000000L); }
    static std::string fmt(int c) { return showNum(make(c)); }
    static int def() { return DEFCODE; }
};
template<> struct Enc<short> {
    static const int cls = ORD;
    static short make(int c) { return (short) (c - 3); }
    static int code(short v) { return v + 3; }
    static std::string fmt(int c) { return showNum(make(c)); }
    static int def() { return 3; }
};
template<> struct Enc<unsigned> {
    static const int cls = ORD;
    static unsigned make(int c) { return 4000000000u + (unsigned) c; }
    static int code(unsigned v) { return v == 0 ? DEFCODE : (int) (v - 4000000000u); }
    static std::string fmt(int c) { return showNum(make(c)); }
    static int def() { return DEFCODE; }
};
template<> struct Enc<double> {
    static const int cls = ORD;
    static double make(int c) { return c * 0.5 - 1; }
    static int code(double v) { return (int) ((v + 1) * 2); }
    static std::string fmt(int c) { return showNum(make(c)); }
    static int def() { return 2; }
};
template<> struct Enc<bool> {
    static const int cls = ORD;
    static bool make(int c) { return (c & 1) != 0; }
    static int code(bool v) { return v ? 1 : 0; }
    static std::string fmt(int c) { return make(c) ? "true" : "false"; }
    static int def() { return 0; }
};
template<> struct Enc<char> {
    static const int cls = ORD;
    static char make(int c) { return (char) ('a' + c % 26); }
    static int code(char v) { return v == 0 ? DEFCODE : v - 'a'; }
    static std::string fmt(int c) { return std::string("'") + make(c) + "'"; }
    static int def() { return DEFCODE; }
};
// strings: fixed width so that the lexical order is the order of the codes;
// long enough to need the heap for every second code
inline std::string encStr(int c) {
    char b[64];
    snprintf(b, sizeof b, "s%08d", c);
    std::string s(b);
    if (c % 2) s += "-a-string-that-needs-the-heap";
    return s;
}
inline int decStr(const std::string &s) { return s.empty() ? DEFCODE : s.size() < 9 || s[0] != 's' ? -99 : encStr(atoi(s.c_str() + 1)) == s ? atoi(s.c_str() + 1) : -98; }
template<> struct Enc<std::string> {
    static const int cls = ORD;
    static std::string make(int c) { return encStr(c); }
    static int code(const std::string &v) { return decStr(v); }
    static std::string fmt(int c) { return encStr(c); }
    static int def() { return DEFCODE; }
};
template<> struct Enc<Tok> {
    static const int cls = ORD;
    static Tok make(int c) { return Tok(c); }
    static int code(const Tok &v) { return v.get(); }
    static std::string fmt(int c) { return "T" + showNum(c); }
    static int def() { return 0; }
};
template<> struct Enc<NP> {
    static const int cls = ORD;
    static NP make(int c) { return NP(c); }
    static int code(const NP &v) { return v.sane() ? v.code : -97; }
    static std::string fmt(int) { return "?"; }
    static int def() { return 0; }
};
template<> struct Enc<std::vector<int>> {
    static const int cls = ORD;
    static std::vector<int> make(int c) { return std::vector<int>(3, c); }
    static int code(const std::vector<int> &v) { return v.size() == 3 && v[0] == v[2] ? v[0] : v.empty() ? DEFCODE : -96; }
    static std::string fmt(int) { return "?"; }
    static int def() { return DEFCODE; }
};
template<> struct Enc<Tok *> {
    static const int cls = PTR;
    static Tok *make(int c) { return &cur()->canon(c); }
    static int code(Tok *v) { return v ? v->get() : DEFCODE; }
    static std::string fmt(int) { return "\x01"; }
    static int def() { return DEFCODE; }
};
template<> struct Enc<const char *> {
    static const int cls = CSTR;
    static const char *make(int c) { return cur()->canonCstr(c); }
    static int code(const char *v) { return v ? decStr(v) : DEFCODE; }
    static std::string fmt(int c) { return "\"" + encStr(c) + "\""; }
    static int def() { return DEFCODE; }
};
template<> struct Enc<std::unique_ptr<Tok>> {
    static const int cls = MOV;
    static std::unique_ptr<Tok> make(int c) { return std::unique_ptr<Tok>(new Tok(c)); }
    static int code(const std::unique_ptr<Tok> &v) { return v ? v->get() : DEFCODE; }
    static std::string fmt(int) { return "\x01"; }
    static int def() { return DEFCODE; }
};

template<class A> struct Naked { typedef typename std::remove_cv<typename std::remove_reference<A>::type>::type type; };

// ------------------------------------------------------ passing arguments
template<class A> struct Pass { static A give(int c) { return Enc<A>::make(c); } };
template<class T> struct Pass<T &> {
    static T &give(int c) { return store(c, (typename Naked<T>::type *) nullptr); }
    static Tok &store(int c, Tok *) { return cur()->poolTok(c); }
    static std::string &store(int c, std::string *) { return cur()->poolStr(encStr(c)); }
};
template<class T> struct Pass<T &&> {
    static T &&give(int c) { return std::move(Pass<T &>::give(c)); }
};

// ------------------------------------------------------------ results
template<class R> struct Ret {
    static const int traits = TR_VALUE;
    typedef R type;
    static R make(int c) { return Enc<R>::make(c); }
    static int code(const R &r) { return Enc<R>::code(r); }
    static bool same(const R &, int) { return true; }
    static int def() { return Enc<R>::def(); }
    static int canon(int c) { return Enc<R>::code(Enc<R>::make(c)); }
    static const bool canDefault = true;
};
template<> struct Ret<void> {
    static const int traits = TR_VOID;
    static void make(int) {}
    static int def() { return 0; }
    static int canon(int) { return 0; }
    static const bool canDefault = true;
};
template<> struct Ret<Tok &> {
    static const int traits = TR_REF;
    typedef Tok &type;
    static Tok &make(int c) { return cur()->canon(c); }
    static int code(Tok &r) { return r.get(); }
    static bool same(Tok &r, int c) { return &r == &cur()->canon(c); }
    static int def() { return 0; }
    static int canon(int c) { return c; }
    static const bool canDefault = false;
};
template<> struct Ret<Tok *> {
    static const int traits = TR_VALUE;
    typedef Tok *type;
    static Tok *make(int c) { return &cur()->canon(c); }
    static int code(Tok *r) { return r ? r->get() : DEFCODE; }
    static bool same(Tok *r, int c) { return !r || r == &cur()->canon(c); }
    static int def() { return DEFCODE; }
    static int canon(int c) { return c; }
    static const bool canDefault = true;
};
template<> struct Ret<std::unique_ptr<Tok>> {
    static const int traits = TR_MOVEONLY;
    typedef std::unique_ptr<Tok> type;
    static std::unique_ptr<Tok> make(int c) { return Enc<type>::make(c); }
    static int code(const std::unique_ptr<Tok> &r) { return Enc<type>::code(r); }
    static bool same(const type &, int) { return true; }
    static int def() { return DEFCODE; }
    static int canon(int c) { return c; }
    static const bool canDefault = false;
};

// ------------------------------------------------------- stub functors
inline void collect(std::vector<int> &) {}
template<class H, class... T> void collect(std::vector<int> &into, const H &h, const T &... t) {
    into.push_back(Enc<H>::code(h));
    collect(into, t...);
}

template<class A> struct RefArg { typedef typename std::remove_reference<A>::type &type; };

template<class R, class... A> struct DoFn {
    int id;
    Tok captured;
    explicit DoFn(int i) : id(i), captured(i) {}
    R operator()(typename RefArg<A>::type... a) const {
        std::vector<int> codes;
        collect(codes, a...);
        int c = cur()->onDo(captured.get() == id ? id : -1, codes);
        return Ret<R>::make(c);
    }
};

template<class... A> struct PredFn {
    Cond cond;
    Tok captured;
    explicit PredFn(const Cond &c) : cond(c), captured(77) {}
    bool operator()(typename RefArg<A>::type... a) const {
        std::vector<int> codes;
        collect(codes, a...);
        return captured.get() == 77 && cond.pred(codes);
    }
};

// ------------------------------------------------- conditions as written
template<int...> struct IL {};
template<class...> struct TL {};
template<int... I> struct Idx {};
template<int N, int... I> struct MkIdx : MkIdx<N - 1, N - 1, I...> {};
template<int... I> struct MkIdx<0, I...> { typedef Idx<I...> type; };

template<int N> struct Combos;
template<> struct Combos<0> { typedef TL<IL<>> type; };
template<> struct Combos<1> {
    typedef TL<IL<M_WILD>, IL<M_ANYF>, IL<M_ANYT>, IL<M_VAL>, IL<M_EQ>, IL<M_NE>, IL<M_LT>, IL<M_LE>, IL<M_GT>, IL<M_GE>> type;
};
template<> struct Combos<2> {
    typedef TL<IL<M_VAL, M_VAL>, IL<M_EQ, M_WILD>, IL<M_WILD, M_NE>, IL<M_LT, M_GE>, IL<M_GT, M_VAL>, IL<M_ANYF, M_LE>,
            IL<M_NE, M_ANYT>, IL<M_VAL, M_GT>> type;
};
template<> struct Combos<4> {
    typedef TL<IL<M_VAL, M_VAL, M_VAL, M_VAL>, IL<M_EQ, M_WILD, M_WILD, M_WILD>, IL<M_LT, M_GE, M_ANYF, M_NE>,
            IL<M_WILD, M_VAL, M_EQ, M_WILD>, IL<M_GE, M_NE, M_ANYT, M_LE>> type;
};

constexpr int effM(int m, int cls) {
    return cls == ORD || cls == CSTR ? m
         : cls == MOV ? (m <= M_ANYT ? m : M_WILD)
         : (m <= M_NE ? m : M_WILD);
}

template<int m, int cls, class N> struct Mk;
template<int cls, class N> struct Mk<M_WILD, cls, N> { static const fakeit::AnyMatcher &mk(N &) { return _; } };
template<int cls, class N> struct Mk<M_ANYF, cls, N> { static auto mk(N &) -> decltype(Any()) { return Any(); } };
template<int cls, class N> struct Mk<M_ANYT, cls, N> { static auto mk(N &) -> decltype(Any<N>()) { return Any<N>(); } };
template<int cls, class N> struct Mk<M_VAL, cls, N> { static N &mk(N &v) { return v; } };
#define VH_MK(ENUM, FN) \
    template<int cls, class N> struct Mk<ENUM, cls, N> { static auto mk(N &v) -> decltype(FN(v)) { return FN(v); } };
VH_MK(M_EQ, Eq) VH_MK(M_NE, Ne) VH_MK(M_LT, Lt) VH_MK(M_LE, Le) VH_MK(M_GT, Gt) VH_MK(M_GE, Ge)
#define VH_MKS(ENUM, FN) \
    template<> struct Mk<ENUM, CSTR, const char *> { \
        typedef decltype(FN(std::declval<const std::string &>())) T; \
        static T mk(const char *&v) { return FN(cur()->poolStr(v)); } };
VH_MKS(M_EQ, StrEq) VH_MKS(M_NE, StrNe) VH_MKS(M_LT, StrLt) VH_MKS(M_LE, StrLe) VH_MKS(M_GT, StrGt) VH_MKS(M_GE, StrGe)

template<class N> void scramble(N &v) { v = Enc<N>::make(23); }   // the variable changes after the statement
inline void scramble(std::unique_ptr<Tok> &v) { v.reset(); }
inline void scrambleAll() {}
template<class H, class... T> void scrambleAll(H &h, T &... t) { scramble(h); scrambleAll(t...); }

template<class C, class... A> struct ApplyCond {
    typedef std::tuple<typename Naked<A>::type...> Vals;
    static const int n = (int) sizeof...(A);
    typedef typename MkIdx<n>::type Ix;

    template<int... Ms, int... I> static void usingOne(C &c, Vals &v, IL<Ms...>, Idx<I...>) {
        (void) v;
        c.Using(Mk<effM(Ms, Enc<typename Naked<A>::type>::cls), Enc<typename Naked<A>::type>::cls, typename Naked<A>::type>::mk(std::get<I>(v))...);
    }
    static void usingCombo(C &, Vals &, int, TL<>) {}
    template<class H, class... T> static void usingCombo(C &c, Vals &v, int k, TL<H, T...>) {
        if (k == 0) usingOne(c, v, H(), Ix());
        else usingCombo(c, v, k - 1, TL<T...>());
    }
    template<int... I> static Vals vals(const Cond &cond, Idx<I...>) {
        (void) cond;
        return Vals(Enc<typename Naked<A>::type>::make(cond.args[I].code)...);
    }
    template<int... I> static void callVals(C &c, Vals &v, Idx<I...>, std::true_type) { (void) v; c(std::get<I>(v)...); }
    template<int... I> static void callVals(C &c, Vals &v, Idx<I...> i, std::false_type) { usingOne(c, v, firstOf(typename Combos<n>::type()), i); }
    template<class H, class... T> static H firstOf(TL<H, T...>) { return H(); }
    template<int... I> static void scr(Vals &v, Idx<I...>) { (void) v; scrambleAll(std::get<I>(v)...); }

    static void apply(C &c, const Cond &cond) {
        if (cond.replaces) {
            if (cond.mul % 2 == 0 || cond.combo == 0) c.Matching(PredFn<A...>(Cond()));
            else c.Using(wild<A>()...);
        }
        switch (cond.kind) {
            case CK_USING: {
                Vals v = vals(cond, Ix());
                usingCombo(c, v, cond.combo, typename Combos<n>::type());
                scr(v, Ix());
                break;
            }
            case CK_CALLVALS: {
                Vals v = vals(cond, Ix());
                callVals(c, v, Ix(), std::integral_constant<bool, fakeit_copyable()>());
                scr(v, Ix());
                break;
            }
            case CK_MATCHING: c.Matching(PredFn<A...>(cond)); break;
            case CK_CALLPRED: c(PredFn<A...>(cond)); break;
            default: break;
        }
    }
    template<class X> static const fakeit::AnyMatcher &wild() { return _; }
    static constexpr bool fakeit_copyable() { return allCopy<A...>(); }
    template<class H> static constexpr bool allCopy() { return std::is_copy_constructible<typename Naked<H>::type>::value; }
    template<class H, class H2, class... T> static constexpr bool allCopy() { return allCopy<H>() && allCopy<H2, T...>(); }
};
// no arguments: only the unconditional form and predicates
template<class C> struct ApplyCond<C> {
    static void apply(C &c, const Cond &cond) {
        if (cond.replaces) c.Matching(PredFn<>(Cond()));
        switch (cond.kind) {
            case CK_MATCHING: c.Matching(PredFn<>(cond)); break;
            case CK_CALLPRED: c(PredFn<>(cond)); break;
            default: break;
        }
    }
};

// --------------------------------------------------------------- stubbing
inline decltype(fakeit::operator "" _Times(0ull)) times(long n) { return fakeit::operator "" _Times((unsigned long long) n); }

template<class P, class F> void throwOne(P &p, const Act &a, F) {
    bool forever = a.remaining < 0, many = a.remaining != 1;
    switch (a.etype) {
        case 0: { ExA e(a.code); if (forever) p.AlwaysThrow(e); else if (many) p.Throw(times(a.remaining)(e)); else p.Throw(e); e.code = -5; break; }
        case 1: { ExB e(a.code); if (forever) p.AlwaysThrow(e); else if (many) p.Throw(times(a.remaining)(e)); else p.Throw(e); break; }
        case 2: { int e = a.code; if (forever) p.AlwaysThrow(e); else if (many) p.Throw(times(a.remaining)(e)); else p.Throw(e); e = -5; break; }
        default: { std::string e = encStr(a.code); if (forever) p.AlwaysThrow(e); else if (many) p.Throw(times(a.remaining)(e)); else p.Throw(e); e.clear(); break; }
    }
}
template<class P, class F> void doOne(P &p, const Act &a, F) {
    F f(a.id);
    if (a.remaining < 0) p.AlwaysDo(f);
    else if (a.remaining != 1) p.Do(times(a.remaining)(f));
    else p.Do(f);
}

template<int TR, class R> struct ReturnOne;
template<class R> struct ReturnOne<TR_VALUE, R> {
    template<class P> static void ret(P &p, const Act &a) {
        R v = Ret<R>::make(a.code);
        if (a.remaining < 0) p.AlwaysReturn(v);
        else if (a.remaining != 1) p.Return(times(a.remaining)(v));
        else p.Return(v);
        v = Ret<R>::make(29);
    }
    template<class P> static void def(P &p, const Act &a) { if (a.remaining < 0) p.AlwaysReturn(); else p.Return(); }
    template<class P> static bool list(P &p, const std::vector<Act> &acts, size_t i) {
        // Return(a, b) and Return(a, n_Times(b), c)
        if (i + 2 < acts.size() && plain(acts[i]) && acts[i + 1].kind == A_RETURN && acts[i + 1].remaining >= 0 && plain(acts[i + 2])) {
            R x = Ret<R>::make(acts[i].code), y = Ret<R>::make(acts[i + 1].code), z = Ret<R>::make(acts[i + 2].code);
            if (acts[i + 1].remaining == 1) p.Return(x, y, z);
            else p.Return(x, times(acts[i + 1].remaining)(y), z);
            return true;
        }
        return false;
    }
    static bool plain(const Act &a) { return a.kind == A_RETURN && a.remaining == 1; }
    template<class C> static void assign(C &c, const Act &a) { R v = Ret<R>::make(a.code); c = v; }
};
template<class R> struct ReturnOne<TR_REF, R> {
    template<class P> static void ret(P &p, const Act &a) {
        R v = Ret<R>::make(a.code);
        if (a.remaining < 0) p.AlwaysReturn(v);
        else p.Return(v);
    }
    template<class P> static void def(P &, const Act &) {}
    template<class P> static bool list(P &, const std::vector<Act> &, size_t) { return false; }
    template<class C> static void assign(C &c, const Act &a) { R v = Ret<R>::make(a.code); c = v; }
};
template<class R> struct ReturnOne<TR_MOVEONLY, R> {
    template<class P> static void ret(P &p, const Act &a) { p.Return(Ret<R>::make(a.code)); }
    template<class P> static void def(P &, const Act &) {}
    template<class P> static bool list(P &, const std::vector<Act> &, size_t) { return false; }
    template<class C> static void assign(C &, const Act &) {}
};
template<class R> struct ReturnOne<TR_VOID, R> {
    template<class P> static void ret(P &p, const Act &a) {
        if (a.remaining < 0) p.AlwaysReturn();
        else if (a.remaining != 1) p.Return(times(a.remaining));
        else p.Return();
    }
    template<class P> static void def(P &p, const Act &a) { ret(p, a); }
    template<class P> static bool list(P &, const std::vector<Act> &, size_t) { return false; }
    template<class C> static void assign(C &, const Act &) {}
};

// exceptions and results of a call, as values
template<class R> struct CallRes {
    template<class F> static Res run(F f, int wantCode) {
        Res r;
        r.kind = RES_VALUE;
        R v = f();
        r.code = Ret<R>::code(v);
        r.sameObject = Ret<R>::same(v, wantCode);
        return r;
    }
};
template<> struct CallRes<void> {
    template<class F> static Res run(F f, int) { f(); Res r; r.kind = RES_VOID; return r; }
};
template<class R, class F> Res guarded(F f) {
    Res r;
    r.kind = RES_THROW;
    try {
        return CallRes<R>::run(f, cur()->frames.back()->result);
    } catch (const ExA &e) { r.etype = 0; r.code = e.t.get() == e.code ? e.code : -95; }
    catch (const ExB &e) { r.etype = 1; r.code = e.code; }
    catch (const fakeit::UnexpectedMethodCallException &e) { r.kind = RES_UNEXPECTED; r.text = e.what(); }
    catch (const VerificationException &e) { r.etype = 9; r.text = e.what(); }
    catch (const vh::CaseFailed &) { throw; }
    catch (const vh::CopyFault &e) { r.etype = 5; r.code = e.code; }
    catch (const std::exception &e) { r.etype = 8; r.text = e.what(); }
    catch (int e) { r.etype = 2; r.code = e; }
    catch (const std::string &e) { r.etype = 3; r.code = decStr(e); }
    catch (...) { r.etype = 7; }
    return r;
}

// ------------------------------------------------------- one method, bound
template<class D, class I, class R, class... A> struct MethodImpl : MethodOps {
    typedef I Iface;
    static const int n = (int) sizeof...(A);

    struct CombosOf { typedef typename Combos<n>::type type; };

    MethodImpl(const char *l, int i) {
        label = l;
        idx = i;
        ret = Ret<R>::traits;
        defCode = Ret<R>::def();
        canDefault = Ret<R>::canDefault;
        canonRet = &Ret<R>::canon;
        int cl[] = {0, (int) Enc<typename Naked<A>::type>::cls...};
        std::string (*fm[])(int) = {nullptr, &Enc<typename Naked<A>::type>::fmt...};
        bool objs[] = {false, std::is_class<A>::value...};
        for (int k = 1; k <= n; k++) { classes.push_back(cl[k]); fmt.push_back(fm[k]); byValueObjects = byValueObjects || objs[k]; }
    }
    static int sizeOf(TL<>) { return 0; }
    template<class H, class... T> static int sizeOf(TL<H, T...>) { return 1 + sizeOf(TL<T...>()); }
    int combos() override { return n == 0 ? 0 : sizeOf(typename Combos<n>::type()); }
    template<int... Ms> static void spec(IL<Ms...>, std::vector<int> &ms) {
        int raw[] = {0, Ms...};
        for (int k = 1; k <= (int) sizeof...(Ms); k++) ms.push_back(raw[k]);
    }
    static void specAt(int, std::vector<int> &, TL<>) {}
    template<class H, class... T> static void specAt(int k, std::vector<int> &ms, TL<H, T...>) {
        if (k == 0) spec(H(), ms); else specAt(k - 1, ms, TL<T...>());
    }
    void comboSpec(int combo, std::vector<int> &ms) override {
        specAt(combo, ms, typename Combos<n>::type());
        for (int k = 0; k < n; k++) ms[k] = effM(ms[k], classes[k]);
    }

    static Mock<I> &mk(Box &b) { return *static_cast<Mock<I> *>(b.mock); }

    template<class C> struct LeafOf : Leaf {
        C c;
        explicit LeafOf(const C &x) : c(x) {}
        const fakeit::Sequence &seq() override { return c; }
        const fakeit::ActualInvocationsSource &src() override { return c; }
    };
    template<class C> static Leaf *mkLeaf(const C &c, const Cond &cond) {
        LeafOf<C> *l = new LeafOf<C>(c);
        ApplyCond<C, A...>::apply(l->c, cond);
        return l;
    }
    Leaf *leaf(Box &b, const Cond &cond, int site) override {
        return site ? mkLeaf(D::ctx2(mk(b)), cond) : mkLeaf(D::ctx1(mk(b)), cond);
    }

    typedef DoFn<R, A...> F;
    template<class P> static void one(P &p, const Act &a) {
        switch (a.kind) {
            case A_RETURN: ReturnOne<Ret<R>::traits, R>::ret(p, a); break;
            case A_RETDEF: ReturnOne<Ret<R>::traits, R>::def(p, a); break;
            case A_THROW: throwOne(p, a, 0); break;
            default: doOne(p, a, F(0)); break;
        }
    }
    static bool onceDo(const Act &a) { return a.kind == A_DO && a.remaining == 1; }
    template<class C> static void stubWith(C c, const Cond &cond, const std::vector<Act> &acts, int form, bool abandon) {
        ApplyCond<C, A...>::apply(c, cond);
        if (form == 1 && !abandon && acts.size() == 2 && onceDo(acts[0]) && onceDo(acts[1])) {
            When(c).Do(F(acts[0].id)).Do(F(acts[1].id));
            return;
        }
        if (form == 1 && !abandon && acts.size() == 2 && onceDo(acts[0]) && acts[1].kind == A_DO && acts[1].remaining < 0) {
            When(c).Do(F(acts[0].id)).AlwaysDo(F(acts[1].id));
            return;
        }
        if (form == 1 && !abandon && acts.size() == 1 && onceDo(acts[0])) {
            When(c).Do(F(acts[0].id));
            return;
        }
        auto &&p = When(c);
        for (size_t i = 0; i < acts.size(); i++) {
            if (form == 1 && ReturnOne<Ret<R>::traits, R>::list(p, acts, i)) { i += 2; continue; }
            if (form == 1 && i + 1 < acts.size() && onceDo(acts[i]) && acts[i + 1].kind == A_DO && acts[i + 1].remaining > 0) {
                p.Do(F(acts[i].id), times(acts[i + 1].remaining)(F(acts[i + 1].id)));
                i += 1;
                continue;
            }
            one(p, acts[i]);
        }
        if (abandon) throw Abandon(1);
    }
    void stub(Box &b, const Cond &cond, const std::vector<Act> &acts, int form, int site, bool abandon) override {
        if (site) stubWith(D::ctx2(mk(b)), cond, acts, form, abandon);
        else stubWith(D::ctx1(mk(b)), cond, acts, form, abandon);
    }
    template<class C> static void stubMoreWith(C c, const std::vector<Cond> &conds, const std::vector<std::vector<Act>> &acts) {
        for (size_t k = 0; k < conds.size(); k++) {
            ApplyCond<C, A...>::apply(c, conds[k]);
            if (acts[k].size() == 1 && acts[k][0].kind == A_DO && acts[k][0].remaining < 0 && acts[k][0].id % 2) {
                c = F(acts[k][0].id);
                continue;
            }
            auto &&p = When(c);
            for (size_t i = 0; i < acts[k].size(); i++) one(p, acts[k][i]);
        }
    }
    void stubMore(Box &b, const std::vector<Cond> &conds, const std::vector<std::vector<Act>> &acts, int site) override {
        if (site) stubMoreWith(D::ctx2(mk(b)), conds, acts);
        else stubMoreWith(D::ctx1(mk(b)), conds, acts);
    }
    template<class C> static void fakeWith(C c, const Cond &cond, std::true_type) { ApplyCond<C, A...>::apply(c, cond); Fake(c); }
    template<class C> static void fakeWith(C, const Cond &, std::false_type) {}
    void fake(Box &b, const Cond &cond, int site) override {
        std::integral_constant<bool, Ret<R>::canDefault> t;
        if (site) fakeWith(D::ctx2(mk(b)), cond, t); else fakeWith(D::ctx1(mk(b)), cond, t);
    }
    template<class C> static void assignWith(C c, const Cond &cond, const Act &a) {
        ApplyCond<C, A...>::apply(c, cond);
        if (a.kind == A_DO) c = F(a.id);
        else ReturnOne<Ret<R>::traits, R>::assign(c, a);
    }
    void assign(Box &b, const Cond &cond, const Act &a, int site) override {
        if (site) assignWith(D::ctx2(mk(b)), cond, a); else assignWith(D::ctx1(mk(b)), cond, a);
    }
    template<class C> static void spyWith(C c, const Cond &cond, bool without) {
        ApplyCond<C, A...>::apply(c, cond);
        if (without) SpyWithoutVerify(c);
        else spyPlain(c);
    }
    template<class C> static void spyPlain(C &c) { Spy(c); }
    template<class X> static void spyIf(Box &b, const Cond &cond, int site, bool without, X, std::true_type) {
        if (site) spyWith(D::ctx2(mk(b)), cond, without); else spyWith(D::ctx1(mk(b)), cond, without);
    }
    template<class X> static void spyIf(Box &, const Cond &, int, bool, X, std::false_type) {}
    void spy(Box &b, const Cond &cond, int site, bool without) override {
        spyIf(b, cond, site, without, 0, std::integral_constant<bool, D::spyable>());
    }

    template<int... K> static R callIt(I &o, const std::vector<int> &codes, Idx<K...>) {
        (void) codes;
        return D::invoke(o, Pass<A>::give(codes[K])...);
    }
    struct Thunk {
        I *o;
        const std::vector<int> *codes;
        R operator()() { return callIt(*o, *codes, typename MkIdx<n>::type()); }
    };
    Res call(Box &b, const std::vector<int> &codes) override {
        Thunk t = {static_cast<I *>(b.obj), &codes};
        return guarded<R>(t);
    }
};

// CTX is the documented macro with the mock as its first argument
#define VH_METHOD(ID, IFACE, MOCKNAME, NAME, SPYABLE, CONSTOBJ, CTX, R, ...) \
    struct ID : MethodImpl<ID, IFACE, R, ##__VA_ARGS__> { \
        static const bool spyable = SPYABLE; \
        explicit ID(int i) : MethodImpl<ID, IFACE, R, ##__VA_ARGS__>(#MOCKNAME "." #NAME, i) {} \
        static auto ctx1(Mock<IFACE> &MOCKNAME) -> std::decay<decltype(CTX)>::type { return CTX; } \
        static auto ctx2(Mock<IFACE> &MOCKNAME) -> std::decay<decltype(CTX)>::type { return CTX; } \
        template<class... X> static R invoke(IFACE &o, X &&... x) { CONSTOBJ IFACE &oo = o; return oo.NAME(std::forward<X>(x)...); } \
    };

} // namespace w
