// Dispatch (P01): generated classes of many shapes; every call must run the behaviour recorded last for exactly that
// method of exactly that mock. Behaviours carry unique numbers.
#pragma once

#include "../common/base.hpp"
#include "fakeit.hpp"

namespace di {

using vh::Ctx;
using vh::Rng;
using vh::Tok;
using vh::NP;
using vh::str;

struct Big { int v; long pad[9]; };
struct TwoFloats { float a, b; };
struct Pod16 { long a, b; };
enum class Kind : short { K = 1 };

inline std::vector<long> &hits() { static std::vector<long> h; return h; }
inline int &slotInt(int v) { static std::map<int, std::unique_ptr<int>> m; std::unique_ptr<int> &p = m[v]; if (!p) p.reset(new int(v)); return *p; }

// how a behaviour number travels through a result type
template<class R> struct Conv { static R make(int v) { return (R) v; } static int read(const R &r) { return (int) r; } };
template<> struct Conv<bool> { static bool make(int v) { return v & 1; } static int read(bool r) { return -1 - r; } };
template<> struct Conv<char> { static char make(int v) { return (char) (v & 127); } static int read(char r) { return -100 - r; } };
template<> struct Conv<Tok> { static Tok make(int v) { return Tok(v); } static int read(const Tok &t) { return t.get(); } };
template<> struct Conv<NP> { static NP make(int v) { return NP(v); } static int read(const NP &t) { return t.sane() ? t.code : -12345; } };
template<> struct Conv<std::string> { static std::string make(int v) { return "a string that needs memory of its own " + str(v); } static int read(const std::string &s) { return atoi(s.c_str() + 39); } };
template<> struct Conv<Big> { static Big make(int v) { Big b; b.v = v; for (int i = 0; i < 9; i++) b.pad[i] = v + i; return b; } static int read(const Big &b) { return b.pad[8] == b.v + 8 ? b.v : -12345; } };
template<> struct Conv<TwoFloats> { static TwoFloats make(int v) { TwoFloats t = {(float) v, -(float) v}; return t; } static int read(const TwoFloats &t) { return t.a == -t.b ? (int) t.a : -12345; } };
template<> struct Conv<Pod16> { static Pod16 make(int v) { Pod16 t = {v, -v}; return t; } static int read(const Pod16 &t) { return t.a == -t.b ? (int) t.a : -12345; } };
template<> struct Conv<int &> { static int &make(int v) { return slotInt(v); } static int read(int &r) { return r; } };
template<> struct Conv<int *> { static int *make(int v) { return &slotInt(v); } static int read(int *r) { return *r; } };
template<> struct Conv<Kind> { static Kind make(int v) { return (Kind) (v & 0x7fff); } static int read(Kind r) { return -1000 - (int) r; } };
template<> struct Conv<std::unique_ptr<int>> { static std::unique_ptr<int> make(int v) { return std::unique_ptr<int>(new int(v)); } static int read(const std::unique_ptr<int> &r) { return *r; } };
template<class R> struct Decode { static int want(int v) { R r = Conv<R>::make(v); return Conv<R>::read(static_cast<R &>(r)); } };

template<class R> struct Behave { static R run(long v) { hits().push_back(v); return Conv<R>::make((int) v); } };
template<> struct Behave<void> { static void run(long v) { hits().push_back(v); } };

struct Outcome { int decoded; bool isVoid; };
template<class C> struct MethodOps {
    const char *name;
    void (*stub)(fakeit::Mock<C> &, int v, int how);
    bool (*verify)(fakeit::Mock<C> &, int n);
    int (*call)(C &);             // decoded result
    int (*want)(int v);           // the decoded result behaviour v must give
    int (*callUp)(C &);           // through the base class that declares it, or null
    bool noThrow;
};

struct AnyMock {
    virtual ~AnyMock() {}
    virtual int methods() const = 0;
    virtual const char *name(int k) const = 0;
    virtual void stub(int k, int v, int how) = 0;
    virtual bool verify(int k, int n) = 0;
    virtual int call(int k, bool up) = 0;
    virtual int want(int k, int v) const = 0;
    virtual bool noThrow(int k) const = 0;
    virtual void reset() = 0;
    virtual bool hasDtor() const = 0;
    virtual void stubDtor(int v) = 0;
    virtual void destroyObject(int how) = 0;
    virtual bool verifyDtor(int n) = 0;
};

template<class C, bool has> struct DtorOps {
    static void stub(fakeit::Mock<C> &, int) {}
    static void destroy(fakeit::Mock<C> &, int) {}
    static bool verify(fakeit::Mock<C> &, int) { return true; }
};
template<class C> struct DtorOps<C, true> {
    static void stub(fakeit::Mock<C> &m, int v) { fakeit::When(Dtor(m)).AlwaysDo([v]() { hits().push_back(v); }); }
    static void destroy(fakeit::Mock<C> &m, int how) { if (how == 0) delete &m.get(); else m.get().~C(); }
    static bool verify(fakeit::Mock<C> &m, int n) { return fakeit::Verify(Dtor(m)).Exactly(n); }
};

template<class C> struct Table { static const MethodOps<C> ops[]; static const int count; };

template<class C> struct MockOf : AnyMock {
    fakeit::Mock<C> m;
    int methods() const override { return Table<C>::count; }
    const char *name(int k) const override { return Table<C>::ops[k].name; }
    void stub(int k, int v, int how) override { Table<C>::ops[k].stub(m, v, how); }
    bool verify(int k, int n) override { return Table<C>::ops[k].verify(m, n); }
    int call(int k, bool up) override { return (up && Table<C>::ops[k].callUp ? Table<C>::ops[k].callUp : Table<C>::ops[k].call)(m.get()); }
    int want(int k, int v) const override { return Table<C>::ops[k].want(v); }
    bool noThrow(int k) const override { return Table<C>::ops[k].noThrow; }
    void reset() override { m.Reset(); }
    bool hasDtor() const override { return std::has_virtual_destructor<C>::value; }
    void stubDtor(int v) override { DtorOps<C, std::has_virtual_destructor<C>::value>::stub(m, v); }
    void destroyObject(int how) override { DtorOps<C, std::has_virtual_destructor<C>::value>::destroy(m, how); }
    bool verifyDtor(int n) override { return DtorOps<C, std::has_virtual_destructor<C>::value>::verify(m, n); }
};

struct ClassEntry { const char *name; AnyMock *(*make)(); int slots; };
inline std::vector<ClassEntry> &classes() { static std::vector<ClassEntry> c; return c; }
template<class C> AnyMock *makeMock() { return new MockOf<C>(); }
struct RegisterClass { RegisterClass(const char *n, AnyMock *(*f)(), int slots) { ClassEntry e = {n, f, slots}; classes().push_back(e); } };

} // namespace di

// A generated method: R result, EXPR(m) the mocking expression, CALL(o) the call
#define DI_METHOD(N, C, R, EXPR, CALL, UP) \
    static void stub##N(fakeit::Mock<C> &m, int v, int how) { \
        auto act = [v](auto &&...) -> R { return di::Behave<R>::run(v); }; \
        switch (how) { \
            case 0: fakeit::When(EXPR).AlwaysDo(act); break; \
            case 1: EXPR = act; break; \
            default: fakeit::When(EXPR).Do(act).AlwaysDo(act); } } \
    static bool verify##N(fakeit::Mock<C> &m, int n) { return fakeit::Verify(EXPR).Exactly(n); } \
    static int call##N(C &o) { return di::Conv<R>::read(CALL); } \
    static int want##N(int v) { return di::Decode<R>::want(v); } \
    UP
#define DI_VOID(N, C, EXPR, CALL, UP) \
    static void stub##N(fakeit::Mock<C> &m, int v, int how) { \
        auto act = [v](auto &&...) { di::Behave<void>::run(v); }; \
        switch (how) { \
            case 0: fakeit::When(EXPR).AlwaysDo(act); break; \
            case 1: EXPR = act; break; \
            default: fakeit::When(EXPR).Do(act).AlwaysDo(act); } } \
    static bool verify##N(fakeit::Mock<C> &m, int n) { return fakeit::Verify(EXPR).Exactly(n); } \
    static int call##N(C &o) { CALL; return 0; } \
    static int want##N(int) { return 0; } \
    UP

// the wide classes: one way of stubbing keeps them affordable
#define DI_SIMPLE(N, C, R, EXPR, CALL, UP) \
    static void stub##N(fakeit::Mock<C> &m, int v, int) { fakeit::When(EXPR).AlwaysDo([v](auto &&...) -> R { return di::Behave<R>::run(v); }); } \
    static bool verify##N(fakeit::Mock<C> &m, int n) { return fakeit::Verify(EXPR).Exactly(n); } \
    static int call##N(C &o) { return di::Conv<R>::read(CALL); } \
    static int want##N(int v) { return di::Decode<R>::want(v); } \
    UP
#define DI_SIMPLE_VOID(N, C, EXPR, CALL, UP) \
    static void stub##N(fakeit::Mock<C> &m, int v, int) { fakeit::When(EXPR).AlwaysDo([v](auto &&...) { di::Behave<void>::run(v); }); } \
    static bool verify##N(fakeit::Mock<C> &m, int n) { return fakeit::Verify(EXPR).Exactly(n); } \
    static int call##N(C &o) { CALL; return 0; } \
    static int want##N(int) { return 0; } \
    UP
