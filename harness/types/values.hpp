// Value types used by the type sweeps: how to make distinct values of each, how to compare them, and how they
// are expected to appear in reports.
#pragma once

#include "../common/base.hpp"
#include "fakeit.hpp"

#include <cmath>
#include <complex>
#include <limits>

namespace ty {

using namespace fakeit;

using vh::Tok;
using vh::NP;
using vh::Rng;
using vh::Ctx;
using vh::str;

enum Color { RED, GREEN = 5, BLUE = -3 };
enum class Level : unsigned char { LOW = 1, MID = 100, HIGH = 255 };
struct Small { char a, b; bool operator==(const Small &o) const { return a == o.a && b == o.b; } };
struct Odd3 { char c[3]; bool operator==(const Odd3 &o) const { return !memcmp(c, o.c, 3); } };
struct TwoFloats { float x, y; bool operator==(const TwoFloats &o) const { return x == o.x && y == o.y; } };
struct TwoLongs { long x, y; bool operator==(const TwoLongs &o) const { return x == o.x && y == o.y; } };
struct Mixed { double d; int i; bool operator==(const Mixed &o) const { return d == o.d && i == o.i; } };
struct Big { int v[40]; bool operator==(const Big &o) const { return !memcmp(v, o.v, sizeof v); } };
struct alignas(32) Aligned { double v[4]; bool operator==(const Aligned &o) const { return !memcmp(v, o.v, sizeof v); } };
struct Empty { bool operator==(const Empty &) const { return true; } };
struct WithMembers {
    std::string s;
    std::vector<int> v;
    Tok t;
    WithMembers() {}
    bool operator==(const WithMembers &o) const { return s == o.s && v == o.v && t.code == o.t.code; }
};
struct Base { int b; virtual ~Base() {} virtual int who() const { return 1; } explicit Base(int x = 0) : b(x) {} bool operator==(const Base &o) const { return b == o.b; } };

template<class T> struct V;      // make(i): distinct for distinct i in [0, count)

template<class T> struct VInt {
    static T make(int i) {
        switch (i) {
            case 0: return 0;
            case 1: return 1;
            case 2: return std::numeric_limits<T>::max();
            case 3: return std::numeric_limits<T>::min() == 0 ? (T) (std::numeric_limits<T>::max() / 2 + 1) : std::numeric_limits<T>::min();
            case 4: return (T) (std::numeric_limits<T>::max() - 1);
            case 5: return (T) 77;
            default: return (T) (std::numeric_limits<T>::max() / 2 - (T) i);
        }
    }
    static const int count = 9;
    static const bool ordered = true;
};
#define VH_INT(T) template<> struct V<T> : VInt<T> { static const char *name() { return #T; } };
VH_INT(signed char) VH_INT(unsigned char) VH_INT(short) VH_INT(unsigned short) VH_INT(int) VH_INT(unsigned) VH_INT(long)
VH_INT(unsigned long) VH_INT(long long) VH_INT(unsigned long long)
typedef long long llong;

template<> struct V<bool> { static const char *name() { return "bool"; } static bool make(int i) { return i & 1; } static const int count = 2; static const bool ordered = true; };
template<> struct V<char> { static const char *name() { return "char"; } static char make(int i) { return (char) ('a' + i); } static const int count = 20; static const bool ordered = true; };
template<> struct V<wchar_t> { static const char *name() { return "wchar_t"; } static wchar_t make(int i) { return (wchar_t) (1000 + i); } static const int count = 9; static const bool ordered = true; };
template<> struct V<char32_t> { static const char *name() { return "char32_t"; } static char32_t make(int i) { return i == 0 ? 0 : i == 1 ? 0xffffffffu : (char32_t) (0x10f000 + i); } static const int count = 9; static const bool ordered = true; };
inline const wchar_t *widePool() { static const wchar_t p[32] = L"wide"; return p; }
template<> struct V<const wchar_t *> { static const char *name() { return "const wchar_t*"; } static const wchar_t *make(int i) { return i == 0 ? nullptr : widePool() + i; } static const int count = 12; static const bool ordered = false; };
#ifdef __cpp_char8_t
template<> struct V<char8_t> { static const char *name() { return "char8_t"; } static char8_t make(int i) { return (char8_t) (i == 0 ? 0 : 250 - i); } static const int count = 20; static const bool ordered = true; };
#define VH_CHAR8(X) X(char8_t)
#else
#define VH_CHAR8(X)
#endif

template<class T> struct VFloat {
    static T make(int i) {
        switch (i) {
            case 0: return 0;
            case 1: return (T) 1.5;
            case 2: return std::numeric_limits<T>::infinity();
            case 3: return -std::numeric_limits<T>::infinity();
            case 4: return std::numeric_limits<T>::min();
            case 5: return std::numeric_limits<T>::max();
            case 6: return (T) -1.5;
            case 7: return std::numeric_limits<T>::lowest();
            default: return (T) (100 + i) / (T) 7;
        }
    }
    static const int count = 12;
    static const bool ordered = true;
};
template<> struct V<float> : VFloat<float> { static const char *name() { return "float"; } };
template<> struct V<double> : VFloat<double> { static const char *name() { return "double"; } };
template<> struct V<long double> : VFloat<long double> { static const char *name() { return "long double"; } };

template<> struct V<Color> { static const char *name() { return "enum"; } static Color make(int i) { static const Color c[] = {RED, GREEN, BLUE}; return c[i]; } static const int count = 3; static const bool ordered = true; };
template<> struct V<Level> { static const char *name() { return "enum class"; } static Level make(int i) { static const Level c[] = {Level::LOW, Level::MID, Level::HIGH}; return c[i]; } static const int count = 3; static const bool ordered = true; };

inline int *intPool() { static int p[32]; return p; }
template<> struct V<int *> { static const char *name() { return "int*"; } static int *make(int i) { return i == 0 ? nullptr : intPool() + i; } static const int count = 12; static const bool ordered = false; };
template<> struct V<const void *> { static const char *name() { return "const void*"; } static const void *make(int i) { return i == 0 ? nullptr : intPool() + i; } static const int count = 12; static const bool ordered = false; };
typedef int (*FnPtr)(int);
template<int N> int someFunction(int x) { return x * 31 + N; }
template<> struct V<FnPtr> {
    static const char *name() { return "int(*)(int)"; }
    static FnPtr make(int i) { static const FnPtr f[] = {nullptr, &someFunction<1>, &someFunction<2>, &someFunction<3>}; return f[i]; }
    static const int count = 4;
    static const bool ordered = false;
};

inline std::string text(int i) {
    if (i == 0) return "";
    std::string s = "text " + str(i * 7919 % 1000);
    if (i % 2) s += " with a tail that does not fit in the small buffer";
    return s;
}
template<> struct V<std::string> { static const char *name() { return "std::string"; } static std::string make(int i) {
    if (i % 5 != 4) return text(i);
    std::string s = i < 10 ? "cut" : text(i);                       // some differ only behind a null character
    s += '\0';
    return s + "%s\n\t\"\xc3\xa4" + str(i) + (i % 2 ? std::string(1, '\0') : "");
} static const int count = 20; static const bool ordered = true; };
template<> struct V<std::vector<int>> { static const char *name() { return "std::vector<int>"; } static std::vector<int> make(int i) { return std::vector<int>((size_t) i, i); } static const int count = 9; static const bool ordered = true; };
typedef std::pair<int, std::string> IntStr;
template<> struct V<IntStr> { static const char *name() { return "std::pair"; } static IntStr make(int i) { return IntStr(i / 2, text(i)); } static const int count = 9; static const bool ordered = true; };
typedef std::shared_ptr<int> SharedInt;
inline SharedInt &sharedPool(int i) { static std::map<int, SharedInt> m; SharedInt &p = m[i]; if (!p && i) p = std::make_shared<int>(i); return p; }
template<> struct V<SharedInt> { static const char *name() { return "std::shared_ptr"; } static SharedInt make(int i) { return sharedPool(i); } static const int count = 9; static const bool ordered = false; };
template<> struct V<Tok> { static const char *name() { return "Tok"; } static Tok make(int i) { return Tok(i); } static const int count = 30; static const bool ordered = true; };
template<> struct V<Small> { static const char *name() { return "Small"; } static Small make(int i) { Small s = {(char) i, (char) (100 - i)}; return s; } static const int count = 30; static const bool ordered = false; };
template<> struct V<Odd3> { static const char *name() { return "Odd3"; } static Odd3 make(int i) { Odd3 s = {{(char) i, 1, (char) (100 - i)}}; return s; } static const int count = 30; static const bool ordered = false; };
template<> struct V<TwoFloats> { static const char *name() { return "TwoFloats"; } static TwoFloats make(int i) { TwoFloats s = {i * .5f, -i * .25f}; return s; } static const int count = 30; static const bool ordered = false; };
template<> struct V<TwoLongs> { static const char *name() { return "TwoLongs"; } static TwoLongs make(int i) { TwoLongs s = {i * 1000000007L, -i}; return s; } static const int count = 30; static const bool ordered = false; };
template<> struct V<Mixed> { static const char *name() { return "Mixed"; } static Mixed make(int i) { Mixed s = {i * .5, -i}; return s; } static const int count = 30; static const bool ordered = false; };
template<> struct V<Big> { static const char *name() { return "Big"; } static Big make(int i) { Big b; for (int k = 0; k < 40; k++) b.v[k] = i * 41 + k * (i != 0); return b; } static const int count = 30; static const bool ordered = false; };
template<> struct V<Aligned> { static const char *name() { return "Aligned"; } static Aligned make(int i) { Aligned a = {{i * 1., i * 2., i * 3., i * 4.}}; return a; } static const int count = 30; static const bool ordered = false; };
template<> struct V<WithMembers> { static const char *name() { return "WithMembers"; } static WithMembers make(int i) { WithMembers w; w.s = text(i); w.v.assign((size_t) i, i); w.t.code = i; return w; } static const int count = 30; static const bool ordered = false; };
template<> struct V<Base> { static const char *name() { return "polymorphic"; } static Base make(int i) { return Base(i); } static const int count = 30; static const bool ordered = false; };
typedef std::complex<double> Cplx;
template<> struct V<Cplx> { static const char *name() { return "std::complex"; } static Cplx make(int i) { return Cplx(i, -i); } static const int count = 30; static const bool ordered = false; };

#if __cplusplus >= 201703L       // new knows about alignment
#define VH_OVERALIGNED(X) X(Aligned)
#else
#define VH_OVERALIGNED(X)
#endif
#define VH_TYPES_0(X) X(bool) X(char) X(signed char) X(unsigned char) X(char32_t) VH_CHAR8(X)
#define VH_TYPES_1(X) X(wchar_t) X(short) X(unsigned short) X(int)
#define VH_TYPES_2(X) X(unsigned) X(long) X(unsigned long) X(llong)
#define VH_TYPES_3(X) X(unsigned long long) X(float) X(double) X(long double)
#define VH_TYPES_4(X) X(Color) X(Level) X(std::string) X(Tok)
#define VH_TYPES_5(X) X(int *) X(const void *) X(FnPtr) X(std::vector<int>) X(SharedInt) X(Small)
#define VH_TYPES_6(X) X(IntStr) X(Odd3) X(TwoFloats) X(TwoLongs) X(Base) X(const wchar_t *)
#define VH_TYPES_7(X) X(Mixed) X(Big) X(WithMembers) X(Cplx) VH_OVERALIGNED(X)

typedef void (*TypeCase)(Ctx &, Rng &);
struct Named { const char *name; TypeCase fn; };
inline std::vector<Named> &registry() { static std::vector<Named> r; return r; }
#define VH_REGISTER(FN, T) static ty::Register VH_CAT(reg, __COUNTER__)(#T, &FN<T>);
#define VH_CAT(a, b) VH_CAT2(a, b)
#define VH_CAT2(a, b) a##b
struct Register { Register(const char *n, TypeCase f) { Named x = {n, f}; registry().push_back(x); } };

// picks distinct values
template<class T> T pick(Rng &r, int *idx = nullptr) {
    int i = r.below(V<T>::count);
    if (idx) *idx = i;
    return V<T>::make(i);
}

inline void sorted() {
    static bool done = false;
    if (done) return;
    done = true;
    std::sort(registry().begin(), registry().end(), [](const Named &a, const Named &b) { return strcmp(a.name, b.name) < 0; });
}

inline void oneTypeCase(Ctx &c, Rng &rng) {
    sorted();
    // every type in turn, so that a range of cases as long as the registry meets all of them
    Named n = registry()[(size_t) c.caseNo % registry().size()];
    c.trace(std::string("type ") + n.name);
    long live = vh::tokStats().live;
    vh::tokStats().bad = 0;
    Rng again = rng;
    n.fn(c, rng);
    if (vh::tokStats().live != live) {          // statics of the framework are made once
        live = vh::tokStats().live;
        Ctx quiet;
        n.fn(quiet, again);
    }
    vh::expect(c, vh::tokStats().live == live, "value-lifetime", std::string(n.name) + ": balance " + str(vh::tokStats().live - live));
    vh::expect(c, vh::tokStats().bad == 0, "value-use", std::string(n.name) + ": a value was used or destroyed after its destruction");
    c.obs.count("type sweeps");
}

} // namespace ty
