// Reports (P13): how argument values and expected values of every type appear in failure reports. Printable values appear as
// the stream prints them, text in quotes, characters in single quotes, truth values as words, all others as "?".
#pragma once
#include "values.hpp"

namespace ty {

template<class T> std::string streamed(const T &v) { std::ostringstream o; o << v; return o.str(); }

// a null character is shown as \0, as the text would end there otherwise
inline std::string visible(std::string s) { std::string r; for (char c : s) if (c) r += c; else r += "\\0"; return r; }
template<class T> struct Shown { static std::string of(const T &) { return "?"; } };
template<class T> struct ShownAsStreamed { static std::string of(const T &v) { return visible(streamed(v)); } };
#define VH_STREAMED(T) template<> struct Shown<T> : ShownAsStreamed<T> {};
VH_STREAMED(signed char) VH_STREAMED(unsigned char) VH_STREAMED(short) VH_STREAMED(unsigned short) VH_STREAMED(int) VH_STREAMED(unsigned) VH_STREAMED(long)
VH_STREAMED(unsigned long) VH_STREAMED(llong) VH_STREAMED(unsigned long long) VH_STREAMED(float) VH_STREAMED(double) VH_STREAMED(long double)
VH_STREAMED(Color) VH_STREAMED(std::string) VH_STREAMED(Tok) VH_STREAMED(int *) VH_STREAMED(const void *) VH_STREAMED(SharedInt) VH_STREAMED(Cplx)
template<> struct Shown<wchar_t> { static std::string of(const wchar_t &v) { return str((long) v); } };
template<> struct Shown<char32_t> { static std::string of(const char32_t &v) { return str((unsigned long) v); } };
template<> struct Shown<const wchar_t *> { static std::string of(const wchar_t *const &v) { return streamed((const void *) v); } };
#ifdef __cpp_char8_t
template<> struct Shown<char8_t> { static std::string of(const char8_t &v) { return str((int) v); } };
#endif
template<> struct Shown<bool> { static std::string of(const bool &v) { return v ? "true" : "false"; } };
template<> struct Shown<char> { static std::string of(const char &v) { return visible(std::string("'") + v + "'"); } };
template<> struct Shown<FnPtr> { static std::string of(const FnPtr &v) { return v ? "1" : "0"; } };         // what a stream makes of it

template<class T> struct ITxt {
    virtual int val(T) = 0;
    virtual int cref(const T &) = 0;
    virtual int ref(T &) = 0;
    virtual int mixed(int, T, const T &, std::string, T &) = 0;
    virtual void none() = 0;
};

inline std::string failureText(const std::function<void()> &f) {
    try { f(); } catch (VerificationException &e) { return e.what(); } catch (UnexpectedMethodCallException &e) { return e.what(); }
    return "no failure";
}

// How the expected calls appear: relation sign and value.
template<class T, bool ordered> struct Relations {
    template<class F> static void with(int k, T &t, F f) {
        if (k == 0) f(Eq(t), ""); else if (k == 1) f(t, ""); else f(Any(), "Any");
    }
};
template<class T> struct Relations<T, true> {
    template<class F> static void with(int k, T &t, F f) {
        switch (k) {
            case 0: f(Eq(t), ""); break;
            case 1: f(t, ""); break;
            case 2: f(Ne(t), "!="); break;
            case 3: f(Lt(t), "<"); break;
            case 4: f(Le(t), "<="); break;
            case 5: f(Gt(t), ">"); break;
            case 6: f(Ge(t), ">="); break;
            default: f(Any(), "Any"); break;
        }
    }
};

template<class T> struct AskText {
    Ctx &c;
    Mock<ITxt<T>> &m;
    std::string shown, calls;
    int ncalls, form;
    template<class X> void operator()(const X &x, const char *sign) {
        std::string s = std::string(sign) == "Any" ? "Any" : sign + shown, pattern, text;
        int line = 0;
        if (form == 0) { pattern = "m.val(" + s + ")"; text = failureText([&]() { line = __LINE__; Verify(Method(m, val).Using(x)).Exactly(1000); }); }
        else if (form == 1) { pattern = "m.cref(" + s + ") * 2 ... m.val( Any arguments )"; text = failureText([&]() { line = __LINE__; Verify(Method(m, cref).Using(x) * 2, Method(m, val)).Exactly(1000); }); }
        else if (form == 2) { pattern = "m.ref(" + s + ") + m.none( Any arguments )"; text = failureText([&]() { line = __LINE__; Verify(Method(m, ref).Using(x) + Method(m, none)).Exactly(1000); }); }
        else { pattern = "m.mixed(7, " + s + ", Any, >some text, " + s + ")"; text = failureText([&]() { line = __LINE__; Verify(Method(m, mixed).Using(7, x, _, Gt(std::string("some text")), x)).Exactly(1000); }); }
        std::string head = std::string(__FILE__) + ":" + str(line) + ": Verification error\nExpected pattern: " + pattern + "\nExpected matches: exactly 1000\nActual matches  : ";
        std::string tail = "\nActual sequence : total of " + str(ncalls) + " actual invocations" + (ncalls ? ":\n" : ".") + calls;
        bool ok = text.size() > head.size() + tail.size() && text.compare(0, head.size(), head) == 0 && text.compare(text.size() - tail.size(), std::string::npos, tail) == 0;
        vh::expect(c, ok, "report-values", std::string(V<T>::name()) + ": the report is\n" + text + "\ninstead of\n" + head + "<n>" + tail);
        c.obs.situation(std::string("pattern/") + V<T>::name() + "/" + sign + "/" + str(form));
    }
};

template<class T> void textCase(Ctx &c, Rng &r) {
    Mock<ITxt<T>> m;
    Fake(Method(m, none));
    When(Method(m, val)).AlwaysReturn(1);
    When(Method(m, cref)).AlwaysReturn(2);
    When(Method(m, ref)).AlwaysReturn(3);
    When(Method(m, mixed)).AlwaysReturn(4);
    ITxt<T> &i = m.get();
    std::deque<std::unique_ptr<T>> kept;         // references are printed from the caller's objects
    auto keep = [&](int k) -> T & { kept.emplace_back(new T(V<T>::make(k))); return *kept.back(); };
    int n = r.below(6);
    std::string calls;
    for (int k = 0; k < n; k++) {
        int a = r.below(V<T>::count), b = r.below(V<T>::count), d = r.below(V<T>::count);
        std::string sa = Shown<T>::of(V<T>::make(a)), sb = Shown<T>::of(V<T>::make(b)), sd = Shown<T>::of(V<T>::make(d)), line;
        switch (r.below(5)) {
            case 0: i.val(V<T>::make(a)); line = "m.val(" + sa + ")"; break;
            case 1: i.cref(keep(a)); line = "m.cref(" + sa + ")"; break;
            case 2: i.ref(keep(a)); line = "m.ref(" + sa + ")"; break;
            case 3: i.none(); line = "m.none()"; break;
            default: { std::string s = text(r.below(8)); i.mixed(-k, V<T>::make(a), keep(b), s, keep(d)); line = "m.mixed(" + str(-k) + ", " + sa + ", " + sb + ", " + s + ", " + sd + ")"; break; }
        }
        calls += std::string(k ? "\n" : "") + "  " + line;
        c.obs.count("calls listed");
    }
    T e = V<T>::make(r.below(V<T>::count));
    AskText<T> ask = {c, m, Shown<T>::of(e), calls, n, r.below(4)};
    Relations<T, V<T>::ordered>::with(r.below(V<T>::ordered ? 8 : 3), e, ask);
    if (n) {
        int line;
        std::string got = failureText([&]() { line = __LINE__; VerifyNoOtherInvocations(m); });
        std::string want = std::string(__FILE__) + ":" + str(line) + ": Verification error\nExpected no more invocations!! but the following unverified invocations were found:\n" + calls;
        vh::expect(c, got == want, "report-values", std::string(V<T>::name()) + ": the report is\n" + got + "\ninstead of\n" + want);
    }
    // a call nobody accepts
    Mock<ITxt<T>> other;
    int a = r.below(V<T>::count), b = r.below(V<T>::count);
    std::string sa = Shown<T>::of(V<T>::make(a)), sb = Shown<T>::of(V<T>::make(b)), want, got;
    if (r.chance(50)) {
        When(Method(other, val).Matching([](T &) { return false; })).Return(1);
        got = failureText([&]() { other.get().val(V<T>::make(a)); });
        want = "other.val(" + sa + ")";
    } else {
        When(Method(other, mixed).Using(3, _, _, _, _)).Return(1);
        T x = V<T>::make(b), y = V<T>::make(a);
        got = failureText([&]() { other.get().mixed(4, V<T>::make(a), x, "t", y); });
        want = "other.mixed(4, " + sa + ", " + sb + ", t, " + sa + ")";
    }
    want = "Unexpected method invocation: " + want + "\n  Could not find any recorded behavior to support this method call.";
    vh::expect(c, got == want, "report-values", std::string(V<T>::name()) + ": the text is\n" + got + "\ninstead of\n" + want);
    c.obs.situation(std::string("calls/") + V<T>::name() + "/" + str(a));
}

} // namespace ty
