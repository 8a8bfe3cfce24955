// C strings, approximate values, types that are printed in unusual ways, and move-only arguments in reports.
#include "text.hpp"

namespace ty {

struct Lines { int n; };
inline std::ostream &operator<<(std::ostream &o, const Lines &l) { return o << "{line " << l.n << "\nnext, (\"" << std::hex << l.n << "\")}"; }
struct Fussy { int n; };        // leaves the stream in another state
inline std::ostream &operator<<(std::ostream &o, const Fussy &f) { o.fill('*'); o.width(6); o << f.n; o.precision(2); return o << std::fixed; }

struct ITextMixed {
    virtual int cstr(const char *) = 0;
    virtual int chars(char *) = 0;
    virtual int cstrs(const char *, int, const char *) = 0;
    virtual int lines(const Lines &, Fussy, double) = 0;
    virtual int owned(std::unique_ptr<int>, int) = 0;
    virtual int moved(std::string &&, Lines &&) = 0;
    virtual int real(double) = 0;
    virtual int whole(long) = 0;
};

static std::string quoted(const char *p) { return p ? "\"" + std::string(p) + "\"" : std::string("[nullptr]"); }

template<class T> void mixedText(Ctx &c, Rng &r) {
    Mock<ITextMixed> m;
    ITextMixed &i = m.get();
    Fake(Method(m, cstr), Method(m, chars), Method(m, cstrs), Method(m, lines), Method(m, owned), Method(m, moved), Method(m, real), Method(m, whole));
    static const char *texts[] = {nullptr, "", "a", "some text", "text with \"quotes\"", "line\nbreak"};
    std::string calls, pattern, got, sign;
    int line = 0, n = r.range(1, 4);
    std::deque<std::string> kept;
    std::deque<Lines> keptLines;
    auto add = [&](const std::string &s) { calls += std::string(calls.empty() ? "" : "\n") + "  " + s; };
    for (int k = 0; k < n; k++) {
        const char *a = texts[r.below(6)], *b = texts[r.below(6)];
        int x = r.below(100);
        switch (r.below(8)) {
            case 0: i.cstr(a); add("m.cstr(" + quoted(a) + ")"); break;
            case 1: { kept.push_back(text(r.below(9))); i.chars(&kept.back()[0]); add("m.chars(" + quoted(kept.back().c_str()) + ")"); break; }
            case 2: i.cstrs(a, x, b); add("m.cstrs(" + quoted(a) + ", " + str(x) + ", " + quoted(b) + ")"); break;
            case 3: {
                keptLines.push_back(Lines{x});
                i.lines(keptLines.back(), Fussy{x}, 1.0 / 3);
                add("m.lines(" + streamed(Lines{x}) + ", " + streamed(Fussy{x}) + ", " + streamed(1.0 / 3) + ")");
                break;
            }
            case 4: {
                std::unique_ptr<int> p(new int(x));
#if __cplusplus >= 202002L       // can be printed since then
                std::string shown = streamed(p.get());
#else
                std::string shown = "?";
#endif
                i.owned(std::move(p), x);
                add("m.owned(" + shown + ", " + str(x) + ")");
                break;
            }
            case 5: { kept.push_back(text(r.below(9))); keptLines.push_back(Lines{x}); i.moved(std::move(kept.back()), std::move(keptLines.back())); add("m.moved(" + kept.back() + ", " + streamed(keptLines.back()) + ")"); break; }
            case 6: i.real(x / 8.); add("m.real(" + streamed(x / 8.) + ")"); break;
            default: i.whole(-x); add("m.whole(" + str(-x) + ")"); break;
        }
    }
    int form = r.below(12), x = r.below(50);
    const char *t = texts[r.range(1, 5)];
    switch (form) {
        case 0: pattern = "m.cstr(" + quoted(t) + ")"; got = failureText([&]() { line = __LINE__; Verify(Method(m, cstr).Using(t)).Exactly(1000); }); break;
        case 1: pattern = "m.cstr(" + std::string(t) + ")"; got = failureText([&]() { line = __LINE__; Verify(Method(m, cstr).Using(StrEq(t))).Exactly(1000); }); break;
        case 2: pattern = "m.cstr(!=" + std::string(t) + ")"; got = failureText([&]() { line = __LINE__; Verify(Method(m, cstr).Using(StrNe(t))).Exactly(1000); }); break;
        case 3: pattern = "m.cstr(<" + std::string(t) + ")"; got = failureText([&]() { line = __LINE__; Verify(Method(m, cstr).Using(StrLt(t))).Exactly(1000); }); break;
        case 4: pattern = "m.cstr(<=" + std::string(t) + ")"; got = failureText([&]() { line = __LINE__; Verify(Method(m, cstr).Using(StrLe(t))).Exactly(1000); }); break;
        case 5: pattern = "m.cstr(>" + std::string(t) + ")"; got = failureText([&]() { line = __LINE__; Verify(Method(m, cstr).Using(StrGt(t))).Exactly(1000); }); break;
        case 6: pattern = "m.cstr(>=" + std::string(t) + ")"; got = failureText([&]() { line = __LINE__; Verify(Method(m, cstr).Using(StrGe(t))).Exactly(1000); }); break;
        case 7: pattern = "m.real(" + streamed(x / 4.) + "+/-" + streamed(x / 8.) + ")"; got = failureText([&]() { line = __LINE__; Verify(Method(m, real).Using(ApproxEq(x / 4., x / 8.))).Exactly(1000); }); break;
        case 8: pattern = "m.whole(" + str(x) + "+/-" + str(2) + ")"; got = failureText([&]() { line = __LINE__; Verify(Method(m, whole).Using(ApproxEq((long) x, 2))).Exactly(1000); }); break;
        case 9: pattern = "m.owned(Any, >" + str(x) + ")"; got = failureText([&]() { line = __LINE__; Verify(Method(m, owned).Using(_, Gt(x))).Exactly(1000); }); break;
        case 10: pattern = "m.lines( user defined matcher )"; got = failureText([&]() { line = __LINE__; Verify(Method(m, lines).Matching([](const Lines &, Fussy, double) { return true; })).Exactly(1000); }); break;
        default: pattern = "m.cstrs(" + quoted(t) + ", Any, [nullptr])"; got = failureText([&]() { line = __LINE__; Verify(Method(m, cstrs).Using(t, Any(), (const char *) nullptr)).Exactly(1000); }); break;
    }
    std::string head = std::string(__FILE__) + ":" + str(line) + ": Verification error\nExpected pattern: " + pattern + "\nExpected matches: exactly 1000\nActual matches  : ";
    std::string tail = "\nActual sequence : total of " + str(n) + " actual invocations:\n" + calls;
    bool ok = got.size() > head.size() + tail.size() && got.compare(0, head.size(), head) == 0 && got.compare(got.size() - tail.size(), std::string::npos, tail) == 0;
    vh::expect(c, ok, "report-values", "the report is\n" + got + "\ninstead of\n" + head + "<n>" + tail);
    c.obs.situation("mixed/" + str(form) + "/" + str(n));
}

#define MIX(N) static Register regMix##N("mixed" #N, &mixedText<char[N]>);
MIX(1) MIX(2) MIX(3) MIX(4) MIX(5) MIX(6)

} // namespace ty
