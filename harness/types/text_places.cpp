// Where a failure is reported: the line, file and function of the statement, whatever they are.
#include "text.hpp"

namespace ty {

struct IPlaces { virtual int f(int) = 0; };

template<int n> struct Place;
#define PLACE_NUMBER 0
#define PLACE_LINE 1
#define PLACE_FILE "a"
#include "places.inc"
#define PLACE_NUMBER 1
#define PLACE_LINE 255
#define PLACE_FILE "dir with space/file.cpp"
#include "places.inc"
#define PLACE_NUMBER 2
#define PLACE_LINE 256
#define PLACE_FILE "C:\\dir\\file.cpp"
#include "places.inc"
#define PLACE_NUMBER 3
#define PLACE_LINE 32767
#define PLACE_FILE "/abs/olute.h"
#include "places.inc"
#define PLACE_NUMBER 4
#define PLACE_LINE 32768
#define PLACE_FILE "/a/very/long/path/that/goes/on/and/on/a/very/long/path/that/goes/on/and/on/a/very/long/path/that/goes/on/and/on/a/very/long/path/that/goes/on/and/on/a/very/long/path/that/goes/on/and/on/a/very/long/path/that/goes/on/and/on/a/very/long/path/that/goes/on/and/on/file.cpp"
#include "places.inc"
#define PLACE_NUMBER 5
#define PLACE_LINE 65535
#define PLACE_FILE "%s%n.cpp"
#include "places.inc"
#define PLACE_NUMBER 6
#define PLACE_LINE 65536
#define PLACE_FILE "none"
#include "places.inc"
#define PLACE_NUMBER 7
#define PLACE_LINE 16777217
#define PLACE_FILE "x.cpp:12: y"
#include "places.inc"
#define PLACE_NUMBER 8
#define PLACE_LINE 2147483600
#define PLACE_FILE "last.cpp"
#include "places.inc"

struct SeenPlace : EventHandler {
    std::string file, func;
    int line = 0, times = 0;
    template<class E> void take(const E &e) { file = e.file(); func = e.callingMethod(); line = e.line(); times++; }
    void handle(const UnexpectedMethodCallEvent &) override {}
    void handle(const SequenceVerificationEvent &e) override { take(e); }
    void handle(const NoMoreInvocationsVerificationEvent &e) override { take(e); }
};

template<int N> void placeCase(Ctx &c, Rng &r) {
    Mock<IPlaces> m, n;
    Fake(Method(m, f), Method(n, f));
    int calls = r.range(1, 5), form = r.below(4);
    for (int k = 0; k < calls; k++) { m.get().f(k); if (r.chance(50)) n.get().f(k); }
    SeenPlace seen;
    auto &fk = Fakeit;
    fk.addEventHandler(seen);
    std::string func, text, streamedText, efile, efunc;
    int eline = 0;
    bool failed = false;
    try { Place<N>::run(form, m, n, func); }
    catch (VerificationException &e) {
        failed = true;
        text = e.what(); efile = e.file(); efunc = e.callingMethod(); eline = e.line();
        std::ostringstream o; o << e; streamedText = o.str();
    }
    fk.clearEventHandlers();
    std::string want = std::string(Place<N>::file()) + ":" + str(Place<N>::line());
    vh::expect(c, failed && text.compare(0, want.size() + 2, want + ": ") == 0, "report-place", "the report is\n" + text + "\ninstead of one about " + want);
    vh::expect(c, streamedText.find(want + ": ") != std::string::npos, "report-place", "the streamed report is\n" + streamedText + "\ninstead of one about " + want);
    vh::expect(c, efile == Place<N>::file() && eline == Place<N>::line() && efunc == func, "report-place", "the exception tells " + efile + ":" + str(eline) + " " + efunc + " instead of " + want + " " + func);
    vh::expect(c, seen.times == 1 && seen.file == Place<N>::file() && seen.line == Place<N>::line() && seen.func == func, "report-place", "the event tells " + seen.file + ":" + str(seen.line) + " " + seen.func + " instead of " + want + " " + func);
    c.obs.count("places compared");
    c.obs.situation("place/" + str(N) + "/" + str(form) + "/" + str(calls));
}
#define PLACE(N) static Register regPlace##N("place" #N, &placeCase<N>);
PLACE(0) PLACE(1) PLACE(2) PLACE(3) PLACE(4) PLACE(5) PLACE(6) PLACE(7) PLACE(8)

} // namespace ty
