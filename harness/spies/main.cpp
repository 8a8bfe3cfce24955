// Spying (P16): objects of three classes, watched through any of their classes. Every operation is also done on a twin that
// is never given to a mock and overrides what the mock overrides; results, exceptions, arguments and data must agree.
#include "../common/base.hpp"
#include "fakeit.hpp"

#include <deque>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>

using namespace vh;
using namespace fakeit;

enum { VALUE, NAME, CHAIN, TOKEN, CELL, EAT, FACT, FAILS, APPEND, SELF, MANY, BOTH, METHODS };
static const char *names[] = {"value", "name", "chain", "token", "cell", "eat", "fact", "fails", "append", "self", "many", "both"};

// what a call refers to is read again when the recorded calls are reported, so it stays alive for the whole case
struct Kept { std::deque<std::string> texts; std::deque<int> ints; std::deque<Tok> toks; };
static Kept *kept;
static std::string &keptText(const std::string &s) { kept->texts.push_back(s); return kept->texts.back(); }
static int &keptInt(int v) { kept->ints.push_back(v); return kept->ints.back(); }
static Tok &keptTok(int v) { kept->toks.emplace_back(v); return kept->toks.back(); }

struct Base {
    long data;
    std::string text;
    std::vector<long> seen;
    Base() : data(1), text("base") {}
    virtual int value(int x) { data += x; return x * 2 + (int) (data % 7); }
    virtual std::string name(const std::string &s) const { return "B" + s + text; }
    virtual int chain(int x) { data ^= x; return value(x + 1) + (int) name(keptText("c")).size(); }
    virtual Tok token(Tok t) { data += t.get(); return Tok(t.get() + 1); }
    virtual int &cell(int &x) { x += (int) data; return x; }
    virtual long eat(std::unique_ptr<int> p) { data += p ? *p : -1; return data; }
    virtual ~Base() {}
    virtual int fact(int n) { seen.push_back(n); return n <= 0 ? 1 : n * fact(n - 1) % 1000; }
    virtual void fails(int x) { data++; if (x % 2) throw std::runtime_error(str(x)); if (x % 3 == 0) throw Tok(x); }
    virtual void append(std::string &&s) { text += s; s = "taken"; }
    virtual const Base *self() const { return this; }
    virtual double many(char c, double d, const Tok &t, long long l, float f, short s, Tok *p) { data += c + s; p->code += 1; return d + t.get() + (double) l + f; }
    virtual NP both(NP a, int &b) { b += a.code; text += "n"; return NP(a.code + value(1)); }
};
struct Mid : Base {
    int more = 5;
    int value(int x) override { more++; return Base::value(x) + more; }
    int chain(int x) override { return Base::chain(x) + (int) name(keptText(text.substr(0, 3))).size(); }
    Tok token(Tok t) override { more += t.get(); return Base::token(Tok(t.get() * 2)); }
};
struct Leaf : Mid {
    double deep[3] = {1, 2, 3};
    std::string name(const std::string &s) const override { return Mid::name(s) + "leaf"; }
    int fact(int n) override { deep[1] += n; return Mid::fact(n) + 1; }
    void fails(int x) override { deep[2] -= x; Mid::fails(x); }
    void append(std::string &&s) override { Mid::append(std::move(s)); try { fails(more); } catch (const std::runtime_error &) { text += "!"; } catch (const Tok &t) { text += str(t.get()); } }
};
// adds methods of its own
struct Extra : Base {
    virtual int added(int x) { return x + 40; }
    virtual int another(int x) { return x + 50; }
};

static std::string state(const Base &b) { std::ostringstream o; o << b.data << "/" << b.text << "/"; for (long x : b.seen) o << x << ","; return o.str(); }
static std::string state(const Mid &b) { return state((const Base &) b) + "/" + str(b.more); }
static std::string state(const Leaf &b) { return state((const Mid &) b) + "/" + str(b.deep[0]) + "," + str(b.deep[1]) + "," + str(b.deep[2]); }

// What the mock was told about each method, and what it should have recorded.
enum Mode { UNTOUCHED, SPIED, UNRECORDED, STUBBED };
struct Book {
    Mode mode[METHODS];
    int given[METHODS];         // result of a stubbed method
    int active[METHODS];
    std::vector<std::string> calls;
    Book() { for (int k = 0; k < METHODS; k++) { mode[k] = UNTOUCHED; given[k] = active[k] = 0; } }
};
static Book *book;
struct Entered {
    int m;
    bool was;
    Entered(int method, const std::string &args) : m(method) {
        // a method that calls itself while its original runs is not recorded again
        was = book->active[m] != 0;
        if (book->mode[m] != UNTOUCHED && !was) book->calls.push_back(std::string("m.") + names[m] + "(" + args + ")");
        if (book->mode[m] == SPIED || book->mode[m] == UNRECORDED) book->active[m]++;
    }
    ~Entered() { if (book->mode[m] == SPIED || book->mode[m] == UNRECORDED) book->active[m]--; }
    bool stubbed() const { return book->mode[m] == STUBBED; }
    int given() const { return book->given[m]; }
};
static int twinCell;
template<class D> struct Twin : D {
    int value(int x) override { Entered e(VALUE, str(x)); return e.stubbed() ? e.given() : D::value(x); }
    std::string name(const std::string &s) const override { Entered e(NAME, s); return e.stubbed() ? str(e.given()) : D::name(s); }
    int chain(int x) override { Entered e(CHAIN, str(x)); return e.stubbed() ? e.given() : D::chain(x); }
    Tok token(Tok t) override { Entered e(TOKEN, str(t)); if (e.stubbed()) return Tok(e.given()); return D::token(std::move(t)); }
    int &cell(int &x) override { Entered e(CELL, "*"); return e.stubbed() ? twinCell : D::cell(x); }
    long eat(std::unique_ptr<int> p) override { Entered e(EAT, "?"); return e.stubbed() ? e.given() : D::eat(std::move(p)); }
    int fact(int n) override { Entered e(FACT, str(n)); return e.stubbed() ? e.given() : D::fact(n); }
    void fails(int x) override { Entered e(FAILS, str(x)); if (!e.stubbed()) D::fails(x); }
    void append(std::string &&s) override { Entered e(APPEND, "*"); if (!e.stubbed()) D::append(std::move(s)); }
    const Base *self() const override { Entered e(SELF, ""); return e.stubbed() ? nullptr : D::self(); }
    double many(char c, double d, const Tok &t, long long l, float f, short s, Tok *p) override { Entered e(MANY, "*"); return e.stubbed() ? e.given() : D::many(c, d, t, l, f, s, p); }
    NP both(NP a, int &b) override { Entered e(BOTH, "*"); if (e.stubbed()) return NP(e.given()); return D::both(a, b); }
};

struct Outcome { std::string what; };
template<class F> std::string outcome(F f) {
    try { return f(); }
    catch (const std::runtime_error &e) { return std::string("runtime_error ") + e.what(); }
    catch (const Tok &t) { return "thrown " + str(t); }
    catch (const UnexpectedMethodCallException &) { return "unexpected call"; }
}
// one call on one object, described completely
static std::string doCall(Base &b, int method, int x, int &ownCell, const Base *me) {
    switch (method) {
        case VALUE: return outcome([&]() { return str(b.value(x)); });
        case NAME: { std::string &a = keptText("n" + str(x)); return outcome([&]() { return b.name(a) + " " + a; }); }
        case CHAIN: return outcome([&]() { return str(b.chain(x)); });
        case TOKEN: return outcome([&]() { Tok t(x); std::string r = str(b.token(t)); return r + " " + str(t); });
        case CELL: { int &v = keptInt(x); return outcome([&]() { int &r = b.cell(v); std::string s = &r == &v ? "same " : &r == &ownCell ? "given " : "other "; return s + str(&r == &ownCell ? 0 : r) + " " + str(v); }); }
        case EAT: return outcome([&]() { return str(b.eat(std::unique_ptr<int>(x % 5 ? new int(x) : nullptr))); });
        case FACT: return outcome([&]() { return str(b.fact(x % 8)); });
        case FAILS: return outcome([&]() { b.fails(x); return std::string("returned"); });
        case APPEND: { std::string &s = keptText("s" + str(x)); std::string r = outcome([&]() { b.append(std::move(s)); return std::string("returned "); }); return r + s; }
        case SELF: return outcome([&]() { const Base *p = b.self(); return std::string(p == me ? "me" : p ? "other" : "null"); });
        case MANY: { Tok &t = keptTok(x), &p = keptTok(3); return outcome([&]() { double d = b.many((char) ('a' + x % 20), x * .5, t, x * 1000000007LL, x * .25f, (short) -x, &p); return str(d) + " " + str(t) + str(p); }); }
        default: { int &v = keptInt(x); return outcome([&]() { NP r = b.both(NP(x), v); return str(r.code) + (r.sane() ? " " : " damaged ") + str(v); }); }
    }
}

struct Collect : EventHandler {
    std::vector<std::string> calls;
    void handle(const UnexpectedMethodCallEvent &) override {}
    void handle(const SequenceVerificationEvent &e) override { for (Invocation *i : e.actualSequence()) calls.push_back(i->format()); }
    void handle(const NoMoreInvocationsVerificationEvent &) override {}
};

// the recorded calls of the methods listed, as a failing verification reports them
template<class C> std::vector<std::string> recorded(Mock<C> &m) {
    Collect c;
    auto &fk = Fakeit;
    fk.addEventHandler(c);
    try { Verify(Method(m, value)).Exactly(1000000); } catch (VerificationException &) {}
    fk.clearEventHandlers();
    return c.calls;
}

template<class C> void tell(Mock<C> &m, Book &b, int method, Mode mode, int given, int &ownCell) {
    b.mode[method] = mode;
    b.given[method] = given;
#define VH_TELL(F, SPY, STUB) \
        if (mode == SPIED) { SPY(Method(m, F)); } else if (mode == UNRECORDED) { SpyWithoutVerify(Method(m, F)); } else { STUB; } break
    switch (method) {
        case VALUE: VH_TELL(value, Spy, When(Method(m, value)).AlwaysReturn(given));
        case NAME: VH_TELL(name, Spy, When(Method(m, name)).AlwaysReturn(str(given)));
        case CHAIN: VH_TELL(chain, Spy, When(Method(m, chain)).AlwaysReturn(given));
        case TOKEN: VH_TELL(token, Spy, When(Method(m, token)).AlwaysReturn(Tok(given)));
        case CELL: VH_TELL(cell, Spy, When(Method(m, cell)).AlwaysReturn(ownCell));
        case EAT: VH_TELL(eat, SpyWithoutVerify, When(Method(m, eat)).AlwaysReturn(given));
        case FACT: VH_TELL(fact, Spy, When(Method(m, fact)).AlwaysReturn(given));
        case FAILS: VH_TELL(fails, Spy, Fake(Method(m, fails)));
        case APPEND: VH_TELL(append, SpyWithoutVerify, Fake(Method(m, append)));
        case SELF: VH_TELL(self, Spy, When(Method(m, self)).AlwaysReturn(nullptr));
        case MANY: VH_TELL(many, Spy, When(Method(m, many)).AlwaysReturn(given));
        default: VH_TELL(both, Spy, When(Method(m, both)).AlwaysReturn(NP(given)));
    }
}

static bool sameCalls(const std::vector<std::string> &got, const std::vector<std::string> &want) {
    if (got.size() != want.size()) return false;
    for (size_t k = 0; k < got.size(); k++) {
        size_t open = want[k].find("(*)");
        if (open != std::string::npos ? got[k].compare(0, open + 1, want[k], 0, open + 1) != 0 : got[k] != want[k]) return false;
    }
    return true;
}
static std::string joined(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += x + " "; return s; }

template<class C, class D> void spyCase(Ctx &c, Rng &r, const std::string &kind) {
    Book bk;
    book = &bk;
    Kept alive;
    kept = &alive;
    std::unique_ptr<D> real(new D);
    std::unique_ptr<Twin<D>> twin(new Twin<D>);
    D &o = *real;
    Base &viaBase = o;
    int ownCell = 0, lastStub = 500;
    std::unique_ptr<Mock<C>> m;
    bool valueKnown = false;
    auto steps = [&](int n) {
        for (int k = 0; k < n; k++) {
            int method = r.below(METHODS), x = r.below(40);
            std::string want = doCall(*twin, method, x, twinCell, twin.get()), got = doCall(viaBase, method, x, ownCell, &o);
            expect(c, got == want, "spied-outcome", kind + ": " + names[method] + "(" + str(x) + ") mode " + str(bk.mode[method]) + " gives '" + got + "', the twin '" + want + "'");
            std::string s = state(o), t = state((const D &) *twin);
            if (!expect(c, s == t, "spied-state", kind + ": after " + names[method] + "(" + str(x) + ") mode " + str(bk.mode[method]) + " the object is " + s + ", the twin " + t)) throw CaseFailed();
            c.obs.count("calls");
            c.obs.situation(kind + "/" + names[method] + "/" + str(bk.mode[method]) + "/" + str(bk.mode[VALUE]) + str(bk.mode[NAME]) + str(bk.mode[FAILS]) + "/" + (m ? "m" : "-"));
        }
    };
    auto judgeType = [&](const char *when) {
        expect(c, typeid(viaBase) == typeid(D) && dynamic_cast<D *>(&viaBase) == &o && dynamic_cast<void *>(&viaBase) == (void *) &o && !dynamic_cast<Extra *>(&viaBase),
               "spied-type", kind + ": the dynamic type of the object is not the real one " + when);
    };
    auto judgeHistory = [&]() {
        if (!m || !valueKnown) return;
        std::vector<std::string> got = recorded(*m);
        // objects handed on by value are moved from, so only the number of calls is certain there
        std::vector<std::string> want = bk.calls;
        for (auto &w : want) for (int k = 0; k < METHODS; k++) if (bk.mode[k] == UNRECORDED && w.compare(0, strlen(names[k]) + 3, std::string("m.") + names[k] + "(") == 0) w = std::string("m.") + names[k] + "(*)";
        expect(c, sameCalls(got, want), "spied-history", kind + ": recorded " + joined(got) + "instead of " + joined(want));
        c.obs.count("histories compared");
    };
    steps(r.below(3));
    int rounds = r.range(1, 3);
    for (int round = 0; round < rounds; round++) {
        std::string before = state(o);
        m.reset(new Mock<C>(o));
        bk = Book();
        valueKnown = false;
        expect(c, state(o) == before && &m->get() == &o, "spied-state", kind + ": creating the mock changed the object");
        judgeType("while it is watched");
        int n = r.range(1, 7);
        for (int k = 0; k < n; k++) {
            int what = r.below(11);
            if (what == 10) {
                // a data member given a value through the mock keeps it
                long v = r.below(1000);
                m->Stub(static_cast<long C::*>(&Base::data), v);
                twin->data = v;
                expect(c, o.data == v, "spied-member", kind + ": the member is " + str(o.data) + " instead of " + str(v));
                c.obs.count("members given values");
            } else if (what < 6) {
                int method = k == 0 ? VALUE : r.below(METHODS);
                Mode mode = r.chance(50) ? SPIED : r.chance(50) ? STUBBED : UNRECORDED;
                if ((method == EAT || method == APPEND) && mode == SPIED) mode = UNRECORDED;
                if (bk.mode[method] == UNRECORDED || (mode == UNRECORDED && bk.mode[method] != UNTOUCHED)) continue;     // recorded differently in one history
                if (method == VALUE) valueKnown = true;
                tell(*m, bk, method, mode, ++lastStub, ownCell);
            } else if (what < 8) {
                judgeHistory();
            } else if (what == 8) {
                m->ClearInvocationHistory();
                bk.calls.clear();
            } else {
                m->Reset();
                bk = Book();
                valueKnown = false;
                judgeType("after Reset");
            }
            steps(r.range(1, 5));
        }
        judgeHistory();
        judgeType("while it is watched");
        before = state(o);
        m.reset();
        bk = Book();
        expect(c, state(o) == before, "spied-state", kind + ": destroying the mock changed the object");
        judgeType("after the mock is gone");
        steps(r.range(2, 6));
    }
}

// an object whose class adds virtual methods the mock does not know of
static void extraCase(Ctx &c, Rng &r) {
    int x = r.below(100), before = r.below(4);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        alarm(20);
        if (!freopen("/dev/null", "w", stderr)) _exit(2);
        std::unique_ptr<Extra> owner(new Extra);
        Extra &e = *owner;
        Mock<Base> m(e);
        if (before & 1) Spy(Method(m, value));
        if (before & 2) e.value(1);
        _exit(e.added(x) == x + 40 && e.another(x) == x + 50 ? 0 : 1);
    }
    int status = 0;
    if (pid < 0 || waitpid(pid, &status, 0) != pid) { c.obs.count("not started"); return; }
    expect(c, WIFEXITED(status) && WEXITSTATUS(status) == 0, "added-method", "a method added by the class of the watched object " +
           std::string(WIFEXITED(status) ? "does not behave as before" : "crashes") + " while the object is watched through a base class");
    c.obs.count("objects with added methods");
    c.obs.situation("extra/" + str(x) + "/" + str(before));
}

static void oneCase(Ctx &c, Rng &r) {
    if (option("kind") == "extra") return extraCase(c, r);
    long live = tokStats().live, bad = tokStats().bad;
    switch (c.caseNo % 6) {
        case 0: spyCase<Base, Base>(c, r, "base as base"); break;
        case 1: spyCase<Base, Mid>(c, r, "mid as base"); break;
        case 2: spyCase<Base, Leaf>(c, r, "leaf as base"); break;
        case 3: spyCase<Mid, Mid>(c, r, "mid as mid"); break;
        case 4: spyCase<Mid, Leaf>(c, r, "leaf as mid"); break;
        default: spyCase<Leaf, Leaf>(c, r, "leaf as leaf"); break;
    }
    expect(c, tokStats().live == live && tokStats().bad == bad, "spied-values", "values alive " + str(tokStats().live - live) + ", misused " + str(tokStats().bad - bad));
}

int main(int argc, char **argv) { return shardMain(argc, argv, oneCase); }
