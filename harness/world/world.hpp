// A randomly generated "world" of mocks, driven through the public API only and
// compared, operation by operation, with a reference model of what the
// documentation promises. See world.cpp for the model.
#pragma once

#include "../common/base.hpp"
#ifdef VH_FIRST
#include VH_FIRST           // what users of the framework include first
#endif
#include "fakeit.hpp"

namespace w {

#ifdef VH_SOFT              // another test framework: failures only reach an adapter of our own
struct VerificationException {
    const char *what() const { return ""; }
    std::string file() const { return ""; }
    int line() const { return 0; }
    std::string callingMethod() const { return ""; }
};
struct SequenceVerificationException : VerificationException {};
struct NoMoreInvocationsVerificationException : VerificationException {};
#else
using fakeit::VerificationException;
using fakeit::SequenceVerificationException;
using fakeit::NoMoreInvocationsVerificationException;
#endif

using vh::Tok;
using vh::NP;
using vh::Rng;
using vh::Ctx;

struct World;
World *&cur();     // the world of this thread

const int DEFCODE = -7;      // code of null pointers and empty strings

// ------------------------------------------------------------ conditions
enum M { M_WILD, M_ANYF, M_ANYT, M_VAL, M_EQ, M_NE, M_LT, M_LE, M_GT, M_GE };
enum ArgClass { ORD, PTR, CSTR, MOV };

struct ArgCond {
    int m;
    int code;
    bool accepts(int c) const {
        switch (m) {
            case M_VAL: case M_EQ: return c == code;
            case M_NE: return c != code;
            case M_LT: return c < code;
            case M_LE: return c <= code;
            case M_GT: return c > code;
            case M_GE: return c >= code;
            default: return true;
        }
    }
};

enum CondKind { CK_NONE, CK_USING, CK_CALLVALS, CK_MATCHING, CK_CALLPRED };
struct Cond {
    int kind;
    int combo;
    bool replaces;                  // another condition was written before, this one replaces it
    std::vector<ArgCond> args;      // CK_USING, CK_CALLVALS
    int mul, add, mod, thr;         // predicate: (sum*mul+add) mod mod < thr
    Cond() : kind(CK_NONE), combo(0), replaces(false), mul(1), add(0), mod(1), thr(1) {}
    bool pred(const std::vector<int> &c) const {
        long s = 0;
        for (size_t i = 0; i < c.size(); i++) s += (long) (i + 1) * (c[i] + 11);
        return (s * mul + add) % mod < thr;
    }
    bool accepts(const std::vector<int> &c) const {
        switch (kind) {
            case CK_NONE: return true;
            case CK_USING: case CK_CALLVALS:
                for (size_t i = 0; i < args.size(); i++) if (!args[i].accepts(c[i])) return false;
                return true;
            default: return pred(c);
        }
    }
};

// --------------------------------------------------------------- actions
enum ActKind { A_RETURN, A_RETDEF, A_THROW, A_DO, A_ORIG };
struct Act {
    int kind;
    int code;          // result code, or exception code
    int etype;         // exception type
    long remaining;    // -1: for ever
    int id;
    bool throwsAfter;  // A_DO: leave by an exception
    Act() : kind(A_RETURN), code(0), etype(0), remaining(1), id(0), throwsAfter(false) {}
};

struct ExA { int code; Tok t; explicit ExA(int c) : code(c), t(c) {} };
struct ExB : std::runtime_error { int code; explicit ExB(int c) : std::runtime_error("ExB"), code(c) {} };
struct Abandon { int code; explicit Abandon(int c) : code(c) {} };

enum ResKind { RES_VALUE, RES_VOID, RES_THROW, RES_UNEXPECTED };
struct Res {
    int kind;
    int code;
    bool sameObject;        // for references and pointers: was it the designated object
    int etype;
    std::string text;
    Res() : kind(RES_VOID), code(0), sameObject(true), etype(-1) {}
};

// --------------------------------------------------------- type erasure
struct Leaf {
    virtual ~Leaf() {}
    virtual const fakeit::Sequence &seq() = 0;
    virtual const fakeit::ActualInvocationsSource &src() = 0;
};

struct Box;

enum { TR_VALUE, TR_REF, TR_MOVEONLY, TR_VOID };

struct MethodOps {
    std::string label;                          // as it appears in reports
    std::vector<int> classes;                   // ArgClass of each argument
    std::vector<std::string (*)(int)> fmt;      // formatting of each argument
    int ret;                                    // TR_*
    int defCode;
    bool canDefault;
    bool byValueObjects;                        // takes objects by value: SpyWithoutVerify moves the recorded ones away
    int (*canonRet)(int);
    int idx;
    MethodOps() : ret(TR_VALUE), defCode(0), canDefault(true), byValueObjects(false), canonRet(nullptr), idx(0) {}
    virtual ~MethodOps() {}
    virtual int combos() = 0;
    virtual void comboSpec(int combo, std::vector<int> &ms) = 0;
    virtual Leaf *leaf(Box &, const Cond &, int site) = 0;
    // form: 0 one statement per action on a named progress object, 1 chained text where possible
    virtual void stub(Box &, const Cond &, const std::vector<Act> &, int form, int site, bool abandon) = 0;
    // several stubbings written with one named method expression; an unconditional one keeps the condition before it
    virtual void stubMore(Box &, const std::vector<Cond> &, const std::vector<std::vector<Act>> &, int site) = 0;
    virtual void fake(Box &, const Cond &, int site) = 0;
    virtual void assign(Box &, const Cond &, const Act &, int site) = 0;
    virtual void spy(Box &, const Cond &, int site, bool withoutVerify) = 0;
    virtual Res call(Box &, const std::vector<int> &codes) = 0;
};

struct IfaceOps {
    int id;
    bool spyable;
    std::vector<MethodOps *> methods;
    virtual ~IfaceOps() {}
    virtual void *create(void *spied) = 0;           // new Mock
    virtual void destroy(void *mock) = 0;
    virtual void *object(void *mock) = 0;
    virtual void reset(void *mock) = 0;
    virtual void clear(void *mock) = 0;
    virtual const fakeit::ActualInvocationsSource &source(void *mock) = 0;
    virtual void *newReal() { return nullptr; }
    virtual void deleteReal(void *) {}
    virtual bool realIntact(void *) { return true; }
};

IfaceOps &ifaceA();
IfaceOps &ifaceB();
IfaceOps &ifaceC();

// ---------------------------------------------------------------- model
struct Stub {
    Cond cond;
    std::deque<Act> acts;
};
struct MethodState {
    bool bound;
    std::vector<Stub> stubs;
    int origActive;
    long serial;            // which life of the method: a reset begins a new one
    MethodState() : bound(false), origActive(0), serial(nextSerial()++) {}
    static long &nextSerial() { static thread_local long n = 1; return n; }
};
struct Inv {
    int ord;
    int box, method;
    std::vector<int> codes;
    bool verified;
};
struct Box {
    int id;
    IfaceOps *ops;
    void *mock;        // null: no mock, only the real object (spies)
    void *obj;
    bool spy;
    int active;        // calls running on this mock
    std::vector<MethodState> st;
};

struct Frame {
    enum Kind { F_VALUE, F_THROW, F_DO, F_ORIG, F_UNMATCHED, F_UNMOCKED } kind;
    int box, method;
    std::vector<int> codes;
    Act act;
    bool entered;
    bool willThrow;
    int result;
    std::string invText;
};

struct EventRec {
    int type;   // 0 unexpected, 1 sequence, 2 no more
    int handler;
    std::string what;              // kind of unexpected call, kind of count
    std::string method;            // formatted invocation
    long expected, actual;
    std::string file, func;
    int line;
    std::vector<std::string> calls;
};

struct LeafSpec { int box, method; Cond cond; };
struct SeqSpec {
    int kind;                      // 0 leaf, 1 concat, 2 repeat
    LeafSpec leaf;
    std::shared_ptr<SeqSpec> l, r;
    int times;
    SeqSpec() : kind(0), times(1) {}
};

struct Profile {
    std::map<std::string, int> w;   // operation weights
    int minOps, maxOps, domain, bigPercent, nestPercent, spyPercent;
    bool text;                      // judge the report texts as well
    int softPercent;                // percentage of cases with a testing framework adapter that does not throw
    int maxHandlers;
    int terminalPercent;            // stubbings that end with an Always form
    int condPercent;                // stubbings / terms with an argument condition
    int selfPercent;                // actions and originals that reset, clear or destroy the very mock that runs them
    int namedPercent;               // stubbings that go on using one named method expression
    int unwindPercent;              // stubbings made by a destructor while an exception passes
    int againPercent;               // verdicts that are read more than once
    Profile() : minOps(10), maxOps(60), domain(4), bigPercent(3), nestPercent(50), spyPercent(30), text(false),
                softPercent(0), maxHandlers(2), terminalPercent(40), condPercent(55), selfPercent(0), namedPercent(0), unwindPercent(0), againPercent(0) {}
};
Profile profileFor(const std::string &name);

struct World {
    Ctx &ctx;
    Rng &rng;
    Profile prof;
    std::vector<Box *> boxes;
    std::vector<Inv> history;
    std::vector<Frame *> frames;
    std::vector<EventRec> events;
    int nextOrd, nextCode, nextAct, depth, opsLeft;
    int handlers;
    bool soft;
    long balance;               // instance-counted values left behind by run()
    std::vector<std::unique_ptr<Tok>> pool;
    std::map<int, Tok *> canonTok;
    std::map<int, std::string *> canonStr;
    std::vector<std::unique_ptr<std::string>> strPool;
    std::set<std::string> usedNames;

    World(Ctx &c, Rng &r, const Profile &p);
    ~World();
    void run();

    // called by stub code
    int onDo(int actId, const std::vector<int> &codes);          // returns the result code, may throw
    int onOrig(void *obj, int method, const std::vector<int> &codes);

    // storage for reference arguments
    Tok &poolTok(int code) { pool.push_back(std::unique_ptr<Tok>(new Tok(code))); return *pool.back(); }
    Tok &canon(int code) {
        Tok *&t = canonTok[code];
        if (!t) t = &poolTok(code);
        return *t;
    }
    std::string &poolStr(const std::string &s) {
        strPool.push_back(std::unique_ptr<std::string>(new std::string(s)));
        return *strPool.back();
    }
    const char *canonCstr(int code);

    // operations
    void op();
    void opNewMock();
    void opDestroy();
    void opStub();
    void opFake();
    void opAssign();
    void opSpy();
    void opCall();
    void opBurst();
    void opVerify(bool force = false);
    void opNoOther();
    void opReset();
    void opClear();
    void opInvalid();
    void audit();
    void teardown();

    Res doCall(Box &b, int method, const std::vector<int> &codes);
    Res expectedOutcome(Box &b, int method, const std::vector<int> &codes, Frame &f);
    Cond randomCond(MethodOps &m, bool allowNone = true);
    Act randomAct(MethodOps &m, bool terminal);
    std::vector<int> randomCodes(MethodOps &m, Box *b, int method);
    std::vector<int> biasedCodes(Box &b, int method);
    Box *randomBox(bool mocked, bool idle);
    void endBox(Box *b, int how);
    void opSelf(Box &b);
    std::string callText(Box &b, int method, const std::vector<int> &codes);
    std::string condText(MethodOps &m, const Cond &c);
    std::string seqText(const SeqSpec &s);
    SeqSpec randomSeq(int budget);
    void flatten(const SeqSpec &s, std::vector<const LeafSpec *> &into);
    int countMatches(const std::vector<SeqSpec> &pat, const std::vector<int> &seq, std::vector<int> &matched);
    void checkEvents(size_t from, const EventRec &want, const char *where);
    std::vector<std::string> invTexts(const std::vector<int> &seq);
    void fail(const char *key, const std::string &msg) { vh::require(ctx, false, key, msg); }
    void ok(bool b, const char *key, const std::string &msg) { vh::require(ctx, b, key, msg); }
    std::string stateDigest(Box &b, int method);
    friend struct Handler;
};

bool glob(const std::string &pattern, const std::string &text);

} // namespace w
