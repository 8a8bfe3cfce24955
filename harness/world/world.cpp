#include "world.hpp"

#include <thread>

using namespace fakeit;
using vh::str;
using vh::joinInts;

namespace w {

World *&cur() { static thread_local World *c = nullptr; return c; }

// '\x01' in the pattern stands for any text on one line; white space is not significant
static std::string squeeze(const std::string &s) {
    std::string o;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == ' ' || s[i] == '\t' || s[i] == '\n') {
            if (!o.empty() && o[o.size() - 1] != ' ') o += ' ';
        } else o += s[i];
    }
    while (!o.empty() && o[o.size() - 1] == ' ') o.erase(o.size() - 1);
    return o;
}
static bool globRaw(const char *p, const char *t) {
    const char *star = nullptr, *mark = nullptr;
    while (*t) {
        if (*p == '\x01') { star = p++; mark = t; }
        else if (*p == *t) { p++; t++; }
        else if (star) { p = star + 1; t = ++mark; }
        else return false;
    }
    while (*p == '\x01') p++;
    return *p == 0;
}
bool glob(const std::string &pattern, const std::string &text) {
    return globRaw(squeeze(pattern).c_str(), squeeze(text).c_str());
}

// ------------------------------------------------------------- handlers
struct Handler : EventHandler {
    int no;
    explicit Handler(int n) : no(n) {}
    static std::string kind(UnexpectedType t) { return t == UnexpectedType::Unmocked ? "unmocked" : "unmatched"; }
    static std::vector<std::string> texts(const std::vector<Invocation *> &v) {
        std::vector<std::string> r;
        for (size_t i = 0; i < v.size(); i++) r.push_back(v[i]->format());
        return r;
    }
    void handle(const UnexpectedMethodCallEvent &e) override {
        EventRec r;
        r.type = 0; r.handler = no; r.expected = r.actual = 0; r.line = 0;
        r.what = kind(e.getUnexpectedType());
        r.method = e.getInvocation().format();
        cur()->events.push_back(r);
    }
    void handle(const SequenceVerificationEvent &e) override {
        EventRec r;
        r.type = 1; r.handler = no; r.line = e.line();
        r.file = e.file(); r.func = e.callingMethod();
        r.what = e.verificationType() == VerificationType::Exact ? "exactly" : e.verificationType() == VerificationType::AtLeast ? "at least" : "?";
        r.expected = e.expectedCount();
        r.actual = e.actualCount();
        r.calls = texts(e.actualSequence());
        cur()->events.push_back(r);
    }
    void handle(const NoMoreInvocationsVerificationEvent &e) override {
        EventRec r;
        r.type = 2; r.handler = no; r.line = e.line(); r.expected = r.actual = 0;
        r.file = e.file(); r.func = e.callingMethod();
        r.calls = texts(e.unverifedIvocations());
        cur()->events.push_back(r);
    }
};
// events are recorded by the world of the thread, so these can be shared
static Handler theHandlers[] = {Handler(0), Handler(1), Handler(2)};
#ifdef VH_SOFT
static std::string withoutAddresses(std::string s) {
    for (size_t at = 0; (at = s.find("0x", at)) != std::string::npos; at += 2)
        while (at + 2 < s.size() && isxdigit((unsigned char) s[at + 2])) s.erase(at + 2, 1);
    return s;
}
struct Tracing : Handler {      // leaves the report in the trace
    Tracing(int n) : Handler(n) {}
    DefaultEventFormatter formatter;
    template<class E> void both(const E &e) { cur()->ctx.trace(withoutAddresses(vh::clean(formatter.format(e)))); Handler::handle(e); }
    void handle(const UnexpectedMethodCallEvent &e) override { both(e); }
    void handle(const SequenceVerificationEvent &e) override { both(e); }
    void handle(const NoMoreInvocationsVerificationEvent &e) override { both(e); }
};
static Tracing softAdapter(100);
#else
static Handler softAdapter(100);
#endif
static int installedHandlers = -1;

static void installHandlers(int n, bool soft) {
    if (n != installedHandlers) {
        Fakeit.clearEventHandlers();
        for (int i = 0; i < n; i++) Fakeit.addEventHandler(theHandlers[i]);
        installedHandlers = n;
    }
    if (soft) Fakeit.setTestingFrameworkAdapter(softAdapter);
    else Fakeit.resetTestingFrameworkAdapter();
}

// ---------------------------------------------------------------- world
World::World(Ctx &c, Rng &r, const Profile &p)
        : ctx(c), rng(r), prof(p), nextOrd(1), nextCode(100), nextAct(1), depth(0), opsLeft(0), handlers(0), soft(false), balance(0) {
    cur() = this;
    if (vh::option("threads").empty()) {
        handlers = rng.below(p.maxHandlers + 1);
        soft = rng.chance(p.softPercent);
        installHandlers(handlers, soft);
    }
}

World::~World() {
    // only reached with live mocks when a case was abandoned after a violation
    for (size_t i = 0; i < boxes.size(); i++) {
        Box *b = boxes[i];
        if (b->mock && !b->active) b->ops->destroy(b->mock);
        if (b->spy && b->obj && !b->active) b->ops->deleteReal(b->obj);
        delete b;
    }
    cur() = nullptr;
}

const char *World::canonCstr(int code) {
    std::string *&s = canonStr[code];
    if (!s) {
        char b[64];
        snprintf(b, sizeof b, "s%08d", code);
        std::string t(b);
        if (code % 2) t += "-a-string-that-needs-the-heap";
        s = &poolStr(t);
    }
    return s->c_str();
}

Box *World::randomBox(bool mocked, bool idle) {
    std::vector<Box *> c;
    for (size_t i = 0; i < boxes.size(); i++) {
        Box *b = boxes[i];
        if (!b->obj) continue;
        if (mocked && !b->mock) continue;
        if (idle && b->active) continue;
        c.push_back(b);
    }
    return c.empty() ? nullptr : rng.pick(c);
}

std::vector<int> World::randomCodes(MethodOps &m, Box *, int) {
    std::vector<int> c;
    for (size_t i = 0; i < m.classes.size(); i++) {
        int v = rng.below(prof.domain);
        c.push_back(v);
    }
    return c;
}

static int canonArg(MethodOps &m, size_t i, int code) {
    // bool arguments only have two values
    if (m.fmt[i](0) == "false") return code & 1;
    return code;
}

// arguments that are likely to hit some stubbing of the method
std::vector<int> World::biasedCodes(Box &b, int method) {
    MethodOps &m = *b.ops->methods[method];
    std::vector<int> c = randomCodes(m, &b, method);
    MethodState &st = b.st[method];
    if (!st.stubs.empty() && rng.chance(60)) {
        const Stub &s = st.stubs[rng.below((int) st.stubs.size())];
        if (s.cond.kind == CK_USING || s.cond.kind == CK_CALLVALS)
            for (size_t i = 0; i < c.size(); i++)
                if (s.cond.args[i].m >= M_VAL) c[i] = std::max(0, s.cond.args[i].code + (rng.chance(70) ? 0 : rng.range(-1, 1)));
    }
    for (size_t i = 0; i < c.size(); i++) c[i] = canonArg(m, i, c[i]);
    return c;
}

Cond World::randomCond(MethodOps &m, bool allowNone) {
    Cond c;
    int n = (int) m.classes.size();
    if (allowNone && !rng.chance(prof.condPercent)) return c;
    int k = n == 0 ? (rng.chance(50) ? CK_NONE : rng.chance(50) ? CK_MATCHING : CK_CALLPRED)
                   : rng.weighted({0, 55, 15, 15, 15});
    c.kind = k;
    c.replaces = k != CK_NONE && rng.chance(10);
    if (k == CK_MATCHING || k == CK_CALLPRED) {
        c.mul = rng.range(1, 7);
        c.add = rng.below(10);
        c.mod = rng.range(2, 5);
        c.thr = rng.range(1, c.mod);
    } else if (k == CK_USING || k == CK_CALLVALS) {
        std::vector<int> ms;
        c.combo = k == CK_USING ? rng.below(m.combos()) : 0;
        m.comboSpec(c.combo, ms);
        bool movable = true;
        for (int i = 0; i < n; i++) if (m.classes[i] == MOV) movable = false;
        if (k == CK_CALLVALS) for (int i = 0; i < n; i++) ms[i] = movable ? (int) M_VAL : (int) M_WILD;
        if (!movable) for (int i = 0; i < n; i++) if (ms[i] > M_ANYT) ms[i] = M_WILD;
        for (int i = 0; i < n; i++) {
            ArgCond a;
            a.m = ms[i];
            a.code = canonArg(m, i, rng.below(prof.domain));
            c.args.push_back(a);
        }
    }
    return c;
}

std::string World::condText(MethodOps &m, const Cond &c) {
    if (c.kind == CK_NONE) return "( Any arguments )";
    if (c.kind == CK_MATCHING || c.kind == CK_CALLPRED) return "( user defined matcher )";
    std::string s = "(";
    for (size_t i = 0; i < c.args.size(); i++) {
        if (i) s += ", ";
        const ArgCond &a = c.args[i];
        std::string v = m.fmt[i](a.code);
        if (m.classes[i] == CSTR && a.m >= M_EQ && v.size() > 2) v = v.substr(1, v.size() - 2);
        switch (a.m) {
            case M_VAL: case M_EQ: s += v; break;
            case M_NE: s += "!=" + v; break;
            case M_LT: s += "<" + v; break;
            case M_LE: s += "<=" + v; break;
            case M_GT: s += ">" + v; break;
            case M_GE: s += ">=" + v; break;
            default: s += "Any";
        }
    }
    return s + ")";
}

std::string World::callText(Box &b, int method, const std::vector<int> &codes) {
    MethodOps &m = *b.ops->methods[method];
    std::string s = m.label + "(";
    for (size_t i = 0; i < codes.size(); i++) s += (i ? ", " : "") + m.fmt[i](codes[i]);
    return s + ")";
}

std::string World::stateDigest(Box &b, int method) {
    MethodState &s = b.st[method];
    std::ostringstream o;
    o << b.ops->id << "." << method << (b.spy ? "s" : "m") << (s.bound ? "b" : "u") << s.stubs.size() << "/d" << depth << "/";
    for (size_t i = s.stubs.size() > 4 ? s.stubs.size() - 4 : 0; i < s.stubs.size(); i++) {
        o << s.stubs[i].cond.kind << ":";
        for (size_t k = 0; k < s.stubs[i].acts.size() && k < 4; k++) o << s.stubs[i].acts[k].kind << "x" << std::min(3L, s.stubs[i].acts[k].remaining);
        o << ";";
    }
    return o.str();
}

// ------------------------------------------------------------ operations
void World::opNewMock() {
    if (boxes.size() >= 7) return;
    Box *b = new Box();
    b->id = (int) boxes.size();
    int k = rng.weighted({45, 30, 25});
    b->ops = k == 0 ? &ifaceA() : k == 1 ? &ifaceB() : &ifaceC();
    b->spy = b->ops->spyable && rng.chance(prof.spyPercent);
    b->active = 0;
    void *real = b->spy ? b->ops->newReal() : nullptr;
    b->mock = b->ops->create(real);
    b->obj = b->ops->object(b->mock);
    b->st.resize(b->ops->methods.size());
    boxes.push_back(b);
    ctx.obs.count(b->spy ? "spies created" : "mocks created");
    ctx.trace("new box" + str(b->id) + " iface " + str(b->ops->id) + (b->spy ? " spy" : ""));
    if (b->spy) ok(b->obj == real, "spy-object", "a mock of an existing object hands out a different object");
}

static void forgetCalls(std::vector<Inv> &h, int box) {
    std::vector<Inv> keep;
    for (size_t i = 0; i < h.size(); i++) if (h[i].box != box) keep.push_back(h[i]);
    h.swap(keep);
}

// how: 0 destroy, 1 reset, 2 clear the history
void World::endBox(Box *b, int how) {
    if (!b) return;
    if (b->active) ctx.obs.count(how == 0 ? "mocks destroyed by a call of theirs" : how == 1 ? "mocks reset by a call of theirs" : "histories cleared by a call they hold");
    ctx.trace(std::string(how == 0 ? "destroy" : how == 1 ? "reset" : "clear") + " box" + str(b->id));
    if (how == 0) b->ops->destroy(b->mock);
    else if (how == 1) b->ops->reset(b->mock);
    else b->ops->clear(b->mock);
    forgetCalls(history, b->id);
    ctx.obs.count(how == 0 ? "mocks destroyed" : how == 1 ? "resets" : "history clearings");
    if (how == 2) return;
    for (size_t i = 0; i < b->st.size(); i++) b->st[i] = MethodState();
    if (how == 1) return;
    b->mock = nullptr;
    if (!b->spy) b->obj = nullptr;
    else {
        ok(b->ops->realIntact(b->obj), "spied-data", "the data of the spied object changed");
        if (rng.chance(25)) {       // spy the same object again
            b->mock = b->ops->create(b->obj);
            ctx.obs.count("objects spied again");
            ctx.trace("spy again box" + str(b->id));
        }
    }
}

void World::opDestroy() { endBox(randomBox(true, true), 0); }
void World::opReset() { endBox(randomBox(true, !prof.selfPercent || rng.chance(50)), 1); }
void World::opClear() { endBox(randomBox(true, !prof.selfPercent || rng.chance(50)), 2); }

// stub code or an original method turns on the mock that runs it
void World::opSelf(Box &b) {
    if (depth >= 3 || !b.mock || !rng.chance(prof.selfPercent)) return;
    endBox(&b, rng.weighted({30, 50, 20}));
    if (depth < 3 && rng.chance(60)) {      // and uses it again
        depth++;
        for (int i = rng.range(1, 3); i > 0 && opsLeft > 0; i--) op();
        depth--;
    }
}

Act World::randomAct(MethodOps &m, bool terminal) {
    Act a;
    a.id = nextAct++;
    a.code = m.canonRet(nextCode++);
    int k = rng.weighted({45, m.canDefault ? 8 : 0, 20, 35});
    a.kind = k == 0 ? A_RETURN : k == 1 ? A_RETDEF : k == 2 ? A_THROW : A_DO;
    a.etype = rng.below(4);
    a.throwsAfter = a.kind == A_DO && rng.chance(15);
    if (a.kind == A_THROW) a.code = nextCode++;
    if (terminal) a.remaining = -1;
    else if (rng.chance(30)) a.remaining = rng.chance(10) ? 0 : rng.chance(5) ? rng.range(10, 70) : rng.range(1, 4);
    else a.remaining = 1;
    if (a.kind == A_RETDEF && a.remaining >= 0 && m.ret != TR_VOID) a.remaining = 1;
    if (a.kind == A_RETURN && m.ret == TR_REF && a.remaining >= 0) a.remaining = 1;
    if (a.kind == A_RETURN && m.ret == TR_MOVEONLY) {
        if (a.remaining < 0) a.kind = A_DO;
        else a.remaining = 1;
    }
    return a;
}

void World::opStub() {
    Box *b = randomBox(true, false);
    if (!b) return;
    int mi = rng.below((int) b->ops->methods.size());
    if (rng.chance(40)) {        // prefer methods that already have stubbings
        for (int t = 0; t < 4; t++) if (b->st[mi].stubs.empty()) mi = rng.below((int) b->ops->methods.size());
    }
    MethodOps &m = *b->ops->methods[mi];
    Stub s;
    s.cond = randomCond(m);
    int n = rng.chance(10) ? rng.range(5, 12) : rng.range(0, 4);
    bool terminal = rng.chance(prof.terminalPercent);
    if (!terminal && n == 0) n = 1;
    std::vector<Act> acts;
    for (int i = 0; i < n; i++) acts.push_back(randomAct(m, false));
    if (terminal) acts.push_back(randomAct(m, true));
    bool abandon = rng.chance(prof.w["abandon"]);
    int form = rng.below(2), site = rng.below(2);
    if (!abandon && rng.chance(prof.namedPercent)) {
        std::vector<Cond> conds(1, s.cond);
        std::vector<std::vector<Act>> all(1, acts);
        std::vector<Stub> stubs;
        int more = rng.range(1, 3);
        for (int i = 0; i < more; i++) {
            conds.push_back(randomCond(m));
            all.push_back(std::vector<Act>());
            int k = rng.range(0, 2);
            for (int j = 0; j < k; j++) all.back().push_back(randomAct(m, false));
            if (k == 0 || rng.chance(prof.terminalPercent)) all.back().push_back(randomAct(m, true));
        }
        b->st[mi].bound = true;
        for (size_t i = 0; i < conds.size(); i++) {
            Stub t;
            t.cond = conds[i].kind == CK_NONE && i ? stubs.back().cond : conds[i];
            t.acts.assign(all[i].begin(), all[i].end());
            stubs.push_back(t);
            std::ostringstream o;
            o << "stub (named) box" << b->id << " " << m.label << condText(m, t.cond) << " acts";
            for (size_t k = 0; k < all[i].size(); k++) o << " " << all[i][k].kind << "#" << all[i][k].code << "x" << all[i][k].remaining;
            ctx.trace(o.str());
        }
        m.stubMore(*b, conds, all, site);
        b->st[mi].stubs.insert(b->st[mi].stubs.end(), stubs.begin(), stubs.end());
        ctx.obs.count("stubbings with one named expression", (long) stubs.size());
        return;
    }
    if (!abandon && rng.chance(prof.unwindPercent)) {
        struct Late {
            MethodOps &m; Box &b; const Stub &s; const std::vector<Act> &acts; int form, site;
            ~Late() { m.stub(b, s.cond, acts, form, site, false); }
        };
        ctx.trace("stub during unwinding box" + str(b->id) + " " + m.label + condText(m, s.cond));
        b->st[mi].bound = true;
        try {
            Late late = {m, *b, s, acts, form, site};
            throw Abandon(3);
        } catch (const Abandon &) {}
        s.acts.assign(acts.begin(), acts.end());
        b->st[mi].stubs.push_back(s);
        ctx.obs.count("stubbings made during unwinding");
        return;
    }
    std::ostringstream o;
    o << "stub box" << b->id << " " << m.label << condText(m, s.cond) << " acts";
    for (size_t i = 0; i < acts.size(); i++) o << " " << acts[i].kind << "#" << acts[i].code << "x" << acts[i].remaining;
    if (abandon) o << " abandoned";
    ctx.trace(o.str());
    b->st[mi].bound = true;
    bool abandoned = false;
    try {
        m.stub(*b, s.cond, acts, form, site, abandon);
    } catch (const Abandon &) {
        abandoned = true;
    }
    ok(abandoned == abandon, "abandon", "the exception that abandons a stubbing statement did not arrive");
    if (!abandon) {
        s.acts.assign(acts.begin(), acts.end());
        b->st[mi].stubs.push_back(s);
        ctx.obs.count("stubbings");
    } else ctx.obs.count("stubbings abandoned");
}

void World::opFake() {
    Box *b = randomBox(true, false);
    if (!b) return;
    int mi = rng.below((int) b->ops->methods.size());
    MethodOps &m = *b->ops->methods[mi];
    if (!m.canDefault) return;
    Stub s;
    s.cond = randomCond(m);
    Act a;
    a.kind = A_RETDEF;
    a.remaining = -1;
    s.acts.push_back(a);
    ctx.trace("fake box" + str(b->id) + " " + m.label + condText(m, s.cond));
    m.fake(*b, s.cond, rng.below(2));
    b->st[mi].bound = true;
    b->st[mi].stubs.push_back(s);
    ctx.obs.count("fakes");
}

void World::opAssign() {
    Box *b = randomBox(true, false);
    if (!b) return;
    int mi = rng.below((int) b->ops->methods.size());
    MethodOps &m = *b->ops->methods[mi];
    Stub s;
    s.cond = randomCond(m);
    Act a;
    a.id = nextAct++;
    a.code = m.canonRet(nextCode++);
    a.kind = m.ret == TR_VOID || m.ret == TR_MOVEONLY || rng.chance(50) ? A_DO : A_RETURN;
    a.remaining = -1;
    s.acts.push_back(a);
    ctx.trace("assign box" + str(b->id) + " " + m.label + condText(m, s.cond) + " " + str(a.kind) + "#" + str(a.code));
    m.assign(*b, s.cond, a, rng.below(2));
    b->st[mi].bound = true;
    b->st[mi].stubs.push_back(s);
    ctx.obs.count("assignments");
}

void World::opSpy() {
    std::vector<Box *> c;
    for (size_t i = 0; i < boxes.size(); i++) if (boxes[i]->spy && boxes[i]->mock) c.push_back(boxes[i]);
    if (c.empty()) return;
    Box *b = rng.pick(c);
    int mi = rng.below((int) b->ops->methods.size());
    MethodOps &m = *b->ops->methods[mi];
    Stub s;
    s.cond = randomCond(m);
    Act a;
    a.kind = A_ORIG;
    a.remaining = -1;
    s.acts.push_back(a);
    bool without = rng.chance(30) && !m.byValueObjects;
    ctx.trace("spy box" + str(b->id) + " " + m.label + condText(m, s.cond) + (without ? " without verify" : ""));
    m.spy(*b, s.cond, rng.below(2), without);
    b->st[mi].bound = true;
    b->st[mi].stubs.push_back(s);
    ctx.obs.count("spied methods");
}

// What the reference model prescribes for a call; updates the model.
Res World::expectedOutcome(Box &b, int method, const std::vector<int> &codes, Frame &f) {
    Res r;
    MethodOps &m = *b.ops->methods[method];
    MethodState &st = b.st[method];
    f.box = b.id;
    f.method = method;
    f.codes = codes;
    f.entered = false;
    f.willThrow = false;
    f.result = 0;
    f.invText = callText(b, method, codes);
    int ord = nextOrd++;
    int valueKind = m.ret == TR_VOID ? RES_VOID : RES_VALUE;
    if (!b.mock || (!st.bound && b.spy)) {
        f.kind = Frame::F_ORIG;
        r.kind = valueKind;
        return r;
    }
    if (!st.bound) {
        f.kind = Frame::F_UNMOCKED;
        r.kind = RES_UNEXPECTED;
        return r;
    }
    for (size_t i = st.stubs.size(); i-- > 0;) {
        Stub &s = st.stubs[i];
        if (!s.cond.accepts(codes)) continue;
        Inv inv;
        inv.ord = ord;
        inv.box = b.id;
        inv.method = method;
        inv.codes = codes;
        inv.verified = false;
        history.push_back(inv);
        while (!s.acts.empty() && s.acts.front().remaining == 0) s.acts.pop_front();
        if (s.acts.empty()) {
            f.kind = Frame::F_UNMATCHED;
            r.kind = RES_UNEXPECTED;
            ctx.obs.count("calls to exhausted stubbings");
            return r;
        }
        Act &a = s.acts.front();
        if (a.remaining > 0) a.remaining--;
        f.act = a;
        switch (a.kind) {
            case A_RETURN: f.kind = Frame::F_VALUE; r.kind = valueKind; r.code = f.result = a.code; break;
            case A_RETDEF: f.kind = Frame::F_VALUE; r.kind = valueKind; r.code = f.result = m.defCode; break;
            case A_THROW: f.kind = Frame::F_THROW; r.kind = RES_THROW; r.etype = a.etype; r.code = a.code; break;
            case A_DO:
                f.kind = Frame::F_DO;
                f.result = a.code;
                if (a.throwsAfter) { r.kind = RES_THROW; r.etype = 0; r.code = a.code; }
                else { r.kind = valueKind; r.code = a.code; }
                break;
            default: f.kind = Frame::F_ORIG; r.kind = valueKind; break;
        }
        return r;
    }
    f.kind = Frame::F_UNMATCHED;
    r.kind = RES_UNEXPECTED;
    return r;
}

struct ActiveGuard {
    int &n;
    explicit ActiveGuard(int &x) : n(x) { n++; }
    ~ActiveGuard() { n--; }
};
struct FrameGuard {
    std::vector<Frame *> &v;
    FrameGuard(std::vector<Frame *> &x, Frame *f) : v(x) { v.push_back(f); }
    ~FrameGuard() { v.pop_back(); }
};

Res World::doCall(Box &b, int method, const std::vector<int> &codes) {
    MethodOps &m = *b.ops->methods[method];
    Frame f;
    std::string digest = stateDigest(b, method);
    size_t ev = events.size();
    Res want = expectedOutcome(b, method, codes, f);
    Res got;
    ctx.trace("call box" + str(b.id) + " " + callText(b, method, codes));
    {
        ActiveGuard ag(b.active);
        FrameGuard fg(frames, &f);
        long serial = b.st[method].serial;
        if (f.kind == Frame::F_ORIG) b.st[method].origActive++;
        got = m.call(b, codes);
        if (f.kind == Frame::F_ORIG && b.st[method].serial == serial) b.st[method].origActive--;
    }
    ctx.obs.situation(digest + (f.kind == Frame::F_VALUE ? "V" : f.kind == Frame::F_THROW ? "T" : f.kind == Frame::F_DO ? "D" : f.kind == Frame::F_ORIG ? "O" : f.kind == Frame::F_UNMATCHED ? "N" : "U"));
    std::string where = " on " + m.label + "(" + joinInts(codes) + ") of box " + str(b.id) + ": ";
    std::ostringstream o;
    o << "-> " << got.kind << " " << (got.kind == RES_VALUE || got.kind == RES_THROW ? got.code : 0) << " e" << got.etype;
    ctx.trace(o.str());
    if (f.kind == Frame::F_DO || f.kind == Frame::F_ORIG)
        ok(f.entered, "action-not-run", "the action that should serve the call did not run" + where + "got result kind " + str(got.kind) + " code " + str(got.code));
    if (f.kind == Frame::F_ORIG) {
        want.code = m.canonRet(f.result);
        if (f.willThrow) { want.kind = RES_THROW; want.etype = 1; want.code = f.result; }
    }
    if (want.kind == RES_UNEXPECTED) {
        ok(got.kind == RES_UNEXPECTED, "unexpected-call-not-reported", "a call without recorded behaviour was not reported" + where + "result kind " + str(got.kind) + " code " + str(got.code) + " " + got.text);
        std::string text = "Unexpected method invocation: " + (f.kind == Frame::F_UNMOCKED ? std::string("unknown()") : f.invText) +
                           (f.kind == Frame::F_UNMOCKED ? " An unmocked method was invoked. All used virtual methods must be stubbed!"
                                                        : " Could not find any recorded behavior to support this method call.");
        if (prof.text) {
            ok(glob(text, got.text), "unexpected-call-text", "wrong report" + where + got.text + " // expected " + text);
            ctx.trace(text);
        }
        EventRec w;
        w.type = 0;
        w.what = f.kind == Frame::F_UNMOCKED ? "unmocked" : "unmatched";
        w.method = f.kind == Frame::F_UNMOCKED ? "\x01" : f.invText;
        checkEvents(ev, w, "unexpected call");
        ctx.obs.count(f.kind == Frame::F_UNMOCKED ? "unmocked calls" : "unmatched calls");
        return got;
    }
    ok(got.kind != RES_UNEXPECTED, "unexpected-report", "a call with recorded behaviour was reported as unexpected" + where + got.text);
    ok(events.size() == ev || f.kind == Frame::F_DO || f.kind == Frame::F_ORIG, "spurious-event", "an accepted call caused a failure event" + where);
    ok(got.kind == want.kind, "wrong-outcome", "wrong kind of outcome" + where + "got " + str(got.kind) + " expected " + str(want.kind) + " exception type " + str(got.etype) + " " + got.text);
    if (want.kind == RES_VALUE) {
        ok(got.code == want.code, "wrong-result", "wrong result" + where + str(got.code) + " instead of " + str(want.code));
        ok(got.sameObject, "wrong-object", "not the stubbed object" + where);
        ctx.obs.count("calls with result");
    } else if (want.kind == RES_THROW) {
        ok(got.etype == want.etype && got.code == want.code, "wrong-exception",
           "wrong exception" + where + "type " + str(got.etype) + " code " + str(got.code) + " instead of type " + str(want.etype) + " code " + str(want.code) + " " + got.text);
        ctx.obs.count("calls with exception");
    } else ctx.obs.count("void calls");
    if (f.kind == Frame::F_ORIG) ctx.obs.count("calls of original methods");
    return got;
}

int World::onDo(int actId, const std::vector<int> &codes) {
    ok(!frames.empty(), "stray-action", "stub code ran although no call is in progress");
    Frame &f = *frames.back();
    ok(f.kind == Frame::F_DO && f.act.id == actId, "wrong-action",
       "the wrong action ran: " + str(actId) + " instead of " + (f.kind == Frame::F_DO ? str(f.act.id) : "a different kind of outcome") + " for " + f.invText);
    ok(!f.entered, "action-repeated", "an action ran twice for one call of " + f.invText);
    f.entered = true;
    ok(codes == f.codes, "wrong-arguments", "stub code saw arguments " + joinInts(codes) + " instead of " + joinInts(f.codes) + " for " + f.invText);
    Act a = f.act;
    ctx.obs.count("actions run");
    if (depth < 3 && rng.chance(prof.nestPercent)) {
        depth++;
        int n = rng.range(1, 3);
        // sometimes straight back into the same method of the same mock
        if (rng.chance(35)) {
            Box &b = *boxes[f.box];
            std::vector<int> c = rng.chance(60) ? f.codes : biasedCodes(b, f.method);
            ctx.obs.count("re-entrant calls");
            doCall(b, f.method, c);
        }
        for (int i = 0; i < n && opsLeft > 0; i++) op();
        depth--;
    }
    opSelf(*boxes[f.box]);
    if (a.throwsAfter) throw ExA(a.code);
    return a.code;
}

int World::onOrig(void *obj, int method, const std::vector<int> &codes) {
    ok(!frames.empty(), "stray-original", "an original method ran although no call is in progress");
    Frame &f = *frames.back();
    Box &b = *boxes[f.box];
    ok(f.kind == Frame::F_ORIG && f.method == method && b.obj == obj, "wrong-original",
       "original method " + str(method) + " ran where " + f.invText + " was called");
    ok(!f.entered, "original-repeated", "an original method ran twice for one call of " + f.invText);
    f.entered = true;
    ok(codes == f.codes, "wrong-arguments", "an original method saw arguments " + joinInts(codes) + " instead of " + joinInts(f.codes) + " for " + f.invText);
    ctx.obs.count("original methods run");
    int sum = 0;
    for (size_t i = 0; i < codes.size(); i++) sum = sum * 7 + codes[i];
    f.result = 100000 + method * 1000 + sum;
    // one original calls another virtual method of the same object
    if (method == 10 && depth < 3) {
        depth++;
        int other = rng.below(3);
        if (!b.st[other].origActive) doCall(b, other, biasedCodes(b, other));
        depth--;
    }
    else if (depth < 3 && rng.chance(prof.nestPercent / 2)) {
        depth++;
        int n = rng.range(1, 2);
        for (int i = 0; i < n && opsLeft > 0; i++) op();
        ctx.obs.count("original methods that use the mocks");
        depth--;
    }
    opSelf(b);
    if (rng.chance(12)) { f.willThrow = true; throw ExB(f.result); }
    return f.result;
}

void World::opCall() {
    Box *b = randomBox(false, false);
    if (!b) return;
    int mi = rng.below((int) b->ops->methods.size());
    for (int t = 0; t < 3; t++) {          // prefer stubbed methods
        if (!b->st[mi].stubs.empty() || rng.chance(30)) break;
        mi = rng.below((int) b->ops->methods.size());
    }
    if (b->st[mi].origActive) return;      // a spied method running its original: out of scope
    doCall(*b, mi, biasedCodes(*b, mi));
}

void World::opBurst() {
    Box *b = randomBox(true, false);
    if (!b) return;
    int n = rng.chance(20) ? rng.range(45, 60) : rng.range(5, 20);
    ctx.obs.count("bursts");
    for (int i = 0; i < n; i++) {
        int mi = rng.below((int) b->ops->methods.size());
        for (int t = 0; t < 6 && b->st[mi].stubs.empty(); t++) mi = rng.below((int) b->ops->methods.size());
        if (b->st[mi].origActive) continue;
        int save = depth;
        depth = 3;                          // no nesting inside bursts
        doCall(*b, mi, biasedCodes(*b, mi));
        depth = save;
    }
}

// ----------------------------------------------------------- verification
SeqSpec World::randomSeq(int budget) {
    SeqSpec s;
    int k = budget <= 1 ? 0 : rng.weighted({50, 32, 18});
    s.kind = k;
    if (k == 1) {
        s.l.reset(new SeqSpec(randomSeq(budget / 2)));
        s.r.reset(new SeqSpec(randomSeq(budget / 2)));
    } else if (k == 2) {
        s.l.reset(new SeqSpec(randomSeq(budget / 2)));
        s.times = rng.chance(50) ? 2 : rng.range(1, 3);
    } else {
        // prefer calls that really happened
        Box *b = randomBox(true, false);
        int mi = -1;
        std::vector<int> codes;
        if (!history.empty() && rng.chance(75)) {
            const Inv &i = history[rng.below((int) history.size())];
            b = boxes[i.box];
            mi = i.method;
            codes = i.codes;
        }
        if (mi < 0) mi = rng.below((int) b->ops->methods.size());
        s.leaf.box = b->id;
        s.leaf.method = mi;
        s.leaf.cond = randomCond(*b->ops->methods[mi]);
        Cond &c = s.leaf.cond;
        if (!codes.empty() && rng.chance(60))
            for (size_t i = 0; i < c.args.size(); i++) c.args[i].code = codes[i];
    }
    return s;
}

void World::flatten(const SeqSpec &s, std::vector<const LeafSpec *> &into) {
    if (s.kind == 0) into.push_back(&s.leaf);
    else if (s.kind == 1) { flatten(*s.l, into); flatten(*s.r, into); }
    else for (int i = 0; i < s.times; i++) flatten(*s.l, into);
}

std::string World::seqText(const SeqSpec &s) {
    if (s.kind == 0) {
        MethodOps &m = *boxes[s.leaf.box]->ops->methods[s.leaf.method];
        return m.label + condText(m, s.leaf.cond);
    }
    if (s.kind == 1) return seqText(*s.l) + " + " + seqText(*s.r);
    if (s.l->kind == 0) return seqText(*s.l) + " * " + str(s.times);
    return "(" + seqText(*s.l) + ") * " + str(s.times);
}

static bool leafAccepts(const LeafSpec &l, const Inv &i) {
    return l.box == i.box && l.method == i.method && l.cond.accepts(i.codes);
}

// non-overlapping, earliest-first occurrences of the pattern
int World::countMatches(const std::vector<SeqSpec> &pat, const std::vector<int> &seq, std::vector<int> &matched) {
    std::vector<std::vector<const LeafSpec *>> flat;
    for (size_t i = 0; i < pat.size(); i++) {
        flat.push_back(std::vector<const LeafSpec *>());
        flatten(pat[i], flat.back());
    }
    size_t pos = 0;
    int count = 0;
    for (;;) {
        std::vector<int> here;
        size_t p = pos;
        bool complete = true;
        for (size_t k = 0; k < flat.size() && complete; k++) {
            complete = false;
            for (; p + flat[k].size() <= seq.size(); p++) {
                bool all = true;
                for (size_t j = 0; j < flat[k].size() && all; j++) all = leafAccepts(*flat[k][j], history[seq[p + j]]);
                if (all) { complete = true; break; }
            }
            if (complete) {
                for (size_t j = 0; j < flat[k].size(); j++) here.push_back(seq[p + j]);
                p += flat[k].size();
            }
        }
        if (!complete) return count;
        count++;
        matched.insert(matched.end(), here.begin(), here.end());
        pos = p;
    }
}

std::vector<std::string> World::invTexts(const std::vector<int> &seq) {
    std::vector<std::string> v;
    for (size_t i = 0; i < seq.size(); i++) {
        const Inv &x = history[seq[i]];
        v.push_back(callText(*boxes[x.box], x.method, x.codes));
    }
    return v;
}

void World::checkEvents(size_t from, const EventRec &want, const char *where) {
    // events after 'from' that belong to this failure are the last ones
    size_t n = (size_t) handlers + (soft ? 1 : 0);
    ok(events.size() >= from + n, "event-missing", std::string("a registered handler was not told: ") + where + " " + str(events.size() - from) + " of " + str(n));
    size_t base = events.size() - n;
    for (size_t i = 0; i < n; i++) {
        const EventRec &e = events[base + i];
        std::string ctxs = std::string(where) + " handler " + str(i);
        int h = i < (size_t) handlers ? (int) i : 100;
        ok(e.handler == h, "event-order", ctxs + ": delivered to " + str(e.handler));
        ok(e.type == want.type, "event-type", ctxs);
        if (want.type == 0) {
            ok(e.what == want.what, "event-kind", ctxs + ": " + e.what + " instead of " + want.what);
            ok(glob(want.method, e.method), "event-invocation", ctxs + ": " + e.method + " instead of " + want.method);
        }
        if (want.type == 1) {
            ok(e.what == want.what, "event-kind", ctxs + ": " + e.what + " instead of " + want.what);
            ok(e.expected == want.expected, "event-expected", ctxs + ": " + str(e.expected) + " instead of " + str(want.expected));
            ok(e.actual == want.actual, "event-actual", ctxs + ": " + str(e.actual) + " instead of " + str(want.actual));
        }
        if (want.type >= 1) {
            ok(e.file == want.file && e.line == want.line && e.func == want.func, "event-location",
               ctxs + ": " + e.file + ":" + str(e.line) + " " + e.func + " instead of " + want.file + ":" + str(want.line) + " " + want.func);
            ok(e.calls.size() == want.calls.size(), "event-calls", ctxs + ": " + str(e.calls.size()) + " calls instead of " + str(want.calls.size()));
            for (size_t k = 0; k < want.calls.size(); k++)
                ok(glob(want.calls[k], e.calls[k]), "event-calls", ctxs + ": call " + str(k) + " " + e.calls[k] + " instead of " + want.calls[k]);
        }
    }
    events.resize(base);
    ok(events.size() == from || depth > 0, "event-repeated", std::string("handlers were told more than once: ") + where);
    ctx.obs.count("events judged", (long) n);
}

enum Mod { D_NONE, D_EXACT, D_EXACTQ, D_ATLEAST, D_ATLEASTQ, D_ONCE, D_TWICE, D_NEVER, D_ATLEASTONCE, D_ANY, D_EXACTONCE,
    D_BADEXACT, D_BADATLEAST, D_BADEXACTQ, D_BADATLEASTQ, D_ABANDON, D_COUNT };
enum { STATEMENT, BOOL, NOT, AGAIN };
static int abandonNow() { throw Abandon(2); }

#define RUN(E) do { line = __LINE__; if (mode == STATEMENT) { E; } else if (mode == BOOL) { if (E) verdict = 1; else verdict = 0; } \
                    else if (mode == NOT) { if (!(E)) verdict = 0; else verdict = 1; } \
                    else { auto &&e = E; bool first = e, second = e, third = !!e; verdict = first ? 1 : 0; again = (second ? 1 : 0) + (third ? 2 : 0); } } while (0)
#define FORMS(E) switch (mod) { \
    case D_NONE: RUN(E); break; \
    case D_EXACT: RUN(E.Exactly(n)); break; \
    case D_EXACTQ: RUN(E.Exactly(q)); break; \
    case D_ATLEAST: RUN(E.AtLeast(n)); break; \
    case D_ATLEASTQ: RUN(E.AtLeast(q)); break; \
    case D_ONCE: RUN(E.Once()); break; \
    case D_TWICE: RUN(E.Twice()); break; \
    case D_NEVER: RUN(E.Never()); break; \
    case D_ATLEASTONCE: RUN(E.AtLeastOnce()); break; \
    case D_ANY: RUN(E.Any()); break; \
    case D_EXACTONCE: RUN(E.Exactly(Once)); break; \
    case D_BADEXACT: RUN(E.Exactly(-n - 1)); break; \
    case D_BADATLEAST: RUN(E.AtLeast(-n - 1)); break; \
    case D_BADEXACTQ: RUN(E.Exactly(fakeit::Quantity(-n - 1))); break; \
    case D_BADATLEASTQ: RUN(E.AtLeast(fakeit::Quantity(-n - 1))); break; \
    default: RUN(E.Exactly(abandonNow())); break; }
#define FORMS_ARITY(PRE) switch (nseq) { \
    case 1: FORMS(PRE Verify(s(0))); break; \
    case 2: FORMS(PRE Verify(s(0), s(1))); break; \
    default: FORMS(PRE Verify(s(0), s(1), s(2))); break; }

typedef decltype(std::declval<const Sequence &>() + std::declval<const Sequence &>()) Plus;
typedef decltype(std::declval<const Sequence &>() * 2) Rep;

struct Built {          // real objects behind a pattern
    std::vector<std::unique_ptr<Leaf>> leaves;
    std::vector<std::unique_ptr<Plus>> plus;
    std::vector<std::unique_ptr<Rep>> rep;
    const Sequence &build(World &w, const SeqSpec &s) {
        if (s.kind == 0) {
            Box &b = *w.boxes[s.leaf.box];
            leaves.push_back(std::unique_ptr<Leaf>(b.ops->methods[s.leaf.method]->leaf(b, s.leaf.cond, w.rng.below(2))));
            b.st[s.leaf.method].bound = true;
            return leaves.back()->seq();
        }
        const Sequence &l = build(w, *s.l);
        if (s.kind == 1) {
            const Sequence &r = build(w, *s.r);
            plus.push_back(std::unique_ptr<Plus>(new Plus(l + r)));
            return *plus.back();
        }
        rep.push_back(std::unique_ptr<Rep>(new Rep(w.rng.chance(50) ? l * s.times : s.times * l)));
        return *rep.back();
    }
};

struct SourceSpec { bool whole; int box; LeafSpec leaf; };

static void mocksOf(const SeqSpec &s, std::set<int> &into) {
    if (s.kind == 0) into.insert(s.leaf.box);
    else { mocksOf(*s.l, into); if (s.kind == 1) mocksOf(*s.r, into); }
}

void World::opVerify(bool) {
    if (!randomBox(true, false)) return;
    int nseq = rng.weighted({60, 28, 12}) + 1;
    std::vector<SeqSpec> pat;
    for (int i = 0; i < nseq; i++) pat.push_back(randomSeq(rng.chance(50) ? 1 : 6));
    int scope = rng.weighted({45, 22, 16, 17});   // plain, Using, Unverified.Verify, Using(Unverified())
    std::vector<SourceSpec> srcs;
    if (scope == 1 || scope == 3) {
        int k = rng.range(1, 3);
        for (int i = 0; i < k; i++) {
            SourceSpec s;
            s.whole = rng.chance(60);
            if (s.whole) s.box = rng.chance(60) ? pat[0].kind == 0 ? pat[0].leaf.box : randomBox(true, false)->id : randomBox(true, false)->id;
            else { SeqSpec q = randomSeq(1); s.leaf = q.leaf; s.box = q.leaf.box; }
            srcs.push_back(s);
        }
    }
    // ---- the model's view
    std::set<int> mocks;
    for (size_t i = 0; i < pat.size(); i++) mocksOf(pat[i], mocks);
    std::vector<int> seq;
    for (size_t i = 0; i < history.size(); i++) {
        const Inv &x = history[i];
        bool in = false;
        if (scope == 0 || scope == 2) in = mocks.count(x.box) != 0;
        else for (size_t k = 0; k < srcs.size(); k++)
            in = in || (srcs[k].whole ? srcs[k].box == x.box : leafAccepts(srcs[k].leaf, x));
        if (in && scope >= 2 && x.verified) in = false;
        if (in) seq.push_back((int) i);
    }
    std::vector<int> matched;
    int count = countMatches(pat, seq, matched);
    int mod = rng.weighted({16, 14, 6, 14, 6, 6, 5, 6, 6, 6, 3, prof.w["invalid"], prof.w["invalid"], prof.w["invalid"], prof.w["invalid"], prof.w["abandon"]});
    int n = rng.chance(55) ? count : std::max(0, count + rng.range(-2, 2));
    if (rng.chance(3)) n = rng.range(0, 100);
    int mode = rng.weighted({50, 30, 20});
    if (mode != STATEMENT && scope != 3 && rng.chance(prof.againPercent)) mode = AGAIN;     // Unverified(...) is a temporary
    bool pass;
    bool exact = true;
    int wanted = n;
    switch (mod) {
        case D_NONE: case D_ATLEASTONCE: pass = count >= 1; exact = false; wanted = 1; break;
        case D_EXACT: case D_EXACTQ: pass = count == n; break;
        case D_ATLEAST: case D_ATLEASTQ: pass = count >= n; exact = false; break;
        case D_ONCE: case D_EXACTONCE: pass = count == 1; wanted = 1; break;
        case D_TWICE: pass = count == 2; wanted = 2; break;
        case D_NEVER: pass = count == 0; wanted = 0; break;
        default: pass = true;
    }
    std::string text;
    for (size_t i = 0; i < pat.size(); i++) text += (i ? " ... " : "") + seqText(pat[i]);
    std::ostringstream o;
    o << "verify " << text << " scope " << scope << " mod " << mod << " n " << n << " mode " << mode << " of " << seq.size() << " calls: " << count;
    ctx.trace(o.str());
    ctx.obs.situation("verify" + str(scope) + "." + str(mod) + "." + str(mode) + "/" + str(nseq) + "/" + str(std::min<size_t>(seq.size(), 60)) + "/" + str(std::min(count, 20)) + "/" + str(n) + "/" + str(pat[0].kind) + str(matched.size()));
    // ---- the real thing
    Built built;
    std::vector<const Sequence *> seqs;
    for (size_t i = 0; i < pat.size(); i++) seqs.push_back(&built.build(*this, pat[i]));
    std::vector<const ActualInvocationsSource *> sp;
    for (size_t i = 0; i < srcs.size(); i++) {
        Box &b = *boxes[srcs[i].box];
        if (srcs[i].whole) sp.push_back(&b.ops->source(b.mock));
        else {
            built.leaves.push_back(std::unique_ptr<Leaf>(b.ops->methods[srcs[i].leaf.method]->leaf(b, srcs[i].leaf.cond, 0)));
            b.st[srcs[i].leaf.method].bound = true;
            sp.push_back(&built.leaves.back()->src());
        }
    }
    auto s = [&](int i) -> const Sequence & { return *seqs[i]; };
    auto u = [&](int i) -> const ActualInvocationsSource & { return *sp[i]; };
    fakeit::Quantity q(n);
    int line = 0, verdict = -1, again = -1;
    std::string failure, outcome = "none";
    std::string efile, efunc;
    int eline = 0;
    size_t ev = events.size();
    int savedDepth = depth;
    try {
        if (scope == 0) { FORMS_ARITY() }
        else if (scope == 2) { FORMS_ARITY(Unverified.) }
        else if (scope == 1) {
            if (sp.size() == 1) { FORMS_ARITY(Using(u(0)).) }
            else if (sp.size() == 2) { FORMS_ARITY(Using(u(0), u(1)).) }
            else { FORMS_ARITY(Using(u(0), u(1), u(2)).) }
        } else {
            if (sp.size() == 1) { FORMS_ARITY(Using(Unverified(u(0))).) }
            else if (sp.size() == 2) { FORMS_ARITY(Using(Unverified(u(0), u(1))).) }
            else { FORMS_ARITY(Using(Unverified(u(0)), Unverified(u(1), u(2))).) }
        }
    } catch (const SequenceVerificationException &e) {
        outcome = "failure"; failure = e.what(); efile = e.file(); eline = e.line(); efunc = e.callingMethod();
    } catch (const std::invalid_argument &e) { outcome = "invalid"; failure = e.what(); }
    catch (const Abandon &) { outcome = "abandoned"; }
    catch (const NoMoreInvocationsVerificationException &e) { outcome = "nomore"; failure = e.what(); }
    catch (const UnexpectedMethodCallException &e) { outcome = "unexpected"; failure = e.what(); }
    depth = savedDepth;
    std::string where = " for " + text + " scope " + str(scope) + " modifier " + str(mod) + " n " + str(n) + " mode " + str(mode) + ", model counts " + str(count) + " in " + str(seq.size());
    ctx.trace("-> " + outcome + " verdict " + str(verdict));
    if (mod >= D_BADEXACT && mod <= D_BADATLEASTQ) {
        ok(outcome == "invalid", "invalid-count", "a negative count was not refused" + where + ": " + outcome + " " + failure);
        ok(events.size() == ev, "spurious-event", "a refused statement raised a failure" + where);
        ctx.obs.count("invalid counts refused");
        return;
    }
    if (mod == D_ABANDON) {
        ok(outcome == "abandoned", "abandoned-verification", "an abandoned statement ended with " + outcome + where + " " + failure);
        ok(events.size() == ev, "spurious-event", "an abandoned statement raised a failure" + where);
        ctx.obs.count("verifications abandoned");
        return;
    }
    if (mode != STATEMENT) {
        ok(outcome == "none", "boolean-raised", "a verification used as boolean raised " + outcome + where + " " + failure);
        ok(events.size() == ev, "spurious-event", "a verification used as boolean raised an event" + where);
        ok(verdict == (pass ? 1 : 0), pass ? "wrong-verdict-fail" : "wrong-verdict-pass", "wrong verdict " + str(verdict) + where);
        if (mode == AGAIN) {
            ok(again == (pass ? 3 : 0), "verdict-changed", "a verdict changed when it was read again: " + str(again) + where);
            ctx.obs.count("verdicts read again");
        }
    } else if (pass) {
        ok(outcome == "none", "wrong-verdict-fail", "failed although it should pass" + where + ": " + outcome + " " + failure);
        ok(events.size() == ev, "wrong-verdict-fail", "failure event although it should pass" + where);
    } else {
        ok(outcome == (soft ? "none" : "failure"), "wrong-verdict-pass", "ended with " + outcome + " although it should fail" + where + " " + failure);
        EventRec wv;
        wv.type = 1;
        wv.what = exact ? "exactly" : "at least";
        wv.expected = wanted;
        wv.actual = count;
        wv.file = __FILE__;
        wv.line = line;
        wv.func = __func__;
        wv.calls = invTexts(seq);
        checkEvents(ev, wv, "verification");
        if (!soft) {
            ok(efile == __FILE__ && eline == line && efunc == __func__, "wrong-location", "reported at " + efile + ":" + str(eline) + " " + efunc + where);
            if (prof.text) {
                std::string t = std::string(__FILE__) + ":" + str(line) + ": Verification error Expected pattern: " + text + " Expected matches: " + (exact ? "exactly " : "at least ") + str(wanted) +
                                " Actual matches : " + str(count) + " Actual sequence : total of " + str(seq.size()) + " actual invocations" + (seq.empty() ? "." : ":");
                for (size_t i = 0; i < wv.calls.size() && i < 50; i++) t += " " + wv.calls[i];
                if (wv.calls.size() > 50) t += " ...";
                ok(glob(t, failure), "wrong-report", "report is " + failure + " // expected " + t);
                ctx.trace(t);
                if (wv.calls.size() > 50) ctx.obs.count("reports with more than fifty calls");
            }
        }
    }
    if (pass) for (size_t i = 0; i < matched.size(); i++) history[matched[i]].verified = true;
    ctx.obs.count(pass ? "verifications passed" : "verifications failed");
}

void World::opNoOther() {
    if (!randomBox(true, false)) return;
    int k = rng.weighted({60, 28, 12}) + 1;
    Built built;
    std::vector<SourceSpec> srcs;
    std::vector<const ActualInvocationsSource *> sp;
    for (int i = 0; i < k; i++) {
        SourceSpec s;
        s.whole = rng.chance(50);
        if (s.whole) {
            s.box = randomBox(true, false)->id;
            if (!history.empty() && rng.chance(60)) s.box = history[rng.below((int) history.size())].box;
        } else { SeqSpec q = randomSeq(1); s.leaf = q.leaf; s.box = q.leaf.box; }
        srcs.push_back(s);
    }
    std::vector<int> un;
    int total = 0;
    for (size_t i = 0; i < history.size(); i++) {
        const Inv &x = history[i];
        bool in = false;
        for (size_t j = 0; j < srcs.size(); j++) in = in || (srcs[j].whole ? srcs[j].box == x.box : leafAccepts(srcs[j].leaf, x));
        if (in) total++;
        if (in && !x.verified) un.push_back((int) i);
    }
    bool pass = un.empty();
    for (size_t i = 0; i < srcs.size(); i++) {
        Box &b = *boxes[srcs[i].box];
        if (srcs[i].whole) sp.push_back(&b.ops->source(b.mock));
        else {
            built.leaves.push_back(std::unique_ptr<Leaf>(b.ops->methods[srcs[i].leaf.method]->leaf(b, srcs[i].leaf.cond, 1)));
            b.st[srcs[i].leaf.method].bound = true;
            sp.push_back(&built.leaves.back()->src());
        }
    }
    auto u = [&](int i) -> const ActualInvocationsSource & { return *sp[i]; };
    int mode = rng.weighted({50, 30, 20});
    if (mode != STATEMENT && rng.chance(prof.againPercent)) mode = AGAIN;
    int line = 0, verdict = -1, again = -1;
    std::string failure, outcome = "none", efile, efunc;
    int eline = 0;
    size_t ev = events.size();
    ctx.trace("no other, " + str(k) + " sources, mode " + str(mode) + ", unverified " + str(un.size()) + " of " + str(total));
    ctx.obs.situation("noother" + str(mode) + "/" + str(k) + "/" + str(std::min<size_t>(un.size(), 55)) + "/" + str(std::min(total, 55)) + (srcs[0].whole ? "w" : "m"));
    try {
        switch (k) {
            case 1: RUN(VerifyNoOtherInvocations(u(0))); break;
            case 2: RUN(VerifyNoOtherInvocations(u(0), u(1))); break;
            default: RUN(VerifyNoOtherInvocations(u(0), u(1), u(2))); break;
        }
    } catch (const NoMoreInvocationsVerificationException &e) {
        outcome = "failure"; failure = e.what(); efile = e.file(); eline = e.line(); efunc = e.callingMethod();
    } catch (const std::exception &e) { outcome = std::string("exception ") + e.what(); }
    std::string where = " (no other invocations, " + str(k) + " sources, mode " + str(mode) + ", " + str(un.size()) + " of " + str(total) + " calls uncovered)";
    if (mode != STATEMENT) {
        ok(outcome == "none" && events.size() == ev, "boolean-raised", "raised " + outcome + where);
        ok(verdict == (pass ? 1 : 0), pass ? "no-other-fails" : "no-other-passes", "wrong verdict " + str(verdict) + where);
        if (mode == AGAIN) {
            ok(again == (pass ? 3 : 0), "verdict-changed", "a verdict changed when it was read again: " + str(again) + where);
            ctx.obs.count("verdicts read again");
        }
    } else if (pass) {
        ok(outcome == "none" && events.size() == ev, "no-other-fails", "failed although every call is covered" + where + " " + failure);
    } else {
        ok(outcome == (soft ? "none" : "failure"), "no-other-passes", "ended with " + outcome + where);
        EventRec wv;
        wv.type = 2;
        wv.expected = wv.actual = 0;
        wv.file = __FILE__;
        wv.line = line;
        wv.func = __func__;
        wv.calls = invTexts(un);
        checkEvents(ev, wv, "no other invocations");
        if (!soft) {
            ok(efile == __FILE__ && eline == line && efunc == __func__, "wrong-location", "reported at " + efile + ":" + str(eline) + where);
            if (prof.text) {
                std::string t = std::string(__FILE__) + ":" + str(line) + ": Verification error Expected no more invocations!! but the following unverified invocations were found:";
                for (size_t i = 0; i < wv.calls.size() && i < 50; i++) t += " " + wv.calls[i];
                if (wv.calls.size() > 50) t += " ...";
                ok(glob(t, failure), "wrong-report", "report is " + failure + " // expected " + t);
                ctx.trace(t);
            }
        }
    }
    ctx.obs.count(pass ? "no-other checks passed" : "no-other checks failed");
}

void World::opInvalid() {
    // a repetition of zero or fewer times is refused
    Box *b = randomBox(true, false);
    if (!b) return;
    int mi = rng.below((int) b->ops->methods.size());
    std::unique_ptr<Leaf> l(b->ops->methods[mi]->leaf(*b, Cond(), 0));
    b->st[mi].bound = true;
    bool refused = false;
    int n = -rng.below(3);
    int how = rng.below(6);
    size_t ev = events.size();
    try {
        switch (how) {
            case 0: Verify(l->seq() * n); break;
            case 1: Verify(n * l->seq()); break;
            case 2: Verify(l->seq() + l->seq() * n).Never(); break;
            case 3: { bool never = Verify(n * (l->seq() + l->seq())).Any(); (void) never; break; }
            case 4: Verify(l->seq()).Exactly(2_Time); break;
            default: Verify(l->seq()).AtLeast(0_Time); break;
        }
    } catch (const std::invalid_argument &) { refused = true; }
    ok(refused, "invalid-repetition", "a pattern repeated " + str(n) + " times was not refused, form " + str(how));
    ok(events.size() == ev, "spurious-event", "a refused repetition raised a failure, form " + str(how));
    ctx.obs.count("invalid repetitions refused");
}

void World::op() {
    opsLeft--;
    static const bool threaded = !vh::option("threads").empty();
    if (threaded && (opsLeft & 3) == 0) std::this_thread::yield();
    static const char *names[] = {"new", "destroy", "stub", "fake", "assign", "spy", "call", "burst", "verify", "noother", "reset", "clear", "invalidrep"};
    std::vector<int> ws;
    for (size_t i = 0; i < sizeof names / sizeof *names; i++) ws.push_back(prof.w[names[i]]);
    switch (rng.weighted(ws)) {
        case 0: opNewMock(); break;
        case 1: opDestroy(); break;
        case 2: opStub(); break;
        case 3: opFake(); break;
        case 4: opAssign(); break;
        case 5: opSpy(); break;
        case 6: opCall(); break;
        case 7: opBurst(); break;
        case 8: opVerify(); break;
        case 9: opNoOther(); break;
        case 10: opReset(); break;
        case 11: opClear(); break;
        default: opInvalid(); break;
    }
}

// At the end of a case: what every mock says about its whole history, and one more call of everything.
void World::audit() {
    depth = 3;
    for (size_t bi = 0; bi < boxes.size(); bi++) {
        Box &b = *boxes[bi];
        if (!b.mock) {
            if (b.obj)
                for (size_t mi = 0; mi < b.ops->methods.size(); mi++) doCall(b, (int) mi, biasedCodes(b, (int) mi));
            continue;
        }
        for (size_t mi = 0; mi < b.ops->methods.size(); mi++) {
            if (rng.chance(40)) doCall(b, (int) mi, biasedCodes(b, (int) mi));
            if (!b.st[mi].bound) continue;
            int n = 0;
            for (size_t i = 0; i < history.size(); i++) if (history[i].box == b.id && history[i].method == (int) mi) n++;
            std::unique_ptr<Leaf> l(b.ops->methods[mi]->leaf(b, Cond(), 0));
            bool good = Verify(l->seq()).Exactly(n);
            ok(good, "audit-count", "the number of recorded calls of " + b.ops->methods[mi]->label + " is not " + str(n));
            for (size_t i = 0; i < history.size(); i++) if (history[i].box == b.id && history[i].method == (int) mi) history[i].verified = true;
        }
        bool none = VerifyNoOtherInvocations(b.ops->source(b.mock));
        ok(none, "audit-rest", "calls besides the recorded ones");
    }
    depth = 0;
}

void World::teardown() {
    while (true) {
        std::vector<Box *> c;
        for (size_t i = 0; i < boxes.size(); i++) if (boxes[i]->mock) c.push_back(boxes[i]);
        if (c.empty()) break;
        Box *b = rng.pick(c);
        b->ops->destroy(b->mock);
        b->mock = nullptr;
        forgetCalls(history, b->id);
        if (!b->spy) b->obj = nullptr;
    }
    for (size_t i = 0; i < boxes.size(); i++) {
        Box *b = boxes[i];
        if (!b->spy) continue;
        for (size_t mi = 0; mi < b->ops->methods.size(); mi++)
            doCall(*b, (int) mi, biasedCodes(*b, (int) mi));
        ok(b->ops->realIntact(b->obj), "spied-data", "the data of the spied object changed");
        b->ops->deleteReal(b->obj);
        b->obj = nullptr;
    }
}

void World::run() {
    long live = vh::tokStats().live;
    vh::tokStats().bad = 0;
    opsLeft = rng.range(prof.minOps, prof.maxOps);
    if (rng.chance(prof.bigPercent)) opsLeft *= 4;
    opNewMock();
    if (rng.chance(60)) opNewMock();
    while (opsLeft > 0) op();
    audit();
    teardown();
    ok(events.empty(), "stray-event", "events that belong to no failure");
    for (size_t i = 0; i < boxes.size(); i++) delete boxes[i];
    boxes.clear();
    canonTok.clear();
    pool.clear();
    vh::expect(ctx, vh::tokStats().bad == 0, "value-use", "a value was used or destroyed after its destruction");
    balance = vh::tokStats().live - live;
}

Profile profileFor(const std::string &name) {
    Profile p;
    std::map<std::string, int> &w = p.w;
    w["new"] = 4; w["destroy"] = 2; w["stub"] = 22; w["fake"] = 4; w["assign"] = 4; w["spy"] = 5; w["call"] = 40; w["burst"] = 1;
    w["verify"] = 16; w["noother"] = 6; w["reset"] = 1; w["clear"] = 1; w["invalidrep"] = 0; w["abandon"] = 4; w["invalid"] = 1;
    if (name == "actions") {            // P02
        p.namedPercent = 12; w["call"] = 55; w["burst"] = 5; w["verify"] = 6; w["noother"] = 2; p.nestPercent = 65; p.terminalPercent = 30; p.condPercent = 25; p.spyPercent = 10;
    } else if (name == "recent") {      // P03
        p.namedPercent = 15; p.unwindPercent = 8; w["stub"] = 35; w["abandon"] = 12; p.condPercent = 75; p.terminalPercent = 25; p.maxOps = 90; p.spyPercent = 10;
    } else if (name == "unexpected") {  // P08
        w["stub"] = 12; w["call"] = 55; w["reset"] = 4; p.text = true; p.softPercent = 30; p.maxHandlers = 3; p.condPercent = 75; p.terminalPercent = 10;
    } else if (name == "counting") {    // P09
        w["verify"] = 40; w["noother"] = 2; w["burst"] = 4; w["stub"] = 14; w["fake"] = 8; p.domain = 3; p.terminalPercent = 80; p.spyPercent = 10; p.nestPercent = 20;
    } else if (name == "history") {     // P10
        w["verify"] = 32; w["new"] = 8; w["clear"] = 2; p.nestPercent = 75; p.terminalPercent = 60; p.softPercent = 5;
    } else if (name == "verified") {    // P11
        p.againPercent = 20; w["verify"] = 30; w["noother"] = 22; w["fake"] = 8; p.domain = 3; p.terminalPercent = 80; p.nestPercent = 20; p.spyPercent = 10;
    } else if (name == "verdict") {     // P12
        p.againPercent = 30; w["verify"] = 40; w["noother"] = 12; w["abandon"] = 12; w["invalid"] = 6; w["invalidrep"] = 4; p.maxHandlers = 3; p.softPercent = 25; p.terminalPercent = 70;
    } else if (name == "reports") {     // P13
        w["verify"] = 40; w["noother"] = 14; w["burst"] = 8; p.text = true; p.maxHandlers = 2; p.terminalPercent = 80; p.domain = 5; p.bigPercent = 10;
    } else if (name == "events") {      // P14
        w["verify"] = 30; w["noother"] = 12; p.text = true; p.maxHandlers = 3; p.softPercent = 50; p.terminalPercent = 40;
    } else if (name == "spy") {         // P16
        p.selfPercent = 12; w["spy"] = 22; w["destroy"] = 6; w["reset"] = 4; w["stub"] = 10; p.spyPercent = 95; w["new"] = 8;
    } else if (name == "reset") {       // P17
        p.selfPercent = 12; w["reset"] = 8; w["clear"] = 8; p.maxOps = 90;
    } else if (name == "lifetime") {    // P20
        p.namedPercent = 15; p.unwindPercent = 8; p.againPercent = 20; p.selfPercent = 12; w["reset"] = 4; w["clear"] = 4; w["destroy"] = 8; w["new"] = 12; w["abandon"] = 10; w["invalid"] = 3; p.softPercent = 15; p.bigPercent = 8;
    } else if (name == "trace") {       // P22 P23 P24
        p.text = true; p.softPercent = 0; p.bigPercent = 5; w["abandon"] = 5; w["invalid"] = 2; w["burst"] = 2; w["reset"] = 3; w["clear"] = 3;
    }
#ifdef VH_SOFT
    p.softPercent = 100;
#endif
    return p;
}

} // namespace w
