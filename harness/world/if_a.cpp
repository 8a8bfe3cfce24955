// A concrete class with a virtual destructor: mocked and spied.
#include "methods.hpp"

namespace w {

static const unsigned GUARD = 0x5afe5afeu;

enum { a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, N_A };

struct IA {
    unsigned guard1;
    int state;
    std::string text;
    unsigned guard2;
    IA() : guard1(GUARD), state(5), text("kept text that needs the heap, really"), guard2(GUARD) {}
    static int o(const void *self, int m, std::vector<int> codes) { return cur()->onOrig(const_cast<void *>(self), m, codes); }
    virtual int f0() { return o(this, a0, {}); }
    virtual int f1(int x) { return o(this, a1, {x}); }
    virtual int f2(int x, int y) { return o(this, a2, {x, y}); }
    virtual void f3(int x) { o(this, a3, {x}); }
    virtual ~IA() { guard1 = guard2 = 0; }
    virtual std::string f4(const std::string &s) { return encStr(o(this, a4, {decStr(s)})); }
    virtual Tok f5(Tok t) { return Tok(o(this, a5, {t.get()})); }
    virtual int f6(int x) const { return o(this, a6, {x}); }
    virtual int ov(int x) { return o(this, a7, {x}); }
    virtual int ov(const std::string &s) { return o(this, a8, {decStr(s)}); }
    virtual int ov(int x) const { return o(this, a9, {x}); }
    virtual int f10(int x) { return o(this, a10, {x}); }
    virtual bool f11(bool b, char c) { return o(this, a11, {b ? 1 : 0, Enc<char>::code(c)}) & 1; }
};

VH_METHOD(Ma0, IA, mkA, f0, true, , Method(mkA, f0), int)
VH_METHOD(Ma1, IA, mkA, f1, true, , Method(mkA, f1), int, int)
VH_METHOD(Ma2, IA, mkA, f2, true, , Method(mkA, f2), int, int, int)
VH_METHOD(Ma3, IA, mkA, f3, true, , Method(mkA, f3), void, int)
VH_METHOD(Ma4, IA, mkA, f4, true, , Method(mkA, f4), std::string, const std::string &)
VH_METHOD(Ma5, IA, mkA, f5, true, , Method(mkA, f5), Tok, Tok)
VH_METHOD(Ma6, IA, mkA, f6, true, const, Method(mkA, f6), int, int)
VH_METHOD(Ma7, IA, mkA, ov, true, , OverloadedMethod(mkA, ov, int(int)), int, int)
VH_METHOD(Ma8, IA, mkA, ov, true, , OverloadedMethod(mkA, ov, int(const std::string &)), int, const std::string &)
VH_METHOD(Ma9, IA, mkA, ov, true, const, ConstOverloadedMethod(mkA, ov, int(int)), int, int)
VH_METHOD(Ma10, IA, mkA, f10, true, , Method(mkA, f10), int, int)
VH_METHOD(Ma11, IA, mkA, f11, true, , Method(mkA, f11), bool, bool, char)

struct OpsA : IfaceOps {
    OpsA() {
        id = 0;
        spyable = true;
        MethodOps *m[] = {new Ma0(a0), new Ma1(a1), new Ma2(a2), new Ma3(a3), new Ma4(a4), new Ma5(a5), new Ma6(a6),
                          new Ma7(a7), new Ma8(a8), new Ma9(a9), new Ma10(a10), new Ma11(a11)};
        methods.assign(m, m + N_A);
    }
    ~OpsA() { for (size_t i = 0; i < methods.size(); i++) delete methods[i]; }
    void *create(void *spied) override {
        return spied ? new Mock<IA>(*static_cast<IA *>(spied)) : new Mock<IA>();
    }
    void destroy(void *m) override { delete static_cast<Mock<IA> *>(m); }
    void *object(void *m) override { return &static_cast<Mock<IA> *>(m)->get(); }
    void reset(void *m) override { static_cast<Mock<IA> *>(m)->Reset(); }
    void clear(void *m) override { static_cast<Mock<IA> *>(m)->ClearInvocationHistory(); }
    const fakeit::ActualInvocationsSource &source(void *m) override { return *static_cast<Mock<IA> *>(m); }
    void *newReal() override { return new IA(); }
    void deleteReal(void *p) override { delete static_cast<IA *>(p); }
    bool realIntact(void *p) override {
        IA *a = static_cast<IA *>(p);
        return a->guard1 == GUARD && a->guard2 == GUARD && a->state == 5 && a->text == "kept text that needs the heap, really";
    }
};

IfaceOps &ifaceA() { static OpsA o; return o; }

} // namespace w
