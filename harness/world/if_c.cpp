// A pure interface at the end of a chain of single inheritance.
#include "methods.hpp"

namespace w {

enum { c0, c1, c2, c3, N_C };

struct C0 {
    virtual int h0(int) = 0;
    virtual ~C0() {}
    virtual void h1(std::string) = 0;
};
struct C1 : C0 {
    virtual long h2(short, unsigned) = 0;
    int h0(int) override = 0;
};
struct IC : C1 {
    void h1(std::string) override = 0;
    virtual std::string h3(Tok, const Tok &) = 0;
};

VH_METHOD(Mc0, IC, mkC, h0, false, , Method(mkC, h0), int, int)
VH_METHOD(Mc1, IC, mkC, h1, false, , Method(mkC, h1), void, std::string)
VH_METHOD(Mc2, IC, mkC, h2, false, , Method(mkC, h2), long, short, unsigned)
VH_METHOD(Mc3, IC, mkC, h3, false, , Method(mkC, h3), std::string, Tok, const Tok &)

struct OpsC : IfaceOps {
    OpsC() {
        id = 2;
        spyable = false;
        MethodOps *m[] = {new Mc0(c0), new Mc1(c1), new Mc2(c2), new Mc3(c3)};
        methods.assign(m, m + N_C);
    }
    ~OpsC() { for (size_t i = 0; i < methods.size(); i++) delete methods[i]; }
    void *create(void *) override { return new Mock<IC>(); }
    void destroy(void *m) override { delete static_cast<Mock<IC> *>(m); }
    void *object(void *m) override { return &static_cast<Mock<IC> *>(m)->get(); }
    void reset(void *m) override { static_cast<Mock<IC> *>(m)->Reset(); }
    void clear(void *m) override { static_cast<Mock<IC> *>(m)->ClearInvocationHistory(); }
    const fakeit::ActualInvocationsSource &source(void *m) override { return *static_cast<Mock<IC> *>(m); }
};

IfaceOps &ifaceC() { static OpsC o; return o; }

} // namespace w
