// A pure interface without virtual destructor and with the more awkward signatures.
#include "methods.hpp"

namespace w {

enum { b0, b1, b2, b3, b4, b5, b6, b7, b8, N_B };

struct IB {
    virtual int g0(int) = 0;
    virtual Tok &g1(Tok &) = 0;
    virtual void g2(Tok &&) = 0;
    virtual const char *g3(const char *) = 0;
    virtual std::unique_ptr<Tok> g4(std::unique_ptr<Tok>) = 0;
    virtual double g5(double, int, bool, std::string) = 0;
    virtual void g6() = 0;
    virtual Tok *g7(Tok *) = 0;
    virtual NP g8(std::vector<int>, NP) = 0;
};

VH_METHOD(Mb0, IB, mkB, g0, false, , Method(mkB, g0), int, int)
VH_METHOD(Mb1, IB, mkB, g1, false, , Method(mkB, g1), Tok &, Tok &)
VH_METHOD(Mb2, IB, mkB, g2, false, , Method(mkB, g2), void, Tok &&)
VH_METHOD(Mb3, IB, mkB, g3, false, , Method(mkB, g3), const char *, const char *)
VH_METHOD(Mb4, IB, mkB, g4, false, , Method(mkB, g4), std::unique_ptr<Tok>, std::unique_ptr<Tok>)
VH_METHOD(Mb5, IB, mkB, g5, false, , Method(mkB, g5), double, double, int, bool, std::string)
VH_METHOD(Mb6, IB, mkB, g6, false, , Method(mkB, g6), void)
VH_METHOD(Mb7, IB, mkB, g7, false, , Method(mkB, g7), Tok *, Tok *)
VH_METHOD(Mb8, IB, mkB, g8, false, , Method(mkB, g8), NP, std::vector<int>, NP)

struct OpsB : IfaceOps {
    OpsB() {
        id = 1;
        spyable = false;
        MethodOps *m[] = {new Mb0(b0), new Mb1(b1), new Mb2(b2), new Mb3(b3), new Mb4(b4), new Mb5(b5), new Mb6(b6),
                          new Mb7(b7), new Mb8(b8)};
        methods.assign(m, m + N_B);
    }
    ~OpsB() { for (size_t i = 0; i < methods.size(); i++) delete methods[i]; }
    void *create(void *) override { return new Mock<IB>(); }
    void destroy(void *m) override { delete static_cast<Mock<IB> *>(m); }
    void *object(void *m) override { return &static_cast<Mock<IB> *>(m)->get(); }
    void reset(void *m) override { static_cast<Mock<IB> *>(m)->Reset(); }
    void clear(void *m) override { static_cast<Mock<IB> *>(m)->ClearInvocationHistory(); }
    const fakeit::ActualInvocationsSource &source(void *m) override { return *static_cast<Mock<IB> *>(m); }
};

IfaceOps &ifaceB() { static OpsB o; return o; }

} // namespace w
