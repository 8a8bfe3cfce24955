// Results that do not fit the sweep: move-only, without default, abstract, arrays, functions, various exceptions.
#include "results.hpp"

namespace ty {

typedef std::unique_ptr<Tok> UTok;
struct NoDef { int n; explicit NoDef(int x) : n(x) {} };
struct NoDefTok { Tok t; long pad[6]; explicit NoDefTok(int x) : t(x) { pad[5] = x; } };
struct Abs { virtual int id() const = 0; virtual ~Abs() {} };
struct Conc : Abs { int id() const override { return 17; } };
struct MoveOnly { Tok t; explicit MoveOnly(int n) : t(n) {} MoveOnly(MoveOnly &&) = default; MoveOnly &operator=(MoveOnly &&) = default; MoveOnly(const MoveOnly &) = delete; };

struct IX {
    virtual UTok up(int) = 0;
    virtual MoveOnly mo() = 0;
    virtual NoDef nd() = 0;
    virtual NoDefTok ndt(Tok) = 0;
    virtual NoDef &ndr() = 0;
    virtual NoDef *ndp() = 0;
    virtual Abs &ar() = 0;
    virtual Abs *ap() = 0;
    virtual const Abs &acr() = 0;
    virtual int (&arr())[3] = 0;
    virtual FnPtr fn() = 0;
    virtual std::shared_ptr<Abs> sp() = 0;
    virtual void v() = 0;
    virtual volatile int &vi() = 0;
    virtual std::pair<UTok, int> pr() = 0;
    virtual char16_t c16() = 0;
    virtual char32_t c32() = 0;
    virtual const char *cs() = 0;
    virtual std::function<int(int)> sf() = 0;
    virtual ~IX() {}
};

template<class F> bool noDefault(F f) {
    try { f(); } catch (const DefaultValueInstatiationException &e) { return !e.what().empty(); } catch (...) {}
    return false;
}

void oddResults(Ctx &c, Rng &r) {
    fakeit::Mock<IX> m;
    IX &i = m.get();
    int kind = r.below(10);
    std::string what = "odd result " + str(kind);
    auto unexpected = [&](std::function<void()> f) {
        bool t = false;
        try { f(); } catch (const UnexpectedMethodCallException &) { t = true; }
        vh::expect(c, t, "result-exhausted", what + ": served more often than stubbed");
    };
    switch (kind) {
        case 0: {
            UTok a(new Tok(1)), b(new Tok(2));
            const Tok *pa = a.get(), *pb = b.get();
            bool all = r.chance(50);
            When(Method(m, up)).Return(std::move(a)).Return(std::move(b));
            UTok x = i.up(1);
            vh::expect(c, x.get() == pa, "result-moved", what + ": not the object given");
            if (all) { UTok y = i.up(1); vh::expect(c, y.get() == pb, "result-moved", what); unexpected([&] { i.up(1); }); }
            break;
        }
        case 1: {
            int n = r.below(100);
            When(Method(m, mo)).Return(MoveOnly(n)).Do([n] { return MoveOnly(n + 1); });
            MoveOnly x = i.mo(), y = i.mo();
            vh::expect(c, x.t.get() == n && y.t.get() == n + 1, "result-moved", what);
            unexpected([&] { i.mo(); });
            break;
        }
        case 2: {
            // there is no default to return
            if (r.chance(50)) { Fake(Method(m, nd)); Fake(Method(m, ndt)); }
            else { When(Method(m, nd)).AlwaysReturn(); When(Method(m, ndt)).AlwaysReturn(); }
            for (int n = 0; n < 2; n++) {
                vh::expect(c, noDefault([&] { i.nd(); }), "result-no-default", what + ": no error for a type without default");
                vh::expect(c, noDefault([&] { i.ndt(Tok(3)); }), "result-no-default", what + ": no error for a class without default");
            }
            When(Method(m, nd)).Return(NoDef(4));
            vh::expect(c, i.nd().n == 4, "result-value", what);
            When(Method(m, ndt)).Return(NoDefTok(5), NoDefTok(6));
            NoDefTok q = i.ndt(Tok(1)), w = i.ndt(Tok(2));
            vh::expect(c, q.t.get() == 5 && q.pad[5] == 5 && w.t.get() == 6 && w.pad[5] == 6, "result-value", what);
            break;
        }
        case 3: {
            NoDef x(3);
            When(Method(m, ndr)).Return(x).AlwaysReturn(x);
            vh::expect(c, &i.ndr() == &x && &i.ndr() == &x, "result-identity", what);
            Fake(Method(m, ndp));
            vh::expect(c, i.ndp() == nullptr, "result-default", what);
            When(Method(m, ndp)).Return(&x);
            vh::expect(c, i.ndp() == &x, "result-identity", what);
            break;
        }
        case 4: {
            Conc x, y;
            When(Method(m, ar)).Return(x).AlwaysReturn(y);
            When(Method(m, acr)).AlwaysReturn(x);
            vh::expect(c, &i.ar() == &x && &i.ar() == &y && &i.ar() == &y && i.ar().id() == 17 && &i.acr() == &x, "result-identity", what);
            Fake(Method(m, ap));
            vh::expect(c, i.ap() == nullptr, "result-default", what);
            Method(m, ap) = &y;
            vh::expect(c, i.ap() == &y && i.ap() == &y, "result-identity", what);
            break;
        }
        case 5: {
            When(Method(m, fn)).Return(&someFunction<3>, nullptr);
            vh::expect(c, i.fn() == &someFunction<3> && i.fn() == nullptr, "result-identity", what);
            Fake(Method(m, fn));
            vh::expect(c, i.fn() == nullptr, "result-default", what);
            break;
        }
        case 6: {
            std::shared_ptr<Abs> s(new Conc);
            When(Method(m, sp)).Return(s).Return(nullptr).AlwaysReturn(s);
            vh::expect(c, i.sp() == s && i.sp() == nullptr && i.sp() == s && i.sp()->id() == 17, "result-identity", what);
            m.Reset();
            vh::expect(c, s.use_count() == 1, "result-released", what + ": the result is kept after reset");
            Fake(Method(m, sp));
            vh::expect(c, i.sp() == nullptr, "result-default", what);
            break;
        }
        case 8: {
            const char *txt = "a text";
            Fake(Method(m, c16), Method(m, c32), Method(m, cs), Method(m, sf));
            vh::expect(c, i.c16() == 0 && i.c32() == 0 && i.cs() == nullptr && !i.sf(), "result-default", what);
            When(Method(m, c16)).Return(u'x', (char16_t) 0xffff);
            When(Method(m, c32)).Return(U'y', (char32_t) 0x10ffff);
            When(Method(m, cs)).Return(txt, "literal");
            When(Method(m, sf)).Return([](int x) { return x + 5; });
            vh::expect(c, i.c16() == u'x' && i.c16() == 0xffff && i.c32() == U'y' && i.c32() == 0x10ffff && i.cs() == txt && !strcmp(i.cs(), "literal") && i.sf()(4) == 9, "result-value", what);
            break;
        }
        case 7: {
            volatile int x = 4;
            When(Method(m, v)).Return().Return(2_Times).Throw(5);
            i.v(); i.v(); i.v();
            int got = 0;
            try { i.v(); } catch (int e) { got = e; }
            vh::expect(c, got == 5, "result-exception", what);
            unexpected([&] { i.v(); });
            When(Method(m, v)).Return(Times<2>::Void()).Do([&x] { x = 6; });
            i.v(); i.v(); i.v();
            vh::expect(c, x == 6, "result-value", what);
            unexpected([&] { i.v(); });
            When(Method(m, v)).AlwaysReturn();
            for (int n = 0; n < 5; n++) i.v();
            break;
        }
        default: {
            // exceptions of basic types
            int got = 0;
            const char *lit = "literal";
            When(Method(m, v)).Throw(42).Throw(2.5).Throw(lit).Throw(std::string("text")).Throw(std::runtime_error("what")).Throw(std::make_shared<int>(9)).Throw(Level::HIGH);
            try { i.v(); } catch (int e) { got += e == 42; } catch (...) {}
            try { i.v(); } catch (double e) { got += e == 2.5; } catch (...) {}
            try { i.v(); } catch (const char *e) { got += e == lit; } catch (...) {}
            try { i.v(); } catch (const std::string &e) { got += e == "text"; } catch (...) {}
            try { i.v(); } catch (const std::exception &e) { got += typeid(e) == typeid(std::runtime_error) && std::string("what") == e.what(); } catch (...) {}
            try { i.v(); } catch (const SharedInt &e) { got += *e == 9; } catch (...) {}
            try { i.v(); } catch (Level e) { got += e == Level::HIGH; } catch (...) {}
            vh::expect(c, got == 7, "result-exception", what + ": " + str(got) + " of 7 exceptions arrived");
            unexpected([&] { i.v(); });
        }
    }
    c.obs.situation(what);
}

static Register r1("odd results 1", &oddResults), r2("odd results 2", &oddResults), r3("odd results 3", &oddResults);

} // namespace ty
