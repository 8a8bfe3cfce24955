// The mock object as an instance of its type (P19): dynamic type and casts, alignment, data members.
#pragma once
#include "values.hpp"

namespace ty {

struct Unrelated { virtual ~Unrelated() {} virtual int root(int) { return 0; } };

template<class T> struct Root { virtual int root(int) = 0; T r; };
template<class T> struct Mid : Root<T> { char pad; virtual int mid(int) = 0; T a; short tail; };
template<class T> struct Leaf : Mid<T> { char inTail; virtual int leaf(int) { return 1; } T c; T d; int root(int x) override { return x; } };
template<class T> struct Sibling : Mid<T> { T c; int mid(int) override { return 2; } };
template<class T> struct PlainFirst { T r; };
template<class T> struct OverPlain : PlainFirst<T> { virtual int root(int) = 0; T a; virtual ~OverPlain() {} };
template<class T> struct alignas(64) Cache : Mid<T> { T c; };

template<class T, class C> struct Member { const char *name; T C::*ptr; };

template<class T> bool sameT(const T &a, const T &b) { return a == b; }
inline bool sameT(float a, float b) { return memcmp(&a, &b, sizeof a) == 0; }
inline bool sameT(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }

template<class T, class C> bool zeroed(const C &o, T C::*m) {
    const unsigned char *p = reinterpret_cast<const unsigned char *>(&(o.*m));
    for (size_t i = 0; i < sizeof(T); i++) if (p[i]) return false;
    return true;
}

// what the class allows
template<class T, class C> struct Casts;
template<class T, class C, bool isMid> struct CastsMid {
    static void judge(Ctx &c, C &o, const std::string &who) {
        Mid<T> *m = &o;
        vh::expect(c, dynamic_cast<C *>(m) == &o, "cast", who + ": down-cast from the second base");
        Root<T> *r = m;
        vh::expect(c, dynamic_cast<Mid<T> *>(r) == m, "cast", who + ": cast between bases");
        vh::expect(c, (dynamic_cast<Leaf<T> *>(m) != nullptr) == std::is_same<C, Leaf<T>>::value, "cast", who + ": cast to Leaf");
        vh::expect(c, (dynamic_cast<Sibling<T> *>(r) != nullptr) == std::is_same<C, Sibling<T>>::value, "cast", who + ": cast to Sibling");
        vh::expect(c, (dynamic_cast<Cache<T> *>(r) != nullptr) == std::is_same<C, Cache<T>>::value, "cast", who + ": cast to Cache");
    }
};
template<class T, class C> struct CastsMid<T, C, false> { static void judge(Ctx &, C &, const std::string &) {} };
template<class T, class C, bool isRoot> struct CastsRoot {
    static void judge(Ctx &c, C &o, const std::string &who) {
        Root<T> &r = o;
        vh::expect(c, typeid(r) == typeid(C), "dynamic-type", who + ": type seen through the base is " + typeid(r).name());
        vh::expect(c, dynamic_cast<C *>(&r) == &o, "cast", who + ": down-cast");
        vh::expect(c, dynamic_cast<void *>(&r) == static_cast<void *>(&o), "cast", who + ": cast to the most derived object");
        vh::expect(c, dynamic_cast<Unrelated *>(&r) == nullptr, "cast", who + ": cast to an unrelated class");
        bool bad = false;
        try { dynamic_cast<const Unrelated &>(r); } catch (const std::bad_cast &) { bad = true; }
        vh::expect(c, bad, "cast", who + ": reference cast to an unrelated class does not throw");
        const Root<T> *cr = &o;
        vh::expect(c, dynamic_cast<const C *>(cr) == &o, "cast", who + ": const down-cast");
    }
};
template<class T, class C> struct CastsRoot<T, C, false> { static void judge(Ctx &, C &, const std::string &) {} };

template<class T, class C> void judgeType(Ctx &c, C &o, const std::string &who) {
    vh::expect(c, typeid(o) == typeid(C) && std::string(typeid(o).name()) == typeid(C).name(), "dynamic-type", who + ": type is " + typeid(o).name());
    vh::expect(c, reinterpret_cast<uintptr_t>(&o) % alignof(C) == 0, "alignment", who + ": object not aligned to " + str(alignof(C)));
    vh::expect(c, dynamic_cast<void *>(&o) == static_cast<void *>(&o), "cast", who + ": cast to the most derived object");
    CastsRoot<T, C, std::is_base_of<Root<T>, C>::value>::judge(c, o, who);
    CastsMid<T, C, std::is_base_of<Mid<T>, C>::value && !std::is_same<Mid<T>, C>::value>::judge(c, o, who);
    c.obs.count("objects examined");
}

template<class C, bool has> struct MidOps { static void stub(Mock<C> &, int) {} static void call(C &, Ctx &, int, const std::string &) {} };
template<class C> struct MidOps<C, true> {
    static void stub(Mock<C> &m, int v) { When(Method(m, mid)).AlwaysReturn(v); }
    static void call(C &o, Ctx &c, int v, const std::string &who) { vh::expect(c, o.mid(1) == v, "object-call", who + ": second method gives a wrong result"); }
};

template<class T, class C> struct ObjectRun {
    struct One {
        std::unique_ptr<Mock<C>> m;
        std::vector<int> value;       // index in the pool, -1: zero bytes
        std::vector<bool> built;
        int midValue;
    };
    Ctx &c;
    Rng &r;
    const char *shape;
    std::vector<Member<T, C>> members;
    std::vector<One> all;
    ObjectRun(Ctx &c, Rng &r, const char *shape, const std::vector<Member<T, C>> &members) : c(c), r(r), shape(shape), members(members) {}

    std::string who(size_t k) { return std::string(shape) + "<" + V<T>::name() + "> mock " + str(k); }
    bool plain() const { return std::is_trivially_copyable<T>::value && std::is_trivially_default_constructible<T>::value; }

    void judge(const std::string &after) {
        for (size_t k = 0; k < all.size(); k++) {
            C &o = all[k].m->get();
            for (size_t i = 0; i < members.size(); i++) {
                if (all[k].value[i] < 0) vh::expect(c, zeroed(o, members[i].ptr), "member-zero", who(k) + ": member " + members[i].name + " is not zero after " + after);
                else vh::expect(c, sameT(o.*members[i].ptr, V<T>::make(all[k].value[i])), "member-value", who(k) + ": member " + members[i].name + " lost its value after " + after);
            }
        }
        c.obs.count("member reads", (long) (all.size() * members.size()));
    }
    void add() {
        One o;
        o.m.reset(new Mock<C>());
        o.value.assign(members.size(), -1);
        o.built.assign(members.size(), false);
        o.midValue = 0;
        all.push_back(std::move(o));
        judgeType<T>(c, all.back().m->get(), who(all.size() - 1));
    }
    void step() {
        if (all.empty() || (all.size() < 3 && r.chance(8))) { add(); judge("creation"); return; }
        size_t k = (size_t) r.below((int) all.size());
        One &o = all[k];
        C &obj = o.m->get();
        size_t i = (size_t) r.below((int) members.size());
        std::string what;
        switch (r.weighted({20, 20, 15, 8, 6, 4, 4, 4})) {
            case 0: {
                int v = r.below(V<T>::count);
                { T tmp = V<T>::make(v); o.m->Stub(members[i].ptr, tmp); }
                o.value[i] = v;
                o.built[i] = true;
                what = "construction of a member";
                c.obs.count("members constructed");
                break;
            }
            case 1:
                if (!o.built[i] && !plain()) return;
                o.value[i] = r.below(V<T>::count);
                obj.*members[i].ptr = V<T>::make(o.value[i]);
                what = "assignment to a member";
                break;
            case 2: {
                // stub code writes the member
                if (!o.built[i] && !plain()) return;
                int v = r.below(V<T>::count);
                T C::*p = members[i].ptr;
                Mock<C> &m = *o.m;
                When(Method(m, root)).Do([&obj, p, v](int x) { obj.*p = V<T>::make(v); return x + 3; });
                vh::expect(c, obj.root(v) == v + 3, "object-call", who(k) + ": wrong result");
                o.value[i] = v;
                what = "assignment by stub code";
                break;
            }
            case 3:
                o.midValue = r.range(1, 1000);
                MidOps<C, std::is_base_of<Mid<T>, C>::value>::stub(*o.m, o.midValue);
                what = "stubbing";
                break;
            case 4:
                if (o.midValue) MidOps<C, std::is_base_of<Mid<T>, C>::value>::call(obj, c, o.midValue, who(k));
                what = "a call";
                break;
            case 5:
                o.m->ClearInvocationHistory();
                what = "clearing the history";
                break;
            case 6:
                o.m->Reset();
                o.value.assign(members.size(), -1);
                o.built.assign(members.size(), false);
                o.midValue = 0;
                what = "reset";
                break;
            default:
                all.erase(all.begin() + (long) k);
                what = "destruction of another mock";
        }
        judge(what);
        if (k < all.size()) judgeType<T>(c, all[k].m->get(), who(k) + " after " + what);
        c.obs.situation(std::string(shape) + "<" + V<T>::name() + "> " + what + " " + members[i].name + (plain() ? " plain" : ""));
    }
};

template<class T, class C> void objectRun(Ctx &c, Rng &r, const char *shape, const std::vector<Member<T, C>> &members) {
    ObjectRun<T, C> run(c, r, shape, members);
    int steps = r.range(4, 20);
    for (int k = 0; k < steps; k++) run.step();
    while (!run.all.empty()) { run.all.erase(run.all.begin() + r.below((int) run.all.size())); run.judge("destruction of another mock"); }
}

#define MEMBER(C, NAME) {#NAME, static_cast<T C<T>::*>(&C<T>::NAME)}
template<class T> void objectCase(Ctx &c, Rng &r) {
#if __cplusplus >= 201703L
    int n = 6;
#else
    int n = 5;                  // new does not know about larger alignments
#endif
    switch (r.below(n)) {
        case 0: objectRun<T, Root<T>>(c, r, "Root", {MEMBER(Root, r)}); break;
        case 1: objectRun<T, Mid<T>>(c, r, "Mid", {MEMBER(Mid, r), MEMBER(Mid, a)}); break;
        case 2: objectRun<T, Leaf<T>>(c, r, "Leaf", {MEMBER(Leaf, r), MEMBER(Leaf, a), MEMBER(Leaf, c), MEMBER(Leaf, d)}); break;
        case 3: objectRun<T, Sibling<T>>(c, r, "Sibling", {MEMBER(Sibling, r), MEMBER(Sibling, a), MEMBER(Sibling, c)}); break;
        case 4: objectRun<T, OverPlain<T>>(c, r, "OverPlain", {MEMBER(OverPlain, r), MEMBER(OverPlain, a)}); break;
        default: objectRun<T, Cache<T>>(c, r, "Cache", {MEMBER(Cache, r), MEMBER(Cache, a), MEMBER(Cache, c)});
    }
}

} // namespace ty
