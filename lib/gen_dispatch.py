"""Generates classes of random shapes for the dispatch check (P01)."""
import os
import random

RESULTS = ['int', 'void', 'double', 'di::Tok', 'di::Big', 'std::string', 'int &', 'int *', 'bool', 'char', 'long long', 'float', 'di::TwoFloats',
           'di::Pod16', 'di::NP', 'di::Kind', 'std::unique_ptr<int>', 'unsigned short', 'long double']
PARAMS = {'int': '7', 'double': '2.5', 'const std::string &': 'std::string("text")', 'vh::Tok': 'vh::Tok(3)', 'long': '9L', 'float': '1.5f',
          'di::Pod16': 'di::Pod16()', 'int &': 'di::slotInt(1)', 'di::Big': 'di::Conv<di::Big>::make(1)', 'int *': '&di::slotInt(2)', 'bool': 'true',
          'const vh::Tok &': 'vh::Tok(4)', 'vh::Tok &&': 'vh::Tok(5)', 'unsigned char': "'x'", 'std::string': 'std::string("s")'}
MEMBERS = ['int %s;', 'std::string %s;', 'char %s[3];', 'double %s[5];', 'std::vector<int> %s;', 'const int %s = 3;', 'void *%s;']


class Method:
    def __init__(self, name, result, params, qual, overloaded, pure, noexcept_):
        self.name, self.result, self.params, self.qual = name, result, params, qual
        self.overloaded, self.pure, self.noexcept_ = overloaded, pure, noexcept_
        self.level = 0          # where it was declared first

    def declaration(self, over=False, result=None):
        r = result or self.result
        s = 'virtual %s %s(%s)%s%s%s' % (r, self.name, ', '.join(self.params), ' ' + self.qual if self.qual else '', ' noexcept' if self.noexcept_ else '',
                                         ' override' if over else '')
        if self.pure:
            return s + ' = 0;'
        return s + ' { return di::Behave<%s>::run(-%d); }' % (r, 1000)

    def expression(self, cls):
        if not self.overloaded:
            return 'Method(m, %s)' % self.name
        macro = {'': '', 'const': 'Const', '&': 'Ref', 'const &': 'ConstRef', '&&': 'RValRef', 'const &&': 'ConstRValRef'}[self.qual] + 'OverloadedMethod'
        return '%s(m, %s, %s(%s))' % (macro, self.name, self.result, ', '.join(self.params))

    def call(self, cls):
        obj = {'': 'static_cast<%s &>(o)', 'const': 'static_cast<const %s &>(o)', 'volatile': 'static_cast<volatile %s &>(o)',
               'const volatile': 'static_cast<const volatile %s &>(o)', '&': 'static_cast<%s &>(o)', 'const &': 'static_cast<const %s &>(o)',
               '&&': 'static_cast<%s &&>(o)', 'const &&': 'static_cast<const %s &&>(o)'}[self.qual] % cls
        return '%s.%s(%s)' % (obj, self.name, ', '.join(PARAMS[p] for p in self.params))


def emit(f, cls, chain, methods, dtor, slots, simple):
    f.write('\nnamespace {\n')
    for k, m in enumerate(methods):
        decl = chain[m.level]
        up = ''
        if m.level != len(chain) - 1:
            c = m.call(decl)
            if m.result == 'void':
                up = 'static int up%d(%s &o) { %s; return 0; }' % (k, cls, c)
            else:
                up = 'static int up%d(%s &o) { return di::Conv<%s>::read(%s); }' % (k, cls, m.up_result, c)
        # the comma-safe form: expressions and calls go through macros of their own
        f.write('#define E%d %s\n#define C%d %s\n' % (k, m.expression(cls), k, m.call(cls)))
        if m.result == 'void':
            f.write('%s(%d, %s, E%d, C%d, %s)\n' % ('DI_VOID' if not simple else 'DI_SIMPLE_VOID', k, cls, k, k, up))
        else:
            f.write('%s(%d, %s, %s, E%d, C%d, %s)\n' % ('DI_METHOD' if not simple else 'DI_SIMPLE', k, cls, m.result, k, k, up))
    f.write('}\nnamespace di {\ntemplate<> const MethodOps<%s> Table<%s>::ops[] = {\n' % (cls, cls))
    for k, m in enumerate(methods):
        q = '(%s)%s%s' % (','.join(m.params), ' ' + m.qual if m.qual else '', ' noexcept' if m.noexcept_ else '')
        f.write('{"%s %s%s", stub%d, verify%d, call%d, want%d, %s, %s},\n' % (
            m.result, m.name, q, k, k, k, k, 'up%d' % k if m.level != len(chain) - 1 else 'nullptr', 'true' if m.noexcept_ else 'false'))
    f.write('};\ntemplate<> const int Table<%s>::count = %d;\nstatic RegisterClass reg_%s("%s", makeMock<%s>, %d);\n}\n' % (cls, len(methods), cls, cls, cls, slots))


def random_class(rnd, path, idx):
    cls = 'Shape%d' % idx
    levels = rnd.choice([1, 1, 2, 2, 3, 4])
    chain = ['%s_L%d' % (cls, k) for k in range(levels - 1)] + [cls]
    dtor_level = rnd.choice([None, 0, rnd.randrange(levels)])
    total = rnd.randint(2, 22)
    methods = []
    text = ['#include "%s/engine.hpp"\n' % os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'dispatch')]
    has_plain_base = rnd.random() < 0.15
    if has_plain_base:
        text.append('struct %s_Plain { int plain1; double plain2; int plainSum() const { return plain1; } };' % cls)
    text += ['struct %s_RBase { int v; };' % cls, 'struct %s_RDer : %s_RBase { int w; };' % (cls, cls)]
    text.append('namespace di { template<> struct Conv<::%s_RBase *> { static ::%s_RBase *make(int v) { static std::map<int, ::%s_RDer> m; m[v].v = v; return &m[v]; } static int read(::%s_RBase *r) { return r->v; } };'
                'template<> struct Conv<::%s_RDer *> { static ::%s_RDer *make(int v) { static std::map<int, ::%s_RDer> m; m[v].v = v; return &m[v]; } static int read(::%s_RDer *r) { return r->v; } }; }' % ((cls,) * 8))
    count = 0
    dtor = False
    for lv in range(levels):
        new = max(1, total // levels) if lv == 0 else rnd.randint(0, max(1, 2 * total // levels))
        decls = []
        while new > 0:
            count += 1
            name = 'm%d' % count
            if rnd.random() < 0.25:
                # an overload set
                sigs = []
                quals = rnd.choice([['', 'const'], ['&', 'const &', '&&', 'const &&'], ['', ]])
                for _ in range(rnd.randint(2, 5)):
                    ps = tuple(rnd.sample(['int', 'double', 'const std::string &', 'vh::Tok', 'di::Pod16', 'int *'], rnd.randint(0, 2)))
                    q = rnd.choice(quals)
                    if (ps, q) in sigs:
                        continue
                    # calls must not be ambiguous: same number of parameters only for clearly different types
                    if any(len(s[0]) == len(ps) and s[0] != ps for s in sigs):
                        ps_types = [set(s[0]) for s in sigs if len(s[0]) == len(ps) and s[0] != ps]
                        if len(ps) != 1 and any(True for _ in ps_types):
                            continue
                    sigs.append((ps, q))
                if len(sigs) > 1 and set(p for s in sigs for p in s[0]) >= {'int', 'double'}:
                    pass
                for ps, q in sigs:
                    m = Method(name, rnd.choice(RESULTS), list(ps), q, len(sigs) > 1, rnd.random() < 0.6, rnd.random() < 0.1)
                    m.level = lv
                    decls.append(m)
                    new -= 1
            else:
                ps = [rnd.choice(sorted(PARAMS)) for _ in range(rnd.choice([0, 0, 1, 1, 2, 3, 5]))]
                q = rnd.choice(['', '', '', 'const', 'volatile', 'const volatile', '&', 'const &', '&&', 'const &&'])
                res = rnd.choice(RESULTS + ['%s_RBase *' % cls])
                m = Method(name, res, ps, q, False, rnd.random() < 0.6, rnd.random() < 0.1)
                if rnd.random() < 0.05:
                    m.name, m.params = rnd.choice([('operator()', ['int', 'double']), ('operator[]', ['int'])])
                    if any(x.name == m.name for x in methods + decls):
                        m.name = name
                m.level = lv
                decls.append(m)
                new -= 1
        body = []
        for m in decls:
            m.up_result = m.result
            body.append(m.declaration())
        # overrides of what the bases declared
        if lv:
            names = sorted(set(m.name for m in methods))
            for nm in names:
                if rnd.random() < 0.3:
                    for m in [x for x in methods if x.name == nm]:
                        if m.result == '%s_RBase *' % cls and rnd.random() < 0.7:
                            m.result = '%s_RDer *' % cls
                        m.pure = rnd.random() < 0.5
                        body.append(m.declaration(over=True))
        for k in range(rnd.choice([0, 0, 1, 3])):
            body.append(rnd.choice(MEMBERS) % ('d%d_%d' % (lv, k)))
        if rnd.random() < 0.3:
            body.append('int plainMethod%d(int x) { return x + 1; } static int staticMethod%d() { return 2; }' % (lv, lv))
        if dtor_level == lv:
            dtor = True
            body.insert(rnd.randrange(len(body) + 1), 'virtual ~%s() %s' % (chain[lv], rnd.choice(['{ di::hits().push_back(-2000); }', '= default;'])))
        rnd.shuffle(body)
        base = ''
        if lv:
            base = ' : ' + chain[lv - 1]
        elif has_plain_base:
            base = ' : %s_Plain' % cls
        if rnd.random() < 0.15:
            body.append('explicit %s(int x)%s { (void) x; }' % (chain[lv], '' if lv == 0 else ''))
            body.append('%s() {}' % chain[lv])
        text.append('struct %s%s {\n    %s\n};' % (chain[lv], base, '\n    '.join(body)))
        methods += decls
    with open(path, 'w') as f:
        f.write('\n'.join(text))
        rnd.shuffle(methods)
        emit(f, cls, chain, methods, dtor, len(methods) + (2 if dtor else 0), False)


def wide_class(rnd, path, idx, slots, dtor, parts):
    """As many virtual slots as supported, spread over a chain of classes."""
    cls = 'Wide%d' % idx
    nm = slots - (2 if dtor else 0)
    cuts = sorted(rnd.sample(range(1, nm), parts - 1)) if parts > 1 else []
    bounds = [0] + cuts + [nm]
    chain = ['%s_L%d' % (cls, k) for k in range(parts - 1)] + [cls]
    text = ['#include "%s/engine.hpp"\n' % os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'dispatch')]
    methods = []
    dl = rnd.randrange(parts) if dtor else -1
    for lv in range(parts):
        body = []
        for k in range(bounds[lv], bounds[lv + 1]):
            res = rnd.choice(['int', 'int', 'int', 'void', 'double'])
            m = Method('w%d' % k, res, rnd.choice([[], ['int'], ['int', 'double']]), rnd.choice(['', '', 'const']), False, rnd.random() < 0.5, False)
            m.level, m.up_result = lv, res
            methods.append(m)
            body.append(m.declaration())
        if dl == lv:
            body.insert(rnd.randrange(len(body) + 1), 'virtual ~%s() {}' % chain[lv])
        text.append('struct %s%s {\n    %s\n};' % (chain[lv], ' : ' + chain[lv - 1] if lv else '', '\n    '.join(body)))
    with open(path, 'w') as f:
        f.write('\n'.join(text))
        emit(f, cls, chain, methods, dtor, slots, True)


def generate(seed, out, shapes, wide):
    """wide: number of wide classes. Returns the sources."""
    os.makedirs(out, exist_ok=True)
    r = []
    for k in range(shapes):
        p = os.path.join(out, 'shape%d.cpp' % k)
        random_class(random.Random('%d-shape-%d' % (seed, k)), p, k)
        r.append(p)
    for k in range(wide):
        p = os.path.join(out, 'wide%d.cpp' % k)
        rnd = random.Random('%d-wide-%d' % (seed, k))
        slots, dtor, parts = [(1000, False, 1), (1000, True, rnd.randint(1, 4)), (rnd.randint(255, 999), True, rnd.randint(1, 4)), (rnd.randint(129, 999), False, 2)][k % 4]
        wide_class(rnd, p, k, slots, dtor, parts)
        r.append(p)
    return r


if __name__ == '__main__':
    import sys
    print('\n'.join(generate(int(sys.argv[1]), sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))))
