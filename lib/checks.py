"""The checks, one class per property."""
import os
import re
import shutil
import subprocess
import time

import gen_dispatch
import vlib
from vlib import ASAN, HARNESS, REPO, THOROUGH, Exe, Part, build, run_parts

CHECKS = {}
PLAIN = ()       # no sanitizer


def H(*p):
    return os.path.join(HARNESS, *p)


def n(quick, thorough):
    return thorough if THOROUGH else quick


def world_exe(name='world', extra=(), **kw):
    return Exe(name, [H('world', f) for f in ('if_a.cpp', 'if_b.cpp', 'if_c.cpp', 'world.cpp', 'main.cpp') + extra] + [H('common', 'base.cpp')], **kw)


def simple_exe(kind, *sources, **kw):
    name = kw.pop('name', kind)
    return Exe(name, [H(kind, s) for s in (sources or ('main.cpp',))] + [H('common', 'base.cpp')], **kw)


def types_exe(kind, **kw):
    """One of the sweeps over value types; clang is the fastest compiler for these."""
    kw.setdefault('compiler', 'clang++')
    files = ['%s_%d.cpp' % (kind, k) for k in range(8)]
    files += [f for f in ('%s_mixed.cpp' % kind, '%s_places.cpp' % kind) if os.path.exists(H('types', f))]
    name = kw.pop('name', 'types-' + kind)
    return Exe(name, [H('types', f) for f in files + ['main.cpp']] + [H('common', 'base.cpp')], **kw)


SCALE = {       # kind: quick cases, thorough cases
    'args': (3000, 40000), 'stubbings': (160, 1600), 'actions': (72, 320), 'repeats': (144, 600), 'history': (54, 240), 'pattern': (240, 1600), 'counts': (2000, 20000),
    'mocks': (160, 1600), 'depth': (400, 4000), 'cycles': (160, 1600), 'handlers': (800, 8000), 'text': (320, 3000),
    'lists': (6000, 60000)}


def scale_parts(*kinds):
    """The same promises at sizes unit tests do not reach; the simulated stack of the sanitizer gets slow with many exceptions."""
    e = simple_exe('scale', compiler='clang++')
    env = {'ASAN_OPTIONS': vlib.sanitizer_env()['ASAN_OPTIONS'].replace('use_after_return=1', 'use_after_return=0')}
    return [Part('scale-' + k, e, n(*SCALE[k]), ['--kind', k], shards=n(16, 64) if k in ('history', 'actions', 'pattern', 'repeats') else None, env=env, stall=200) for k in kinds]


class Check:
    level = 'exploration'
    rule = ''
    assumptions = ()
    need = 1000

    def __init__(self, work, totals):
        self.work, self.totals = work, totals
        self.extra = {}
        self._parts = None

    def parts(self):
        return []

    def exes(self):
        r = []
        for p in self.all_parts():
            if p.exe not in r:
                r.append(p.exe)
        return r

    def all_parts(self):
        if self._parts is None:
            self._parts = self.parts()
        return self._parts

    def decide(self):
        build(self.exes())
        run_parts(self.all_parts(), self.totals, self.work)
        self.more()

    def more(self):
        pass

    def replay(self, part, a, b):
        build(self.exes())
        for p in self.all_parts():
            if p.name == part:
                f = vlib.run(p.command(int(a), int(b), vlib.SEED) + ['--verbose', '1'], p.timeout, env=vlib.sanitizer_env(p.env))
                print(f.out[-20000:])
                print('exit', f.code)
                return 0 if f.code == 0 and 'VIOLATION' not in f.out else 1
        print('no such part')
        return 2


def check(cls):
    CHECKS[cls.__name__] = cls
    return cls


WORLD_RULE = ('Each case is a random program over the public API (mocks and spies of three interfaces with 25 methods; stubbings, fakes, calls, nested '
              'calls from inside actions, verifications, resets, destruction) run in lock-step with a reference model; every outcome is judged. '
              'Non-trivial: a distinct (method, stubbing stack, remaining actions, nesting depth, outcome) or (verification form, scope, count, history size) situation.')


def also(**kinds):
    """Parts taken from the harnesses of neighbouring properties: name=(quick, thorough)."""
    r = []
    for name, cases in kinds.items():
        kind, _, rest = name.partition('_')
        c = n(*cases)
        if kind == 'types':
            r.append(Part('types-' + rest, types_exe(rest), c))
        elif kind == 'world':
            r.append(Part('world-' + rest, world_exe(), c, ['--profile', rest]))
        else:
            r.append(Part(name, simple_exe(name, compiler='clang++'), c, shards=n(16, 160)))
    return r


def memcheck(**kinds):
    """The same cases in a build without sanitizers under valgrind, which also sees values used before they were set."""
    r = []
    for name, cases in kinds.items():
        kind, _, rest = name.partition('_')
        if kind == 'types':
            e, args = types_exe(rest, san=PLAIN, name='types-plain-' + rest), ()
        elif kind == 'world':
            e, args = world_exe('w-plain', san=PLAIN), ['--profile', rest]
        else:
            e, args = simple_exe(name, compiler='clang++', san=PLAIN), ()
            e.name += '-plain'
        r.append(Part('memcheck-' + name.replace('_', '-'), e, n(*cases), args, under=vlib.VALGRIND, stall=240, shards=n(4, 8)))
    return r


class WorldCheck(Check):
    rule = WORLD_RULE
    technique = 'random API programs under ASan+UBSan, judged online by a reference model'
    level_note = ('Explores random programs over the public API with a reference model as oracle; says nothing about programs '
                  'outside the generated shapes. Trusts the model, the harness interfaces, gcc and the sanitizers.')
    profiles = ()       # (profile, quick cases, thorough cases)
    scale = ()          # kinds of large cases
    neighbours = {}     # parts from other harnesses
    assumptions = ('single thread', 'documented API only; predicates and event handlers do not reset or destroy the mock they are judging')

    def parts(self):
        e = world_exe()
        r = [Part('world-' + p, e, n(q, t), ['--profile', p]) for p, q, t in self.profiles]
        return r + self.extra_parts()

    def extra_parts(self):
        return scale_parts(*self.scale) + also(**self.neighbours)


@check
class P01(Check):
    technique = 'generated classes of many shapes under ASan+UBSan; every behaviour carries a unique number and every call is judged by a table'
    level_note = ('Explores randomly generated single-inheritance classes (up to the supported 1000 virtual slots) and random stubbing orders; other shapes are not covered. '
                  'Trusts the generator, clang and the sanitizers.')
    rule = ('Each run generates classes (chains of up to four, overrides, overload sets, all qualifiers, destructor anywhere, plain bases, data members) from the seed; each case '
            'stubs, calls, verifies, resets and destroys one to four mocks of them. Non-trivial: a distinct method of a generated class called stubbed or not, directly or through a base.')
    assumptions = ('single inheritance', 'methods of one mock stubbed from one translation unit, except in the part that demonstrates a known finding')

    def parts(self):
        out = os.path.join(vlib.BUILD, 'gen', 'dispatch-%d-%s' % (vlib.SEED, vlib.TIER))
        shapes, wide = n((14, 2), (64, 4))
        files = gen_dispatch.generate(vlib.SEED, out, shapes, wide)
        common = [H('dispatch', 'main.cpp'), H('common', 'base.cpp')]
        narrow_files = [f for f in files if 'shape' in f]
        a = Exe('dispatch', narrow_files + common, compiler='clang++', deps=[H('dispatch')])
        b = Exe('dispatch-wide', [f for f in files if 'wide' in f] + common, compiler='clang++', san=PLAIN, debug='-g0', deps=[H('dispatch')])
        # short processes: the simulated stack of the sanitizer gets slow with many exceptions
        cases = n(16000, 120000)
        r = [Part('shapes', a, cases, shards=cases // 250), Part('wide', b, n(640, 4000))]
        if THOROUGH:
            g = Exe('dispatch-gcc', narrow_files[:24] + common, san=PLAIN, opt='-O1', deps=[H('dispatch')])
            r.append(Part('shapesgcc', g, 60000))
        r.append(Part('units', Exe('units', [H('units', f) for f in ('a.cpp', 'b.cpp', 'main.cpp')] + [H('common', 'base.cpp')], compiler='clang++'), n(2000, 20000)))
        return r + scale_parts('mocks')


@check
class P02(WorldCheck):
    neighbours = dict(types_results=(6000, 60000), faults=(600, 8000))
    scale = ('actions', 'repeats', 'depth', 'lists')
    profiles = (('actions', 9000, 120000), ('def', 3000, 30000))


@check
class P03(WorldCheck):
    neighbours = dict(types_cond=(6000, 60000))
    scale = ('stubbings',)
    profiles = (('recent', 9000, 120000), ('def', 3000, 30000))


class TypesCheck(Check):
    """Sweeps over value types and values; each case takes the next type and a random scenario."""
    technique = 'type and value sweeps under ASan+UBSan, every observation judged by the language\'s own operators and object identity'
    level_note = ('Explores random values and scenarios for some forty argument and result types and the passing modes; other types are not covered. '
                  'Trusts the harness, clang and the sanitizers.')
    assumptions = ('single thread', 'documented API only')
    kind = None
    world = ()
    scale = ()
    neighbours = {}

    def parts(self):
        e = types_exe(self.kind)
        r = [Part('types', e, n(*self.cases))]
        w = world_exe()
        return r + [Part('world-' + p, w, n(q, t), ['--profile', p]) for p, q, t in self.world] + scale_parts(*self.scale) + also(**self.neighbours)


@check
class P04(TypesCheck):
    neighbours = dict(world_counting=(2000, 20000))
    scale = ('args',)
    kind = 'cond'
    cases = (24000, 400000)
    world = (('recent', 3000, 30000),)
    rule = ('Each case takes one type and a relation (or several arguments, wildcards, predicates, C strings, approximate values, mixed types), stubs with it, '
            'destroys the expected value, calls with every value of the pool and asks verifications for the number of matches. '
            'Non-trivial: a distinct combination of type, relation, expected value and passing mode or argument tuple.')


@check
class P05(TypesCheck):
    neighbours = dict(spies=(3000, 40000))
    scale = ('args',)
    kind = 'args'
    cases = (24000, 400000)
    world = (('def', 3000, 30000),)
    rule = ('Each case takes one type and a passing mode, lets a stub action, predicate or spied implementation record what it gets, and compares with what the '
            'caller passed and with the history afterwards. Non-trivial: a distinct combination of type, passing mode, observer and value.')


@check
class P06(TypesCheck):
    neighbours = dict(faults=(600, 8000), spies=(1500, 20000))
    scale = ('lists',)
    kind = 'results'
    cases = (30000, 500000)
    world = (('actions', 3000, 30000),)
    rule = ('Each case takes one result type and a way of stubbing (values, lists, quantities, always, assignment, references, pointers, defaults, exceptions) '
            'and compares what the caller receives on every call until the stubbing is used up. Non-trivial: a distinct combination of type, way of stubbing and value.')


@check
class P07(TypesCheck):
    neighbours = dict(world_def=(1500, 15000))
    scale = ('args',)
    kind = 'outargs'
    cases = (16000, 300000)
    rule = ('Each case stubs output arguments by position or placeholder with values from variables that are then destroyed, and compares every argument after '
            'every call. Non-trivial: a distinct combination of type, stubbing form, argument position, set or kept, and value.')

    def parts(self):
        r = TypesCheck.parts(self)
        old = types_exe(self.kind, std='c++14', san=PLAIN, name='types-outargs-14')       # another implementation is used before C++17
        return r + [Part('types14', old, n(8000, 100000))]


@check
class P08(WorldCheck):
    neighbours = dict(events=(2000, 20000), spies=(1500, 20000))
    profiles = (('unexpected', 9000, 120000), ('events', 2500, 30000))


@check
class P09(WorldCheck):
    neighbours = dict(types_cond=(6000, 60000))
    scale = ('pattern', 'history', 'lists')
    profiles = (('counting', 9000, 120000), ('reports', 2500, 30000))


@check
class P10(WorldCheck):
    neighbours = dict(types_args=(6000, 60000), spies=(3000, 40000))
    scale = ('history', 'depth', 'lists')
    profiles = (('history', 9000, 120000), ('def', 2500, 30000))


@check
class P11(WorldCheck):
    neighbours = dict(world_history=(1500, 15000))
    scale = ('history', 'lists')
    profiles = (('verified', 9000, 120000), ('counting', 2500, 30000))


@check
class P12(WorldCheck):
    neighbours = dict(events=(2000, 20000), faults=(600, 8000))
    scale = ('counts',)
    profiles = (('verdict', 9000, 120000), ('verified', 2500, 30000))


@check
class P13(WorldCheck):
    neighbours = dict(types_text=(24000, 300000))
    scale = ('text', 'args', 'pattern', 'lists')
    profiles = (('reports', 6000, 80000), ('events', 2500, 30000))


@check
class P14(WorldCheck):
    scale = ('handlers',)
    profiles = (('events', 6000, 80000), ('verdict', 2500, 30000))

    def extra_parts(self):
        return WorldCheck.extra_parts(self) + [Part('events', simple_exe('events', compiler='clang++'), n(6000, 80000), shards=n(16, 160))]


FRAMEWORKS = ('standalone', 'tpunit', 'mettle', 'cute', 'mstest', 'qtest', 'gtest', 'doctest', 'catch', 'boost')
FRAMEWORK_FLAGS = {'cute': ['-DVH_FIRST=<cute.h>'], 'mettle': ['-DVH_FIRST=<mettle.hpp>'], 'mstest': ['-DVH_FIRST=<CppUnitTestAssert.h>'], 'qtest': ['-DVH_FIRST=<QTest>', '-DVH_IMPLEMENT_QTEST'],
                   'doctest': ['-DVH_IMPLEMENT_DOCTEST'], 'boost': ['-DBOOST_TEST_NO_MAIN', '-DBOOST_TEST_DYN_LINK']}
FRAMEWORK_LIBS = {'gtest': ['-lgtest'], 'catch': ['-lCatch2'], 'boost': ['-lboost_unit_test_framework']}


def framework_exe(fw, name=None, headers=None, **kw):
    """The tests of harness/frameworks under one framework; cute, mettle, Qt and Microsoft's framework are stood in for."""
    kw.setdefault('compiler', 'clang++')
    return Exe(name or 'fw-' + fw, [H('frameworks', fw + '.cpp'), H('common', 'base.cpp')],
               includes=(headers or [REPO + '/config/' + fw, REPO + '/include']) + [H('frameworks', 'standin'), '/usr/include/doctest'],
               link=FRAMEWORK_LIBS.get(fw, []), **kw)


@check
class P15(Check):
    technique = 'the same random tests run under ten framework integrations with ASan+UBSan; each framework\'s own failure reports are compared with the failures provoked'
    level_note = ('Explores random tests under GoogleTest, Catch2, Boost.Test and doctest themselves, the plain and tpunit integrations, and stand-ins for the documented failure '
                  'interface of CUTE, mettle, Qt Test and Microsoft\'s framework. NUnit needs C++/CLI and is not covered. Trusts the frameworks\' listeners and the stand-ins.')
    rule = ('Each case is one test of the framework: random passing steps and provoked failures of every kind, with the default or a hostile custom report text; all tests of a process run '
            'in one run of the framework. Non-trivial: a distinct framework and sequence of steps with its failures.')
    assumptions = ('versions of the frameworks installed here', 'stand-ins for frameworks that are not installed')

    def parts(self):
        r = [Part('fw-' + f, framework_exe(f), n(1600, 24000), shards=n(4, 24)) for f in FRAMEWORKS]
        r += [Part('fwgcc-' + f, framework_exe(f, name='fwgcc-' + f, compiler='g++', san=PLAIN), n(800, 12000), shards=2) for f in (FRAMEWORKS if THOROUGH else ())]
        return r


@check
class P16(WorldCheck):
    profiles = (('spy', 9000, 100000), ('lifetime', 2500, 30000))
    neighbours = dict(spies=(12000, 150000), types_args=(6000, 60000))
    scale = ('lists',)

    def extra_parts(self):
        return WorldCheck.extra_parts(self) + [Part('spies-extra', simple_exe('spies', compiler='clang++'), n(24, 200), ['--kind', 'extra'], shards=n(2, 4))] + memcheck(spies=(120, 3000))


@check
class P17(WorldCheck):
    neighbours = dict(types_objects=(12000, 120000), spies=(3000, 40000), dtors=(3000, 40000))
    scale = ('cycles',)
    profiles = (('reset', 9000, 100000), ('lifetime', 2500, 30000))


@check
class P18(Check):
    technique = 'random ownership and destruction histories under ASan+UBSan, judged by a model of what each destruction must run'
    level_note = ('Explores random histories over eight class shapes and spied objects; pointers that outlive the mock they point to are out of scope. '
                  'Trusts the model, clang and the sanitizers.')
    rule = ('Each case creates mocks of classes with the destructor at different positions, hands out owning pointers to their objects (to owners, recorded arguments, '
            'actions, results, the destructor stubbing itself), releases, destroys, stubs, verifies, clears, resets and destroys in random order. '
            'Non-trivial: a distinct combination of class, event and whether behaviour had to run.')
    assumptions = ('single thread', 'no pointer outlives the mock it points to', 'a stubbed destructor is never left without actions')

    def parts(self):
        e = simple_exe('dtors', compiler='clang++')
        g = simple_exe('dtors', san=PLAIN)
        g.name = 'dtorsgcc'
        return [Part('dtors', e, n(12000, 150000), shards=n(16, 160)), Part('dtorsgcc', g, n(12000, 150000)),
                Part('world-lifetime', world_exe(), n(2000, 20000), ['--profile', 'lifetime'])] + also(spies=(1500, 20000), types_objects=(6000, 60000))


@check
class P19(TypesCheck):
    neighbours = dict(dtors=(2000, 20000))
    scale = ('mocks',)
    kind = 'objects'
    cases = (40000, 500000)
    world = (('reset', 2000, 20000),)
    rule = ('Each case takes one member type and one of six class shapes, creates up to three mocks and constructs, assigns, calls, clears, resets and destroys; after every step '
            'all members of all objects, the dynamic type, casts and alignment are judged. Non-trivial: a distinct combination of shape, type, step and member.')

    def parts(self):
        return TypesCheck.parts(self) + memcheck(types_objects=(240, 6000))


@check
class P20(WorldCheck):
    neighbours = dict(types_args=(6000, 60000), types_results=(6000, 60000), types_objects=(6000, 60000), faults=(800, 8000), dtors=(3000, 40000), spies=(2000, 20000))
    scale = ('mocks', 'cycles', 'stubbings')
    profiles = (('lifetime', 9000, 100000), ('def', 2500, 30000))

    def extra_parts(self):
        return WorldCheck.extra_parts(self) + memcheck(world_lifetime=(120, 3000), world_def=(120, 3000), dtors=(240, 6000), faults=(24, 600))


@check
class P21(Check):
    technique = 'fault injection at every point where user code runs, under ASan+UBSan and leak detection, judged by a model of the completed operations'
    level_note = ('Explores random scenarios with a fault at every counted point (and pairs of faults); allocation failures are not injected. '
                  'Trusts the model, clang and the sanitizers.')
    rule = ('Each case is a random scenario of stubbings, calls, verifications, resets over two mocks; it is run once to count the points where the framework runs user code and again '
            'with an exception at each point, after which it continues against the model. Non-trivial: a distinct statement form, condition, method and kind of faulting user code.')
    assumptions = ('single thread', 'no allocation failures')

    def parts(self):
        e = simple_exe('faults', compiler='clang++')
        w = world_exe()
        return [Part('faults', e, n(4000, 60000), shards=n(16, 160)), Part('world-actions', w, n(2000, 20000), ['--profile', 'actions']),
                Part('world-spy', w, n(1500, 15000), ['--profile', 'spy'])] + also(spies=(3000, 40000))


@check
class P22(Check):
    technique = 'random programs in concurrent threads under ThreadSanitizer, traces compared with the same programs run alone'
    level_note = ('Explores thread schedules the operating system produces (with yields); a race is only seen if both accesses are executed, but not '
                  'necessarily at the same time. Trusts ThreadSanitizer, the reference model and the harness.')
    rule = ('Each case starts 2 to 6 threads that run random API programs on mocks of their own, hand calls or a whole mock from thread to thread, and '
            'compares traces with single-threaded runs and the merged history with program and hand-over order. Non-trivial: a distinct model situation '
            'met in a thread, or a distinct interleaving of the merged history.')
    assumptions = ('each mock is used by one thread at a time', 'handlers and adapters are configured before the threads start')

    def parts(self):
        e = Exe('threads', [H('world', f) for f in ('if_a.cpp', 'if_b.cpp', 'if_c.cpp', 'world.cpp')] + [H('threads', 'main.cpp'), H('common', 'base.cpp')],
                san=vlib.TSAN, deps=[H('world')])
        return [Part('threads', e, n(1500, 20000), ['--threads', '1'], shards=n(8, 16))]


class TraceCheck(Check):
    """The same random programs built in several ways must leave the same traces."""

    def builds(self):
        return []       # (name, keyword arguments of world_exe)

    def parts(self):
        return [Part('build-' + name, world_exe('w-' + name, **kw), self.cases(), ['--profile', 'trace'], shards=2, trace=True) for name, kw in self.builds()]

    def more(self):
        vlib.compare_traces([p for p in self.all_parts() if p.trace], self.totals, self.work)
        self.extra['builds'] = [p.name for p in self.all_parts()]


@check
class P24(TraceCheck):
    technique = ('the same random API programs built by each compiler, standard and optimisation level, traces compared, each judged by a reference model; '
                 'sweeps over value types, spied objects, destructors, faults and events in further configurations')
    level_note = ('Explores random programs on the compilers installed here (gcc 13, clang 18) on x86-64 Linux; other compilers and platforms are not covered. '
                  'Trusts the reference model and the harness.')
    rule = (WORLD_RULE + ' The same cases run in every build and the traces are compared line by line.')
    assumptions = ('x86-64 Linux, gcc and clang only', 'gcc at -O0 and -O1 only, as documented')

    def cases(self):
        return n(3000, 15000)

    def builds(self):
        quick = [('g++', 'c++17', '-O0'), ('g++', 'c++11', '-O0'), ('g++', 'c++14', '-O1'), ('g++', 'c++20', '-O1'),
                 ('clang++', 'c++11', '-O1'), ('clang++', 'c++14', '-O0'), ('clang++', 'c++17', '-O2'), ('clang++', 'c++20', '-O0')]
        full = quick + [('g++', s, o) for s in ('c++11', 'c++14', 'c++17', 'c++20', 'c++23') for o in ('-O0', '-O1')] + \
            [('clang++', s, o) for s in ('c++11', 'c++14', 'c++17', 'c++20', 'c++23') for o in ('-O0', '-O1', '-O2', '-O3')]
        r = []
        for c, s, o in n(quick, full):
            name = '%s-%s%s' % (c.replace('+', 'x'), s.replace('+', 'x'), o)
            if name not in [x[0] for x in r]:
                r.append((name, dict(compiler=c, std=s, opt=o, san=PLAIN)))
        return r

    def parts(self):
        # the sweeps over value types, and the other workloads, in configurations they do not otherwise run in
        sweeps = [('outargs', 'clang++', 'c++11', '-O0'), ('args', 'g++', 'c++11', '-O0'), ('results', 'clang++', 'c++20', '-O1'), ('cond', 'clang++', 'c++14', '-O0'),
                  ('text', 'clang++', 'c++20', '-O0'), ('objects', 'g++', 'c++14', '-O1')]
        others = [('spies', 'g++', 'c++11', '-O1'), ('dtors', 'clang++', 'c++20', '-O2'), ('faults', 'g++', 'c++20', '-O1'), ('events', 'clang++', 'c++11', '-O2')]
        if THOROUGH:
            sweeps += [('outargs', 'g++', 'c++14', '-O1'), ('outargs', 'clang++', 'c++20', '-O0'), ('args', 'clang++', 'c++20', '-O0'), ('results', 'g++', 'c++11', '-O0'),
                       ('cond', 'g++', 'c++20', '-O1'), ('text', 'g++', 'c++11', '-O1'), ('objects', 'clang++', 'c++20', '-O2')]
            others += [('spies', 'clang++', 'c++20', '-O3'), ('dtors', 'g++', 'c++11', '-O0'), ('faults', 'clang++', 'c++11', '-O3'), ('events', 'g++', 'c++20', '-O1')]
        r = []
        for make, todo, cases in ((types_exe, sweeps, n(8000, 40000)), (simple_exe, others, n(1500, 15000))):
            for kind, c, s, o in todo:
                name = '%s-%s-%s%s' % (kind, c.replace('+', 'x'), s.replace('+', 'x'), o)
                r.append(Part(name, make(kind, compiler=c, std=s, opt=o, san=PLAIN, debug='-g0', name=name), cases))
        return TraceCheck.parts(self) + r

    def decide(self):
        # on a machine too slow for everything the second half is left out, and the evidence says so
        first, second = [p for p in self.all_parts() if p.trace], [p for p in self.all_parts() if not p.trace]
        for parts in (first, second):
            if time.time() - vlib.START > 420:
                self.extra['not_run_for_lack_of_time'] = [p.name for p in parts]
                continue
            build([p.exe for p in parts])
            run_parts(parts, self.totals, self.work)
        self.more()


def generated_headers(work):
    """Single headers produced by the repository's script from the current sources, written outside /repo."""
    d = os.path.join(work, 'gen')
    os.makedirs(d, exist_ok=True)
    for x in ('include', 'config', 'generate_fakeit_single_header.py'):
        os.symlink(os.path.join(REPO, x), os.path.join(d, x))
    r = subprocess.run(['python3', os.path.join(d, 'generate_fakeit_single_header.py'), '-a'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)
    return d, r


@check
class P23(TraceCheck):
    technique = 'random API programs built with the modular, shipped and generated headers, traces compared, each judged by a reference model'
    level_note = ('Explores random programs for the standalone configuration and random tests for the nine other configurations that can be built here. '
                  'Trusts the reference model and the harness.')
    rule = (WORLD_RULE + ' The same cases, and random tests under each framework configuration, run in every build and the traces are compared line by line.')
    assumptions = ('NUnit configuration not buildable here',)

    def cases(self):
        return n(8000, 60000)

    def builds(self):
        d = os.path.join(vlib.BUILD, 'generated')
        tmp, r = generated_headers(self.work)
        if r.returncode != 0:
            self.totals.violation('generator', 'the generator script fails: ' + r.stdout[-500:], r.stdout)
        else:
            # keep a stable path so that the object cache works
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(os.path.join(tmp, 'single_header'), d)
            strip_dates(d)
        self.forms = [('modular', lambda f: None), ('shipped', lambda f: [REPO + '/single_header/' + f])]
        if r.returncode == 0:
            self.forms.append(('generated', lambda f: [d + '/' + f]))
        return [(name, dict(san=PLAIN, includes=inc('standalone'))) for name, inc in self.forms]

    def parts(self):
        r = TraceCheck.parts(self)
        # the same programs with each shipped header and a testing-framework adapter of our own
        for fw, inc in [('modular', None)] + [(f, REPO + '/single_header/' + f) for f in FRAMEWORKS]:
            e = world_exe('w-soft-' + fw, extra=('other.cpp',), compiler='clang++', san=PLAIN, debug='-g0', flags=['-DVH_SOFT'] + FRAMEWORK_FLAGS.get(fw, []), link=FRAMEWORK_LIBS.get(fw, []),
                          includes=([inc] if inc else [REPO + '/config/standalone', REPO + '/include']) + [H('frameworks', 'standin'), '/usr/include/doctest'])
            r.append(Part('soft-' + fw, e, n(2000, 20000), ['--profile', 'trace'], shards=1, trace=True))
        for fw in FRAMEWORKS:
            for name, inc in self.forms:
                e = framework_exe(fw, name='fw-%s-%s' % (fw, name), headers=inc(fw), san=PLAIN, debug='-g0')
                r.append(Part('%s-%s' % (fw, name), e, n(400, 6000), shards=1, trace=True))
        return r

    def more(self):
        groups = {}
        for p in self.all_parts():
            groups.setdefault(p.name.split('-')[0], []).append(p)
        for g in groups.values():
            vlib.compare_traces(g, self.totals, self.work)
        self.extra['builds'] = [p.name for p in self.all_parts()]


def strip_dates(d):
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            t = open(p, errors='replace').read()
            open(p, 'w').write(re.sub(r'Generated: .*', 'Generated:', t))


def setup():
    exes = []
    for c in CHECKS.values():
        for e in c('/tmp', vlib.Totals()).exes():
            exes.append(e)
    try:
        build(exes)
    except vlib.CompileFailed as e:
        print(e.output[:5000])
        return 1
    return 0
