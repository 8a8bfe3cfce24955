"""Common machinery of the checks: building harness programs from /repo's working tree,
running their cases in parallel processes, judging how the processes ended, matching known
findings, and writing evidence and replay files."""
import concurrent.futures as cf
import fnmatch
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known-findings.txt')
JOBS = max(1, min(8, os.cpu_count() or 1))

SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
THOROUGH = TIER == 'thorough'
START = time.time()

ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
TSAN = ['-fsanitize=thread']


class CheckError(Exception):
    """The check itself could not do its work: exit 2."""


def log(*a):
    print('[%6.1fs]' % (time.time() - START), *a, flush=True)


# ------------------------------------------------------------------ building
_hashes = {}


def tree_hash(path):
    """Content hash of a file or of all files below a directory."""
    if path in _hashes:
        return _hashes[path]
    h = hashlib.sha256()
    if os.path.isdir(path):
        for root, dirs, files in sorted(os.walk(path)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                if '__pycache__' in p:
                    continue
                h.update(os.path.relpath(p, path).encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(fh.read())
                h.update(b'\1')
    else:
        with open(path, 'rb') as fh:
            h.update(fh.read())
    _hashes[path] = h.hexdigest()
    return _hashes[path]


def reset_hashes():
    _hashes.clear()


class CompileFailed(Exception):
    def __init__(self, what, output):
        Exception.__init__(self, what)
        self.what = what
        self.output = output


class Exe:
    """A harness program: sources compiled against the headers found in `includes`."""

    def __init__(self, name, sources, compiler='g++', std='c++17', opt='-O0', san=ASAN, flags=(), includes=None, deps=(),
                 link=(), debug='-g1', unit_flags=None):
        self.name = name
        self.sources = list(sources)
        self.compiler = compiler
        self.includes = list(includes) if includes is not None else [REPO + '/config/standalone', REPO + '/include']
        self.flags = ['-std=' + std, opt, debug, '-w'] + list(san) + list(flags)
        self.san = list(san)
        self.deps = list(deps)
        self.link = list(link)
        self.unit_flags = unit_flags or {}
        self.path = None

    def objects(self):
        objs = []
        for s in self.sources:
            h = hashlib.sha256()
            src_dir = os.path.dirname(s)
            for d in [src_dir, os.path.join(HARNESS, 'common')] + self.includes + self.deps:
                h.update(tree_hash(d).encode())
            cmd = [self.compiler] + self.flags + list(self.unit_flags.get(os.path.basename(s), ())) + ['-I' + i for i in self.includes]
            h.update('\0'.join(cmd + [s]).encode())
            objs.append((s, cmd, os.path.join(BUILD, 'obj', h.hexdigest()[:32] + '.o')))
        return objs


def _compile(job):
    s, cmd, obj = job
    if os.path.exists(obj):
        os.utime(obj)
        return None
    tmp = '%s.%d.tmp' % (obj, os.getpid())
    try:
        r = subprocess.run(cmd + ['-c', s, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=600)
    except subprocess.TimeoutExpired:
        return CompileFailed(s, 'compiler timeout\n' + ' '.join(cmd))
    if r.returncode != 0:
        if os.path.exists(tmp):
            os.unlink(tmp)
        return CompileFailed(s, ' '.join(cmd + ['-c', s]) + '\n' + r.stdout)
    os.rename(tmp, obj)
    return None


SMOKE = '''#include "fakeit.hpp"
struct I { virtual int f(int) = 0; };
int main() { fakeit::Mock<I> m; fakeit::When(Method(m, f)).Return(1); return m.get().f(2) == 1 ? 0 : 1; }
'''


def smoke_ok():
    """Does the most basic program still build and run?  Tells apart a broken toolchain from a regression."""
    d = os.path.join(BUILD, 'smoke')
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, 'smoke.cpp')
    with open(src, 'w') as f:
        f.write(SMOKE)
    exe = os.path.join(d, 'smoke')
    r = subprocess.run(['g++', '-std=c++17', '-O0', '-I' + REPO + '/config/standalone', '-I' + REPO + '/include', src, '-o', exe],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode != 0:
        return False
    return subprocess.run([exe]).returncode == 0


def build(exes):
    """Builds all programs; raises CompileFailed for the first source that does not compile."""
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    jobs = {}
    for e in exes:
        for j in e.objects():
            jobs.setdefault(j[2], j)
    todo = sorted(jobs.values(), key=lambda j: -os.path.getsize(j[0]))
    missing = sum(1 for j in todo if not os.path.exists(j[2]))
    if missing:
        log('compiling %d of %d units' % (missing, len(todo)))
    failed = None
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(_compile, todo):
            if r is not None and failed is None:
                failed = r
    if failed:
        raise failed
    for e in exes:
        objs = [j[2] for j in e.objects()]
        h = hashlib.sha256('\0'.join(objs + [e.compiler] + e.link + e.san).encode()).hexdigest()[:32]
        exe = os.path.join(BUILD, 'bin', e.name + '-' + h)
        if not os.path.exists(exe):
            tmp = '%s.%d.tmp' % (exe, os.getpid())
            r = subprocess.run([e.compiler] + e.san + objs + ['-o', tmp, '-lpthread'] + e.link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if r.returncode != 0:
                raise CompileFailed(e.name + ' (link)', r.stdout)
            os.rename(tmp, exe)
        else:
            os.utime(exe)
        e.path = exe
    prune()
    return exes


def prune(limit=9 << 30):
    files = []
    for d in ('obj', 'bin'):
        p = os.path.join(BUILD, d)
        for f in os.listdir(p):
            fp = os.path.join(p, f)
            st = os.stat(fp)
            files.append((st.st_mtime, st.st_size, fp))
    total = sum(f[1] for f in files)
    for mtime, size, fp in sorted(files):
        if total <= limit or mtime > START - 5:
            break
        os.unlink(fp)
        total -= size


# ------------------------------------------------------------------- running
def sanitizer_env(extra=None):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'exitcode=77:detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=0:abort_on_error=0:handle_abort=1:symbolize=1:log_path=stderr'
    e['LSAN_OPTIONS'] = 'exitcode=78:report_objects=0'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
    e['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=0:second_deadlock_stack=1:history_size=4'
    e['LC_ALL'] = 'C'
    if extra:
        e.update(extra)
    return e


class Finished:
    def __init__(self, code, out, timed_out, wall):
        self.code, self.out, self.timed_out, self.wall = code, out, timed_out, wall


def run(cmd, timeout, cwd=None, env=None, progress=None, stall=None):
    """Ends the command after `timeout` seconds, or `stall` seconds after the last change of the file `progress`."""
    t = last = time.time()
    mark = None
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=cwd, env=env or sanitizer_env(), start_new_session=True)
    while True:
        try:
            out, _ = p.communicate(timeout=min(5, max(0.1, t + timeout - time.time())))
            return Finished(p.returncode, out.decode(errors='replace'), False, time.time() - t)
        except subprocess.TimeoutExpired:
            pass
        now = time.time()
        if progress:
            try:
                m = os.stat(progress).st_mtime_ns
            except OSError:
                m = None
            if m != mark:
                mark, last = m, now
        if now >= t + timeout or (stall and now >= last + stall):
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            return Finished(p.returncode, out.decode(errors='replace'), True, time.time() - t)


class Violation:
    def __init__(self, key, msg, replay):
        self.key, self.msg, self.replay = key, msg, replay


class Totals:
    """What the monitors observed on this run."""

    def __init__(self):
        self.evaluations = 0     # operations / inputs tried
        self.judged = 0          # single judgements of the monitors
        self.counters = {}
        self.distinct = set()
        self.extra_distinct = 0
        self.samples = []
        self.violations = []
        self.inconclusive = []
        self.parts = {}

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def add(self, r, part):
        self.evaluations += r['evaluations']
        self.judged += r['judged']
        for k, v in r['counters'].items():
            self.count(k, v)
        self.distinct.update(part.split('-')[0] + ':' + d for d in r['distinct'])
        if len(self.samples) < 16:
            self.samples += [part + ': ' + s for s in r['samples'][:2]]

    def violation(self, key, msg, replay):
        self.violations.append(Violation(key, msg, replay))


def first_line(out, n=400):
    for pat in (r'ERROR: AddressSanitizer.*', r'runtime error:.*', r'ERROR: LeakSanitizer.*', r'WARNING: ThreadSanitizer.*', r'terminate called.*', r'.*what\(\).*', r'SUMMARY.*', r'Assertion.*', r'==\d+== (?:Invalid|Conditional|Use of|Syscall|Mismatched|Argument|Source and|[\d,]+ .*bytes in).*'):
        m = re.search(pat, out)
        if m:
            return re.sub(r'==\d+==', '', m.group(0))[:n]
    out = out.strip()
    return out.splitlines()[-1][:n] if out else '(no output)'


def crash_key(f):
    out = f.out
    m = re.search(r'ERROR: AddressSanitizer:? ([\w-]+)', out)
    if m:
        return 'asan-' + m.group(1)
    if 'LeakSanitizer' in out:
        return 'leak'
    if 'runtime error:' in out:
        return 'ubsan'
    if 'ThreadSanitizer' in out:
        m = re.search(r'ThreadSanitizer: ([\w -]+?) *(\(|$)', out, re.M)
        return 'tsan-' + (m.group(1).strip().replace(' ', '-') if m else 'report')
    if f.code == 99 and re.search(r'==\d+== ', out):
        return 'valgrind'
    if f.code is not None and f.code < 0:
        return 'signal-%d' % -f.code
    return 'exit-%s' % f.code


VALGRIND = ['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--leak-check=full', '--show-leak-kinds=definite,indirect', '--errors-for-leak-kinds=definite,indirect', '--num-callers=25']
SANITIZER = re.compile(r'AddressSanitizer|LeakSanitizer|ThreadSanitizer|runtime error:|==\d+== Conditional|==\d+== Use of')


class Part:
    """Random cases of one program, numbered 0..cases-1, spread over processes."""

    def __init__(self, name, exe, cases, args=(), shards=None, timeout=600, env=None, trace=False, stall=90, under=()):
        self.under = list(under)        # a tool the program runs under
        self.stall = stall      # seconds for one case, a thousand times what it needs
        self.trace = trace      # keep the traces of the shards in the work directory
        self.name, self.exe, self.cases, self.args, self.timeout = name, exe, cases, list(args), timeout
        self.shards = min(shards or JOBS, max(1, cases))
        self.env = env

    def command(self, a, b, seed):
        return self.under + [self.exe.path, '--seed', str(seed), '--from', str(a), '--to', str(b), '--tier', TIER] + self.args


HANGS = []      # cases that did not end, twice


def run_parts(parts, totals, work):
    jobs = []
    for p in parts:
        step = -(-p.cases // p.shards)
        for a in range(0, p.cases, step):
            jobs.append((p, a, min(p.cases, a + step)))
    t = time.time()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(lambda j: run_shard(j[0], j[1], j[2], work), jobs))
    for (p, a, b), (res, viols, inconclusive, cases) in zip(jobs, results):
        if res is not None:
            totals.add(res, p.name)
            totals.parts[p.name] = totals.parts.get(p.name, 0) + res['counters'].get('cases', 0)
        totals.violations += viols
        totals.inconclusive += inconclusive
    for p in parts:
        if not HANGS:
            sample_case(p, totals, work)
    log('ran %d shards of %d parts in %.1f s' % (len(jobs), len(parts), time.time() - t))


def compare_traces(parts, totals, work):
    """The same cases run by different builds must leave the same traces."""
    ref = parts[0]
    step = -(-ref.cases // ref.shards)
    for a in range(0, ref.cases, step):
        def lines(p):
            try:
                return open(os.path.join(work, '%s-%d.trace' % (p.name, a)), errors='replace').read().splitlines()
            except OSError:
                return None
        want = lines(ref)
        for p in parts[1:]:
            got = lines(p)
            if want is None or got is None:
                continue            # reported as a crash already
            totals.count('trace lines compared', len(want))
            totals.judged += 1
            if got == want:
                continue
            case = a
            for k in range(max(len(want), len(got))):
                x = want[k] if k < len(want) else '(end)'
                y = got[k] if k < len(got) else '(end)'
                if x.startswith('== case '):
                    case = int(x.split()[2])
                if x != y:
                    totals.violation(p.name + ':trace-differs', 'case %d: %s does %s where %s does %s' % (case, p.name, y[:300], ref.name, x[:300]), (p, case, case + 1))
                    break


def sample_case(p, totals, work):
    """Writes one case of this run out as evidence."""
    tf = os.path.join(work, p.name + '.sample')
    k = SEED % p.cases
    f = run(p.command(k, k + 1, SEED) + ['--trace', tf], p.stall, env=sanitizer_env(p.env))
    if f.code == 0 and os.path.exists(tf):
        lines = open(tf, errors='replace').read().splitlines()
        if len(lines) > 1:
            totals.samples.insert(0, p.name + ': ' + ' ; '.join(lines[:60])[:3000])


def replay_cmd(p, a, b):
    return 'VERIF_SEED=%d VERIF_TIER=%s python3 %s/run.py %%s --replay %s %d %d' % (SEED, TIER, VERIF, p.name, a, b)


def run_shard(p, a, b, work):
    """-> (result json or None, violations, inconclusive messages, cases run)"""
    tag = '%s-%d' % (p.name, a)
    outf = os.path.join(work, tag + '.json')
    prog = os.path.join(work, tag + '.progress')
    cmd = p.command(a, b, SEED) + ['--out', outf, '--progress', prog]
    if p.trace:
        cmd += ['--trace', os.path.join(work, tag + '.trace')]
    env = sanitizer_env(p.env)
    viols, inconclusive = [], []
    if HANGS:
        return None, viols, inconclusive, 0        # already decided
    f = run(cmd, p.timeout, env=env, progress=prog, stall=p.stall)
    res = None
    if os.path.exists(outf):
        try:
            res = json.load(open(outf))
        except ValueError:
            res = None
    if res is not None:
        for v in res['violations']:
            case, key, msg = v.split('|', 2)
            case = int(case)
            viols.append(Violation(p.name + ':' + key, 'case %d: %s' % (case, msg), (p, case, case + 1)))
        if f.code == 0 and not f.timed_out:
            return res, viols, inconclusive, b - a
    try:
        case = int(open(prog).read().split()[0])
    except (OSError, ValueError, IndexError):
        case = a
    if f.timed_out:
        again = run(p.command(case, case + 1, SEED), p.stall, env=env)
        if again.timed_out:
            HANGS.append(case)
            viols.append(Violation(p.name + ':hang', 'case %d does not end' % case, (p, case, case + 1)))
        else:
            inconclusive.append('%s: time-out after %d s at case %d, which ends when run alone' % (p.name, f.wall, case))
        return res, viols, inconclusive, case - a
    if 'LeakSanitizer' in f.out and 'AddressSanitizer:' not in f.out.split('LeakSanitizer')[0]:
        lo, hi = narrow_leak(p, a, b, env)
        viols.append(Violation(p.name + ':leak', 'cases %d..%d: %s' % (lo, hi - 1, leak_text(f.out)), (p, lo, hi)))
        return res, viols, inconclusive, b - a
    if f.code == -9:
        inconclusive.append('%s: killed at case %d (out of memory?)' % (p.name, case))
        return res, viols, inconclusive, case - a
    # crashed: does the case alone do it again, does the shard?
    for lo in (case, a):
        again = run(p.command(lo, case + 1, SEED), p.timeout, env=env)
        if again.code != 0 and not again.timed_out and again.code != -9:
            viols.append(Violation(p.name + ':' + crash_key(again), 'case %d: %s' % (case, first_line(again.out)), (p, lo, case + 1)))
            return res, viols, inconclusive, case - a
    if SANITIZER.search(f.out):
        viols.append(Violation(p.name + ':' + crash_key(f), 'case %d: %s' % (case, first_line(f.out)), (p, a, case + 1)))
    else:
        inconclusive.append('%s: ended with %s at case %d, not reproducible: %s' % (p.name, f.code, case, first_line(f.out)))
    return res, viols, inconclusive, case - a


def leak_text(out):
    m = re.search(r'SUMMARY: AddressSanitizer: (\d+ byte.*)', out)
    frames = re.findall(r'#\d+ 0x[0-9a-f]+ in (.*?) /repo/([^\s:]+:\d+)', out)
    return (m.group(1) if m else 'memory leak') + (' allocated at ' + frames[0][1] if frames else '')


def narrow_leak(p, a, b, env):
    def leaks(lo, hi):
        f = run(p.command(lo, hi, SEED), p.timeout, env=env)
        return 'LeakSanitizer' in f.out
    for _ in range(20):
        if b - a <= 1:
            break
        mid = (a + b) // 2
        if leaks(a, mid):
            b = mid
        elif leaks(mid, b):
            a = mid
        else:
            break
    return a, b


# ----------------------------------------------------------- known findings
def known_findings():
    """Lines `known: property=P01 key=<glob> text=<glob over the message> -- what fails`."""
    r = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(\S+) text=(.*?) -- (.*)', line.strip())
            if m:
                r.append(m.groups())
    return r


def finish(prop, level, rule, totals, assumptions=(), extra=None, need=1000):
    """Writes the evidence and replay files, prints the verdict lines, returns the exit status."""
    os.makedirs(os.path.join(EVIDENCE, 'replay'), exist_ok=True)
    known, fresh = [], []
    findings = [k for k in known_findings() if k[0] == prop]
    for v in totals.violations:
        hit = None
        for k in findings:
            if fnmatch.fnmatchcase(v.key, k[1]) and fnmatch.fnmatchcase(v.msg, k[2]):
                hit = k
                break
        (known if hit else fresh).append((v, hit))
    cov = {
        'evaluations': totals.evaluations,
        'distinct_nontrivial': len(totals.distinct) + totals.extra_distinct,
        'rule': rule,
        'samples': totals.samples[:24],
        'judgements': totals.judged,
        'observed': dict(sorted(totals.counters.items())),
        'cases_per_part': totals.parts,
        'inconclusive': totals.inconclusive,
    }
    if extra:
        cov.update(extra)
    ev = {
        'property': prop, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov,
        'assumptions': list(assumptions), 'wall_s': round(time.time() - START, 2), 'violations': len(fresh),
    }
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    log('observed: %d operations, %d judgements, %d distinct situations; %s' % (totals.evaluations, totals.judged, cov['distinct_nontrivial'],
        ', '.join('%s %d' % kv for kv in sorted(totals.counters.items()))))
    shown = set()
    for v, k in known:
        if k not in shown:
            shown.add(k)
            print('KNOWN-FINDING: property=%s %s' % (prop, k[3]), flush=True)
    for i, (v, _) in enumerate(fresh[:10]):
        path = os.path.join(EVIDENCE, 'replay', '%s-%d.txt' % (prop, i))
        with open(path, 'w') as f:
            f.write('property: %s\nseed: %d\ntier: %s\nkey: %s\n%s\n\n' % (prop, SEED, TIER, v.key, v.msg))
            if isinstance(v.replay, tuple):
                f.write('replay: ' + replay_cmd(*v.replay) % prop + '\n')
            elif v.replay:
                f.write(str(v.replay) + '\n')
        print('  %s: %s' % (v.key, v.msg[:600]), flush=True)
        print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
    for m in totals.inconclusive:
        print('INCONCLUSIVE: property=%s %s' % (prop, m), flush=True)
    if fresh:
        return 1
    if totals.inconclusive:
        return 2
    if min(totals.evaluations, totals.judged) < need:
        print('ERROR: the run observed next to nothing (%d operations, %d judgements)' % (totals.evaluations, totals.judged), flush=True)
        return 2
    return 0
