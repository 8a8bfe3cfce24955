#!/usr/bin/env python3
"""run.py PXX                       decide a property on /repo's working tree
run.py PXX --replay PART A B     run cases A..B-1 of one part again, verbosely
run.py setup                     build what the checks need for the current tree"""
import os
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vlib
from vlib import CheckError, CompileFailed, Totals, log
import checks


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == 'setup':
        return checks.setup()
    prop = sys.argv[1]
    check = checks.CHECKS.get(prop)
    if check is None:
        print('no check for', prop)
        return 2
    work = os.path.join(vlib.BUILD, 'work-%s-%d' % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    totals = Totals()
    try:
        c = check(work, totals)
        try:
            if len(sys.argv) > 2 and sys.argv[2] == '--replay':
                return c.replay(*sys.argv[3:6])
            c.decide()
        except CompileFailed as e:
            if not vlib.smoke_ok():
                print(e.output[:3000])
                print('ERROR: even a minimal program does not build')
                return 2
            path = os.path.join(work, 'compile.txt')
            errors = [l for l in e.output.splitlines() if 'error' in l][:5]
            totals.violation('compile', 'a program using the documented API no longer compiles: %s: %s' % (os.path.relpath(e.what, vlib.VERIF), ' / '.join(errors)[:800]), e.output[:20000])
        return vlib.finish(prop, c.level, c.rule, totals, c.assumptions, c.extra, c.need)
    except CheckError as e:
        print('ERROR:', e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
