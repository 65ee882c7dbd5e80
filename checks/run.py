#!/usr/bin/env python3
"""run.py <property>: decides one property on /repo's working tree."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
from vlib import *


def chart_check(prop, v):
    import charts, plans
    p = plans.PLANS[prop]
    n = p.get('n', (24, 72))[1 if THOROUGH else 0]
    cs = charts.make_charts(prop, p['fams'], p['cfgs'], n, p.get('translators', (0, 1, 2)), p.get('alloc', (0, 0, 1)), p.get('extra'))
    v.rule = p['rule']
    v.assumptions = plans.ASSUME
    for r0 in range(0, n, 24):
        part = cs[r0:r0 + 24]
        b = charts.Build(part, 'b%d' % r0)
        runs = [(c, m, pr, e[1 if THOROUGH else 0]) for (m, pr, *e) in p['runs'] for c in part]
        charts.execute(v, b, runs)
        shutil.rmtree(b.dir, ignore_errors=True)
        if len(v.viol) > 20:
            break
    v.extra['charts_generated'] = n
    v.extra['configurations'] = sorted({c[3] for c in cs})


def main():
    prop = sys.argv[1]
    v = Verdict(prop)
    try:
        import plans
        import probes
        if prop == 'C20':
            import threads
            threads.build_early(prop)
        probes.check(prop, v)
        if prop in plans.PLANS:
            chart_check(prop, v)
        if prop == 'C15' and not v.viol:
            import charts
            charts.memcheck(v)
        if prop in ('C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C26'):
            import threads
            threads.check(prop, v)
        if prop in ('C17', 'C28'):
            import programs
            programs.check(prop, v)
        return v.finish()
    except Exception as e:
        if isinstance(e, Rejected):
            v.violation('a valid program (part of the workload) does not compile against this tree: ' + str(e))
        # a violation already observed stands, whatever broke afterwards
        if v.unlisted():
            return v.finish()
        if isinstance(e, HarnessError):
            print('HARNESS ERROR (no verdict for %s): %s' % (prop, e))
        else:
            traceback.print_exc()
        return 3


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    POOL.ex.shutdown(wait=False, cancel_futures=True)
    sys.exit(rc)
