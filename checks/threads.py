"""Properties of the asynchronous part (C21-C25) and concurrent machine
instances (C26)."""
from vlib import *
import plans

D = os.path.join(VERIF, 'threads')
LIBS = ['-lboost_thread', '-ldl', '-lpthread']

# (build, scenario, episodes quick, episodes thorough); builds: d deterministic
# scheduler, s the same without BOOST_HAS_THREADS, r real threads under TSan
BUILDS = {'d': 'scheduled', 's': 'single-threaded build', 'r': 'real threads'}
PLAN = {
    'C21': [('d', 'worker', 6000, 120000), ('s', 'worker', 3000, 60000), ('r', 'worker', 8000, 120000)],
    'C22': [('d', 'worker', 6000, 120000), ('s', 'worker', 2000, 40000), ('r', 'worker', 6000, 100000), ('d', 'sched', 1200, 20000)],
    'C23': [('d', 'sched', 4000, 60000), ('s', 'sched', 1500, 30000), ('r', 'sched', 3000, 50000)],
    'C24': [('d', 'sched', 2500, 50000), ('s', 'sched', 1000, 20000), ('r', 'sched', 6000, 90000)],
    'C25': [('d', 'worker', 3000, 60000), ('s', 'worker', 1500, 30000), ('d', 'sched', 2500, 40000), ('s', 'sched', 1000, 20000), ('r', 'sched', 2000, 40000)],
    'C20': [('d', 'worker', 1500, 30000), ('s', 'worker', 1000, 20000), ('d', 'sched', 1500, 30000)],
}
RULE = {
    'C21': 'random programs of up to 5 threads queuing, nesting, throwing and terminating x schedules; counted: distinct schedules (deterministic scheduler) or execution histories (real threads) with more than one executed item',
    'C22': 'as C21; counted: distinct schedules or histories of blocking workers in which a wait or a terminate took place',
    'C23': 'random create/initiate/queue/terminate/destroy programs of up to 3 drivers over up to 3 schedulers x schedules; counted: distinct schedules or histories',
    'C24': 'as C23; counted: distinct schedules or histories in which shared machines received events from several threads',
    'C25': 'as C21 and C23 with throwing items, constructors, handlers; counted: distinct schedules or histories in which an exception left operator()',
}


def build(wanted):
    """wanted: (build, scenario) pairs"""
    d = os.path.join(scratch(), 'thr')
    os.makedirs(d, exist_ok=True)
    jobs, objs, common = [], {}, {}
    flags = lambda k: ['-O1'] + (TSAN + ['-DREAL_THREADS'] if k == 'r' else ASAN) + (['-DBOOST_DISABLE_THREADS'] if k == 's' else [])
    for k, scen in wanted:
        o = os.path.join(d, 'harness_%s_%s.o' % (k, scen))
        objs[k, scen] = o
        jobs.append((os.path.join(D, 'harness.cpp'), o, flags(k) + ['-DONLY=%d' % (1 if scen == 'worker' else 2)]))
    for k in sorted({k for k, _ in wanted}):
        common[k] = []
        for s in ['dsched'] + (['instr'] if k == 'r' else []):
            o = os.path.join(d, '%s_%s.o' % (s, k))
            common[k].append(o)
            jobs.append((os.path.join(D, s + '.cpp'), o, flags(k)))
    POOL.map(compile_obj, jobs)
    return dict((w, link([objs[w]] + common[w[0]], os.path.join(d, 'h%s_%s' % w), TSAN if w[0] == 'r' else ASAN, LIBS)) for w in wanted)


def run(exe, kind, scen, want, seed, frm, n, pin):
    out = os.path.join(scratch(), 'thr', 'o_%s_%s_%d' % (kind, scen, frm))
    cmd = [exe[kind, scen], '--scenario', scen, '--seed', str(seed), '--from', str(frm), '--episodes', str(n), '--want', str(want),
           '--out', out, '--timeout', '40', '--max-violations', '3'] + (['--pin', str(pin)] if kind != 'r' else [])
    rc, o, e = sh(cmd, 3000 if THOROUGH else 700)
    r = dict(kind=kind, scen=scen, seed=seed, frm=frm, n=n, V=[], N={}, K=set(), done=False, rc=rc, err=(o + e)[-800:])
    try:
        for l in open(out, errors='replace'):
            p = l.rstrip('\n').split('\t')
            if p[0] == 'V':
                r['V'].append((p[1].split(','), int(p[3]), p[4].replace('\\n', '\n')))
            elif p[0] == 'N':
                r['N'][p[1]] = r['N'].get(p[1], 0) + int(p[2])
            elif p[0] == 'K':
                r['K'].add(kind + p[2])
            elif p[0] == 'DONE':
                r['done'] = True
        os.unlink(out)
    except OSError:
        pass
    return r


EARLY = []


def build_early(prop):
    """Starts building while the charts of the same check still run."""
    import threading
    def go():
        try:
            EARLY.append(build(sorted({w[:2] for w in PLAN[prop]})))
        except Exception as e:
            EARLY.append(e)
    scratch()
    t = threading.Thread(target=go, daemon=True)
    t.start()
    EARLY.append(t)


def built(plan):
    if not EARLY:
        return build(sorted({w[:2] for w in plan}))
    [x for x in EARLY if hasattr(x, 'join')][0].join()
    r = [x for x in EARLY if not hasattr(x, 'join')][0]
    if isinstance(r, Exception):
        raise r
    return r


def execute(v, plan):
    exe = built(plan)
    want = int(v.prop[1:])
    for kind, scen, q, t in plan:
        n = t if THOROUGH else q
        # real threads compete for all cores; a few processes keep them busy
        par = JOBS if kind != 'r' else max(2, JOBS // 2)
        chunk = (n + par - 1) // par
        seed = seed_for('threads', v.prop, kind, scen)
        rs = POOL.map(lambda i: run(exe, kind, scen, want, seed, i * chunk, chunk, i), range(par))
        for r in rs:
            if r['rc'] not in (0, 1) or not r['done']:
                raise HarnessError('%s run ended with rc %s: %s' % (scen, r['rc'], r['err']))
            for tags, ep, msg in r['V']:
                if v.prop in tags:
                    v.violation('%s, %s, seed %d episode %d: %s' % (scen, BUILDS[kind], r['seed'], ep, msg),
                                threads=dict(kind=kind, scenario=scen, seed=r['seed'], episode=ep, want=want), tags=tags)
                else:
                    for x in tags:
                        v.other[x] = v.other.get(x, 0) + 1
            for k, c in r['N'].items():
                v.count('%s_%s_%s' % (scen, {'d': 'scheduled', 's': 'singlethreaded', 'r': 'real'}[kind], k), c)
                if k == 'episodes':
                    v.evaluations += c
            v.keys |= r['K']
        if v.unlisted():
            break


def concurrent_instances(v):
    import charts
    n = 24 if THOROUGH else 8
    fams = ['mixed', 'shist', 'defer', 'exh', 'dhist', 'small', 'ortho', 'evb']
    cs = charts.make_charts('C26t', fams, ['N', 'V', 'R', 'D'], n, alloc=(0, 1))
    b = charts.Build(cs, 'thr26', san=TSAN)
    ev = v.evaluations
    charts.execute(v, b, [(c, 'threads', pr, 400 if THOROUGH else 40) for c in cs for pr in ('', 'post=200,wdefer=20,' + charts.EXC)])
    v.evaluations = ev + v.counters.get('concurrent_instances', 0)


def check(prop, v):
    if prop == 'C26':
        concurrent_instances(v)
        return
    v.rule = v.rule or RULE[prop]
    v.assumptions = v.assumptions or ['user code follows the documented threading rules (operator() and terminated() of one worker from one thread only)',
                                      'preemption inside the deterministic runs happens at mutex, condition and marker operations; finer interleavings are sampled with real threads under ThreadSanitizer']
    execute(v, PLAN[prop])
