"""C17 (type identity, independence of the configuration) and C28 (misuse
assertions)."""
import re
from vlib import *
import charts

P = os.path.join(VERIF, 'programs')
# name -> (compiler, flags)
CONFIGS = {
    'asserts': ('clang++', ['-O0']),
    'native_rtti': ('clang++', ['-O0', '-DBOOST_STATECHART_USE_NATIVE_RTTI']),
    'ndebug': ('clang++', ['-O2', '-DNDEBUG']),
    'native_rtti_ndebug': ('clang++', ['-O1', '-DNDEBUG', '-DBOOST_STATECHART_USE_NATIVE_RTTI']),
    'single_threaded': ('clang++', ['-O0', '-DBOOST_DISABLE_THREADS']),
    'gcc': ('g++', ['-O1']),
    'gcc_native_rtti_ndebug': ('g++', ['-O2', '-DNDEBUG', '-DBOOST_STATECHART_USE_NATIVE_RTTI']),
}


def cc(compiler, src, obj, flags):
    f = [x for x in BASE if compiler != 'g++' or not x.startswith('-ferror')]
    rc, o, e = sh([compiler] + f + flags + INC + ['-I' + P, '-c', src, '-o', obj], 400)
    if rc != 0:
        raise compile_failed(src, [compiler] + flags, rc, o + e)
    return obj


def ld(compiler, objs, exe, flags=()):
    rc, o, e = sh([compiler] + list(flags) + objs + ['-o', exe, '-lpthread'], 300)
    if rc != 0:
        raise HarnessError('linking %s failed: %s' % (exe, (o + e)[:800]))
    return exe


def differential(v):
    """the same charts, inputs and decisions in every configuration"""
    fams = ['mixed', 'shist', 'exh', 'defer', 'dhist', 'evb', 'ortho', 'term']
    n = 24 if THOROUGH else 6
    eps = 1500 if THOROUGH else 250
    d = os.path.join(scratch(), 'c17')
    os.makedirs(d, exist_ok=True)
    cs = charts.make_charts('C17', fams, ['N'], n, alloc=(0,))
    import chartgen
    jobs = [('clang++', os.path.join(VERIF, 'lib', 'model.cpp'), os.path.join(d, 'model.o'), ['-O2'])]
    objs = {}
    for name, (comp, fl) in CONFIGS.items():
        for alloc in (0, 1) if name in ('asserts', 'ndebug') else (0,):
            key = name + ('_tracking_allocator' if alloc else '')
            objs[key] = (comp, [os.path.join(d, 'rt_%s.o' % key)])
            jobs.append((comp, os.path.join(VERIF, 'lib', 'rt.cpp'), os.path.join(d, 'rt_%s.o' % key), fl))
            for cname, seed, kw, _ in cs:
                k = dict(kw)
                k.update(relaxed=0, native=int('RTTI' in ' '.join(fl)), ndebug=int('-DNDEBUG' in fl), alloc=alloc)
                src = os.path.join(d, '%s_%s.cpp' % (cname, key))
                with open(src, 'w') as f:
                    f.write(chartgen.Chart(cname, seed, **k).cpp())
                objs[key][1].append(src[:-4] + '.o')
                jobs.append((comp, src, src[:-4] + '.o', fl))
    POOL.map(cc, jobs)
    exes = dict(zip(objs, POOL.map(lambda kk: ld(objs[kk][0], objs[kk][1] + [os.path.join(d, 'model.o')], os.path.join(d, 'x_' + kk)), list(objs))))
    profs = ['', 'post=200,wdefer=20,clear=20,' + charts.EXC]

    hung = set()

    def dump(key, cname, i):
        out = os.path.join(d, 'd_%s_%s_%d' % (key, cname, i))
        if key in hung:
            open(out, 'w').close()
            return key, cname, i, 'a hang (not run again)', '', out
        try:
            f = open(out, 'wb')
            p = subprocess.run([exes[key], '--dump', '--chart', cname, '--seed', str(seed_for('c17', cname, i)), '--episodes', str(eps)] +
                               (['--profile', profs[i]] if profs[i] else []), stdout=f, stderr=subprocess.PIPE, timeout=800 if THOROUGH else 120)
        except subprocess.TimeoutExpired:
            hung.add(key)
            return key, cname, i, 'a hang', '', out
        return key, cname, i, p.returncode, p.stderr[-800:].decode('utf8', 'replace'), out

    res = {}
    for key, cname, i, rc, err, out in POOL.map(dump, [(k, c[0], i) for c in cs for i in range(len(profs)) for k in objs]):
        res[(cname, i, key)] = (rc, err, out)
    for c in cs:
        for i in range(len(profs)):
            base = res[(c[0], i, 'asserts')]
            a = open(base[2], errors='replace').read().split('EPISODE ')[1:]
            for h in a:
                v.keys.add(hashlib.sha1(h.split('\n', 1)[1].encode()).hexdigest()[:16])
            v.count('traces_in_reference_configuration', len(a))
            for key in objs:
                rc, err, out = res[(c[0], i, key)]
                if rc != 0 and base[0] == 0:
                    v.violation('chart %s: the program ends with %s in configuration %s but not in configuration asserts: %s' % (c[0], rc, key, err))
                    continue
                if base[0] != 0 and rc == 0:
                    v.violation('chart %s: the program ends with %s in configuration asserts but not in %s: %s' % (c[0], base[0], key, base[1]))
                    break
                if rc != 0:
                    raise HarnessError('chart %s dies in every configuration: %s' % (c[0], err))
                if key == 'asserts':
                    continue
                b = open(out, errors='replace').read().split('EPISODE ')[1:]
                v.evaluations += min(len(a), len(b))
                v.count('traces_compared', min(len(a), len(b)))
                v.count('records_compared', sum(x.count('\n') for x in b))
                if a != b:
                    k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
                    x, y = (a[k].split('\n'), b[k].split('\n')) if k < min(len(a), len(b)) else (['<none>'], ['<none>'])
                    j = next((j for j in range(min(len(x), len(y))) if x[j] != y[j] and j > 0), 0)
                    v.violation('chart %s (seed %d): episode %d behaves differently in configurations asserts and %s, at record %d:\n  asserts: %s\n  %s: %s\n  after: %s' %
                                (c[0], c[1], k, key, j, x[j] if j < len(x) else '<end>', key, y[j] if j < len(y) else '<end>', ' / '.join(x[max(1, j - 6):j])))
            for key in objs:
                os.unlink(res[(c[0], i, key)][2])
    v.extra['configurations'] = sorted(objs)
    v.extra['charts_generated'] = n


def identity(v):
    d = os.path.join(scratch(), 'id')
    os.makedirs(d, exist_ok=True)

    def one(name):
        comp, fl = CONFIGS[name]
        o = [cc(comp, os.path.join(P, s + '.cpp'), os.path.join(d, s + name + '.o'), fl) for s in ('identity', 'identity2')]
        exe = ld(comp, o, os.path.join(d, 'x' + name))
        rc, out, e = sh([exe, str(seed_for('id', name) & 0x7fffffff), '20000' if THOROUGH else '2000'], 300)
        return name, rc, out, e

    def shared(name):
        # with native RTTI (the documented option for dynamically loaded
        # libraries) types must compare equal across library boundaries
        comp, fl = CONFIGS[name]
        o = cc(comp, os.path.join(P, 'identity.cpp'), os.path.join(d, 'so1' + name + '.o'), fl + ['-DSHARED'])
        o2 = cc(comp, os.path.join(P, 'identity2.cpp'), os.path.join(d, 'so2' + name + '.o'), fl + ['-fPIC', '-fvisibility=hidden'])
        so = ld(comp, [o2], os.path.join(d, 'lib' + name + '.so'), ['-shared'])
        exe = ld(comp, [o], os.path.join(d, 'so' + name), ['-ldl'])
        rc, out, e = sh(['env', 'IDENTITY_SO=' + so, exe, str(seed_for('ids', name) & 0x7fffffff), '20000' if THOROUGH else '2000'], 300)
        if rc == 3 and 'NOLIB' in out:
            raise HarnessError('loading %s: %s' % (so, out))
        return name + ' (dynamically loaded library)', rc, out, e
    jobs = [(one, n) for n in CONFIGS] + [(shared, n) for n in CONFIGS if 'native' in n]
    for name, rc, out, e in POOL.map(lambda f, n: f(n), jobs):
        m = re.search(r'^(OK|FAILED) (\d+) (\d+)', out, re.M)
        if rc == 0 and m:
            v.count('identity_comparisons', int(m.group(2)))
            v.keys.add('identity ' + name)
            v.evaluations += 1
        else:
            v.violation('type identity, configuration %s: rc %s %s %s' % (name, rc, out[:900], e[-500:]))


def check(prop, v):
    if prop == 'C17':
        v.rule = 'same chart, history and decisions in every build configuration, traces compared; counted: distinct traces of the reference configuration; plus all pairs of type identifiers'
        v.assumptions = ['compilers and standard library are correct', 'chart and history bounds of the generator (see DESIGN.md)']
        POOL2 = cf.ThreadPoolExecutor(1)
        f = POOL2.submit(identity, v)
        differential(v)
        f.result()
    else:
        misuse(v)


def misuse(v):
    v.rule = 'every (way of obtaining a result) x (way of losing it), context access per constructor, misdeclared types, one process each; counted: distinct cases x configurations, plus correct-use chart histories that must not assert'
    v.assumptions = ['assertions end the process (the default BOOST_ASSERT)']
    d = os.path.join(scratch(), 'c28')
    os.makedirs(d, exist_ok=True)
    cfgs = {k: CONFIGS[k] for k in ('asserts', 'native_rtti', 'single_threaded', 'gcc', 'ndebug')}
    cfgs['optimised'] = ('clang++', ['-O2'])
    cfgs['relaxed'] = ('clang++', ['-O0', '-DBOOST_STATECHART_RELAX_TRANSITION_CONTEXT'])
    src = os.path.join(P, 'misuse.cpp')

    def mk(name):
        comp, fl = cfgs[name]
        return name, ld(comp, [cc(comp, src, os.path.join(d, name + '.o'), fl)], os.path.join(d, 'm_' + name))
    ex = dict(POOL.map(mk, list(cfgs)))

    def one(name, kind, case):
        return (name, kind, case) + sh([ex[name], case], 60)
    items = []
    for name in ex:
        rc, o, e = sh([ex[name], 'list'])
        if rc != 0:
            raise HarnessError('misuse list: %s' % e)
        for l in o.split('\n'):
            if '\t' in l:
                k, c = l.split('\t')
                if name == 'ndebug' and k == 'M':
                    continue
                items.append((name, k, c))
    for name, kind, case, rc, o, e in POOL.map(one, items):
        v.evaluations += 1
        v.keys.add('%s %s' % (name, case))
        asserted = 'ssertion' in e
        if kind == 'M':
            v.count('misuses_tried')
            v.count('assertions_seen', asserted)
            if rc != -signal.SIGABRT or not asserted:
                v.violation('configuration %s: misuse %s is not reported by an assertion (exit status %s): %s' % (name, case, rc, (o + e)[-300:]), cmd='misuse ' + case)
            elif 'CONTINUED' in o:
                v.violation('configuration %s: misuse %s is reported only after the machine continued' % (name, case), cmd='misuse ' + case)
        else:
            v.count('correct_uses_tried')
            if rc != 0 or 'FINISHED' not in o:
                v.violation('configuration %s: correct use %s ends with status %s: %s' % (name, case, rc, (o + e)[-500:]), cmd='misuse ' + case)
    n = 24 if THOROUGH else 8
    cs = charts.make_charts('C28', ['mixed', 'exh', 'act', 'shist', 'defer', 'ortho', 'dhist', 'term'], ['N', 'V', 'R', 'N'], n)
    b = charts.Build(cs, 'c28b', san=[])
    ev = v.evaluations
    charts.execute(v, b, [(c, 'model', pr, 6000 if THOROUGH else 700) for c in cs for pr in ('wdefer=20,post=200', charts.EXC)])
    v.evaluations = ev + v.counters.get('episodes', 0)
    v.extra['charts_generated'] = n
