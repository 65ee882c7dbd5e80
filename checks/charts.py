"""Backend for the properties decided by generated state charts + the trace oracle."""
import os, random, sys
from vlib import *
sys.path.insert(0, os.path.join(VERIF, 'gen'))
import chartgen

FAMILIES = dict(
    mixed=dict(),
    small=dict(max_states=6, max_depth=3, transits=14),
    ortho=dict(p_multi=0.75, max_regions=4, p_hist=0.1, max_states=15, max_depth=4),
    wide=dict(p_multi=0.95, min_regions=3, max_regions=6, p_hist=0.0, max_states=15, max_depth=2, top=3, custom_opts=6, transits=50),
    broad=dict(p_multi=0.95, min_regions=5, max_regions=10, p_hist=0.1, max_states=19, max_depth=2, top=2, custom_opts=6, transits=40),
    deep=dict(max_depth=7, p_multi=0.12, max_states=14, p_inner=0.95, p_hist=0.2),
    shist=dict(p_hist=0.95, p_deep=0.1, p_histdest=0.8, transits=30),
    shorth=dict(p_hist=0.95, p_deep=0.0, p_histdest=0.8, p_multi=0.7, transits=30, max_states=14),
    dhist=dict(p_hist=0.9, p_deep=1.0, p_histdest=0.85, transits=30, max_depth=5, p_inner=0.9, p_multi=0.15),
    dhist2=dict(p_hist=0.6, p_deep=1.0, p_histdest=0.9, transits=34, max_depth=6, p_inner=0.95, p_multi=0.3, max_states=15),
    defer=dict(p_defer=0.4, p_term=0.06, p_custom=0.65),
    term=dict(p_term=0.4, p_multi=0.6, max_regions=4),
    static=dict(p_custom=0.1, p_static=1.0, p_term=0.15, p_defer=0.15, p_instate=0.25),
    evb=dict(p_evbase=0.5, p_custom=0.6),
    act=dict(p_act=0.95, p_static=0.9, transits=34, p_instate=0.3),
    exh=dict(p_exh=0.95, p_static=0.6),
    exhortho=dict(p_exh=0.9, p_multi=0.65, max_regions=4, max_states=14),
    exhbroad=dict(p_exh=0.9, p_multi=0.95, min_regions=4, max_regions=9, max_states=17, max_depth=2, top=2),
    histbroad=dict(p_hist=0.95, p_deep=0.2, p_histdest=0.8, p_multi=0.9, min_regions=4, max_regions=9, max_states=18, max_depth=3, transits=40),
    noexit=dict(p_noexit=0.6, p_simple=0.4),
)

EXC = 'tctor=20,texit=20,tact=30,treact=30,tunc=30'
EXCLOW = 'tctor=6,texit=6,tact=6,treact=6,tunc=6'
EXCHI = 'tctor=60,texit=60,tact=60,treact=60,tunc=40'


def config_flags(cfg):
    f = []
    if 'R' in cfg:
        f.append('-DBOOST_STATECHART_RELAX_TRANSITION_CONTEXT')
    if 'V' in cfg:
        f.append('-DBOOST_STATECHART_USE_NATIVE_RTTI')
    if 'D' in cfg:
        f.append('-DNDEBUG')
    if 'T' in cfg:
        f.append('-DBOOST_DISABLE_THREADS')
    return f


def config_kw(cfg):
    return dict(relaxed=int('R' in cfg), native=int('V' in cfg), ndebug=int('D' in cfg))


class Build:
    """charts: list of (name, seed, kw, cfg). One executable per configuration."""

    def __init__(self, charts, tag='b', san=ASAN, opt='-O0', wrap=()):
        self.wrap = list(wrap)
        self.dir = os.path.join(scratch(), tag)
        os.makedirs(self.dir, exist_ok=True)
        self.charts = charts
        cfgs = sorted({c[3] for c in charts})
        jobs = []
        self.model = os.path.join(self.dir, 'model.o')
        jobs.append((os.path.join(VERIF, 'lib', 'model.cpp'), self.model, ['-O2']))
        objs = {c: [] for c in cfgs}
        for c in cfgs:
            o = os.path.join(self.dir, 'rt_%s.o' % c)
            objs[c].append(o)
            jobs.append((os.path.join(VERIF, 'lib', 'rt.cpp'), o, ['-O1'] + san + config_flags(c)))
        for name, seed, kw, c in charts:
            src = os.path.join(self.dir, name + '.cpp')
            k = dict(kw)
            k.update(config_kw(c))
            with open(src, 'w') as f:
                f.write(chartgen.Chart(name, seed, **k).cpp())
            o = os.path.join(self.dir, name + '.o')
            objs[c].append(o)
            jobs.append((src, o, [opt] + san + config_flags(c)))
        POOL.map(compile_obj, jobs)
        self.exe = {}
        for c, e in zip(cfgs, POOL.map(link, [(objs[c] + [self.model], os.path.join(self.dir, 't_' + c), san) for c in cfgs])):
            self.exe[c] = e
        for c in cfgs:
            for o in objs[c]:
                try:
                    os.unlink(o)
                except OSError:
                    pass


def make_charts(prop, fams, cfgs, n, translators=(0, 1, 2), alloc=(0, 0, 1), extra=None):
    out = []
    for i in range(n):
        fam = fams[i % len(fams)]
        cfg = cfgs[(i // len(fams) + i) % len(cfgs)]
        kw = dict(FAMILIES[fam])
        kw.update(extra or {})
        j = i // max(1, len(fams))
        kw['translator'] = translators[(i + j) % len(translators)]
        kw['alloc'] = alloc[(i + j) % len(alloc)]
        out.append(('%s_%s_%d' % (prop.lower(), fam, i), seed_for(prop, fam, i), kw, cfg))
    return out


def run_one(b, chart, mode, profile, episodes, want, seed, frm=0, timeout=800):
    name, cseed, kw, cfg = chart
    out = os.path.join(b.dir, 'o_%s_%s_%x' % (name, mode, abs(hash((profile, seed, frm))) & 0xffffff))
    cmd = b.wrap + [b.exe[cfg], '--chart', name, '--seed', str(seed), '--episodes', str(episodes), '--from', str(frm), '--mode', mode,
           '--out', out, '--want', str(want)]
    if profile:
        cmd += ['--profile', profile]
    rc, o, e = sh(cmd, timeout)
    res = dict(chart=chart, mode=mode, profile=profile, episodes=episodes, seed=seed, rc=rc, err=(o + e)[:1500] if b.wrap else (o + e)[-1500:], V=[], N={},
               K=set(), S=[], done=False)
    try:
        with open(out, errors='replace') as f:
            for l in f:
                p = l.rstrip('\n').split('\t')
                if p[0] == 'V':
                    res['V'].append((p[1].split(','), p[2], int(p[3]), p[4].replace('\\n', '\n')))
                elif p[0] == 'N':
                    res['N'][p[1]] = int(p[2])
                elif p[0] == 'K':
                    if int(p[1]) == want:
                        res['K'].add(p[2])
                elif p[0] == 'S':
                    res['S'].append(p[1])
                elif p[0] == 'DONE':
                    res['done'] = True
        os.unlink(out)
    except OSError:
        pass
    return res


def execute(v, b, runs):
    """runs: list of (chart, mode, profile, episodes). Adds everything to verdict v."""
    want = int(v.prop[1:])
    # longest first, split into batches for balance
    items = []
    for i, (chart, mode, profile, episodes) in enumerate(runs):
        items.append((b, chart, mode, profile, episodes, want, seed_for('run', v.prop, chart[0], mode, profile)))
    known = v.known()
    state = dict(runs=0, stop=False)

    def one(*a):
        # once the verdict is certain the rest of the workload only takes time
        if state['stop']:
            return None
        r = run_one(*a)
        bad = [m for t, _, _, m in r['V'] if v.prop in t and not any(rx.search(m) for rx, _ in known)]
        state['runs'] += bool(bad)
        if state['runs'] >= 16 or any('no progress (hang)' in m for m in bad):
            state['stop'] = True
        return r
    for r in POOL.map(one, items):
        if r is None:
            v.count('runs_skipped_after_violations')
            continue
        if r['rc'] not in (0, 1) or not r['done']:
            raise HarnessError('run of %s (%s) ended with rc %s: %s' % (r['chart'][0], r['mode'], r['rc'], r['err']))
        for tags, cname, ep, msg in r['V']:
            if b.wrap:
                tags = sorted(set(tags) | {'C15'})
                msg += '\n' + r['err']
            info = dict(chart=list(r['chart'][:3]) + [r['chart'][3]], mode=r['mode'], profile=r['profile'], run_seed=r['seed'],
                        episode=ep, tags=tags, wrap=b.wrap)
            if v.prop in tags or tags == ['C29'] and v.prop == 'C12':
                v.violation('chart %s (seed %s, config %s) mode %s episode %d: %s' % (cname, r['chart'][1], r['chart'][3] or '-',
                                                                                 r['mode'], ep, msg), **info)
            elif tags != ['C29']:
                for t in tags:
                    v.other[t] = v.other.get(t, 0) + 1
        for k, n in r['N'].items():
            v.count(k, n)
        v.keys |= r['K']
        v.samples += r['S']
    v.evaluations = v.counters.get('episodes', 0)
    v.samples.sort(key=lambda s: -len(s))


VALGRIND = ['valgrind', '-q', '--exit-on-first-error=yes', '--error-exitcode=77', '--num-callers=12', '--leak-check=no']


def memcheck(v):
    """charts without compiler sanitizers under memcheck: decisions that
    depend on uninitialised memory, in library and standard library code"""
    n = 48 if THOROUGH else 8
    cs = make_charts('C15vg', ['mixed', 'ortho', 'exh', 'shist', 'defer', 'dhist', 'term', 'noexit'], ['D', 'N', 'VD'], n, alloc=(0, 0, 0))
    b = Build(cs, 'vg', san=[], opt='-O1', wrap=VALGRIND)
    before = v.counters.get('episodes', 0)
    execute(v, b, [(c, 'model', 'orecreate=6,wdefer=20,post=200,' + p, 2500 if THOROUGH else 250) for c in cs for p in (EXC, EXCLOW)])
    v.count('episodes_under_memcheck', v.counters.get('episodes', 0) - before)
    shutil.rmtree(b.dir, ignore_errors=True)
