#!/usr/bin/env python3
"""replay.py FILE [N] [--verbose] [--keep DIR]: re-runs the N-th recorded violation of a check (charts and thread programs)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import charts


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    v = json.load(open(a[0]))['violations'][int(a[1]) if len(a) > 1 else 0]
    if 'threads' in v:
        import threads
        t = v['threads']
        exe = threads.build([(t['kind'], t['scenario'])])
        rc, o, e = sh([exe[t['kind'], t['scenario']], '--scenario', t['scenario'], '--seed', str(t['seed']), '--from', str(t['episode']), '--episodes', '1',
                       '--want', str(t.get('want', 0)), '--out', '/dev/stdout', '--verbose'] + (['--pin', '0'] if t['kind'] != 'r' else []), 300)
        print(o[:20000].replace('\\n', '\n'), e[-6000:])
        return 0
    if 'chart' not in v:
        print(v['msg'])
        if 'cmd' in v:
            print('command:', v['cmd'])
        return 0
    chart = tuple(v['chart'])
    wrap = v.get('wrap') or []
    b = charts.Build([chart], 'replay', san=[], opt='-O1', wrap=wrap) if wrap else charts.Build([chart], 'replay')
    cmd = wrap + [b.exe[chart[3]], '--seed', str(v['run_seed']), '--episodes', '1', '--from', str(v['episode']), '--mode', v['mode'],
           '--out', os.path.join(b.dir, 'out')]
    if v['profile']:
        cmd += ['--profile', v['profile']]
    if '--verbose' in sys.argv:
        cmd += ['--verbose']
    if '--keep' in sys.argv:
        k = sys.argv[sys.argv.index('--keep') + 1]
        shutil.copytree(b.dir, k, dirs_exist_ok=True)
    rc, o, e = sh(cmd, 300)
    print(o, e)
    print(open(os.path.join(b.dir, 'out')).read().replace('\\n', '\n')[:6000])
    return 0


sys.exit(main())
