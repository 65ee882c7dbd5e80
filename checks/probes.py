"""Small fixed scenarios that once exposed a defect; each is also part of what the generators reach."""
from vlib import *

PROBES = {
    'C04': [('relaxed_source_context', [])],
    'C12': [('relaxed_exit_throw', []), ('initiate_on_running', [])],
    'C18': [('const_own_context', [])],
    'C19': [('initiate_on_running', [])],
    'C21': [('worker_header_alone', ['-lboost_thread'])],
    'C23': [('scheduler_header_alone', ['-lboost_thread']), ('processor_ctor_throws', ['-lboost_thread'])],
    'C25': [('processor_ctor_throws', ['-lboost_thread'])],
}


def check(prop, v):
    def one(name, libs):
        d = os.path.join(scratch(), 'probe_' + name)
        os.makedirs(d, exist_ok=True)
        src = os.path.join(VERIF, 'probes', name + '.cpp')
        exe = os.path.join(d, 'p')
        rc, o, e = sh(['clang++'] + BASE + ASAN + INC + [src, '-o', exe] + libs, 300)
        if rc != 0:
            if '/boost/statechart/' in o + e and ' error: ' in o + e:
                v.violation('probe %s, a valid program, does not compile:\n%s' % (name, (o + e)[:800]), probe=name)
                return
            raise HarnessError('probe %s does not compile: %s' % (name, (o + e)[:800]))
        rc, o, e = sh([exe], 60)
        if rc is None:
            rc, o, e = sh([exe], 120)
        v.count('probes')
        if rc != 0:
            v.violation('probe %s failed (rc %s): %s' % (name, rc, (o + e)[:1200]), probe=name)
    POOL.map(one, PROBES.get(prop, []))
