"""Shared plumbing of all checks: scratch builds from /repo's working tree,
parallel runs, verdicts, known findings, evidence."""
import atexit, concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
INC = ['-I' + os.path.join(VERIF, 'lib'), '-I' + os.path.join(REPO, 'include'), '-I/opt/vp/boost-root/guard']
BASE = ['-std=c++17', '-w', '-ferror-limit=3', '-fno-omit-frame-pointer', '-g1']
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
TSAN = ['-fsanitize=thread']
JOBS = max(2, min(16, os.cpu_count() or 8))
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'

SANENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=77:detect_leaks=1:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=0:malloc_context_size=4:quarantine_size_mb=32',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=77',
    'LSAN_OPTIONS': 'exitcode=77:print_suppressions=0',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=77:second_deadlock_stack=1:history_size=4',
}


class HarnessError(Exception):
    pass


class Rejected(HarnessError):
    """the compiler rejects a valid program, because of the library"""


def compile_failed(src, flags, rc, out):
    m = 'compiling %s (%s) failed (rc %s):\n%s' % (src, ' '.join(flags), rc, out[:1500])
    if rc == 1 and 'error:' in out and '/boost/statechart/' in out:
        return Rejected(m)
    return HarnessError(m)


def seed_for(*a):
    """a 31-bit number derived from VERIF_SEED and the arguments"""
    return int(hashlib.sha1(('%d/' % SEED + '/'.join(map(str, a))).encode()).hexdigest()[:7], 16)


_tmp = None


def scratch():
    global _tmp
    if _tmp is None:
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) and \
            shutil.disk_usage('/dev/shm').free > (2 << 30) else None
        _tmp = tempfile.mkdtemp(prefix='vchk-', dir=base)
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def sh(cmd, timeout=600, env=None, cwd=None, stdin=None):
    """returns (rc, stdout, stderr); rc None on timeout. Own process group."""
    e = dict(os.environ)
    e.update(SANENV)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                         env=e, cwd=cwd, start_new_session=True)
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace'), er.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, er = p.communicate()
        return None, o.decode('utf8', 'replace'), er.decode('utf8', 'replace')


def compile_obj(src, obj, flags, timeout=400):
    rc, o, e = sh(['clang++'] + BASE + flags + INC + ['-c', src, '-o', obj], timeout)
    if rc != 0:
        raise compile_failed(src, flags, rc, o + e)
    return obj


def link(objs, exe, flags, libs=(), timeout=400):
    rc, o, e = sh(['clang++'] + flags + list(objs) + ['-o', exe] + list(libs), timeout)
    if rc != 0:
        raise HarnessError('linking %s failed (rc %s):\n%s' % (exe, rc, (o + e)[:1500]))
    return exe


class Pool:
    def __init__(self):
        self.ex = cf.ThreadPoolExecutor(JOBS)

    def map(self, f, items):
        fs = [self.ex.submit(f, *i) if isinstance(i, tuple) else self.ex.submit(f, i) for i in items]
        return [x.result() for x in fs]


POOL = Pool()


class Verdict:
    """collects violations of one property and writes everything a check has to write"""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.viol = []      # dicts with 'msg' and replay information
        self.other = {}     # violations seen that belong to other properties
        self.counters = {}
        self.keys = set()
        self.samples = []
        self.evaluations = 0
        self.rule = ''
        self.assumptions = []
        self.extra = {}
        self.level = 'exploration'

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def violation(self, msg, **info):
        self.viol.append(dict(info, msg=msg))

    def known(self):
        out = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'known: property=(\S+) match=/(.*?)/ (.*)', l)
                if m and m.group(1) == self.prop:
                    out.append((re.compile(m.group(2), re.S), m.group(3)))
        return out

    def unlisted(self):
        known = self.known()
        return [v for v in self.viol if not any(rx.search(v['msg']) for rx, _ in known)]

    def finish(self):
        known = self.known()
        shown, bad = set(), []
        for v in self.viol:
            for rx, txt in known:
                if rx.search(v['msg']):
                    shown.add(txt)
                    break
            else:
                bad.append(v)
        for txt in sorted(shown):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, txt))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.keys), rule=self.rule,
                   samples=[s[:2500] for s in self.samples[:3]], observed=dict(sorted(self.counters.items())))
        cov.update(self.extra)
        if self.other:
            cov['violations_of_other_properties_seen'] = self.other
        ev = dict(property=self.prop, tier='thorough' if THOROUGH else 'quick', seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(bad))
        p = os.path.join(VERIF, 'evidence', self.prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)
        if bad:
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, self.prop + '.json')
            with open(rp, 'w') as f:
                json.dump(dict(property=self.prop, seed=SEED, tier=TIER, violations=bad[:20]), f, indent=1)
            for v in bad[:3]:
                print('--- ' + v['msg'][:1800])
            print('%d violation(s) observed' % len(bad))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if not self.evaluations or not self.keys:
            raise HarnessError('nothing was observed: evaluations=%d distinct=%d' % (self.evaluations, len(self.keys)))
        print('%s held: %d evaluations, %d distinct situations, %.1f s' % (self.prop, self.evaluations, len(self.keys),
                                                                      time.time() - self.t0))
        return 0
