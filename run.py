#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

  run.py C01 [--tier quick|thorough]   exit 0: held on everything explored; 1: VIOLATION
  run.py --replay FILE                 repeats the case recorded in a replay file
  run.py --setup                       verifies that the tools needed are there

Everything is built in a scratch directory that is removed at the end.
"""
import concurrent.futures as cf
import json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(HERE, 'harness')
EVIDENCE = os.path.join(HERE, 'evidence')
REPLAYS = os.path.join(HERE, 'replays')
KNOWN = os.path.join(HERE, 'known_findings.txt')
JOBS = max(2, min(8, os.cpu_count() or 8))
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

SAN = '-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer'
VARIANTS = {
    # name: (flags for the library and the harness, flags for the library only, flags for the harness only, extra harness sources)
    'asan':  ('-O1 -g1 -DNDEBUG ' + SAN, '', '', []),
    'dbg':   ('-O1 -g1 ' + SAN, '', '', []),                        # assertions and VCD_DFATAL end the process
    'plain': ('-O2 -g1 -DNDEBUG', '', '', []),
    'mem':   ('-O1 -g1 -DNDEBUG', '', '', []),                      # for valgrind
    'tsan':  ('-O1 -g1 -DNDEBUG -fsanitize=thread', '', '', []),
    'work':  ('-O1 -DNDEBUG', '-fsanitize-coverage=trace-pc-guard', '-DVERIF_WORK_METER', ['workmem.cc']),
    'fuzz':  ('-O1 -g1 -DNDEBUG ' + SAN, '-fsanitize=fuzzer-no-link', '-fsanitize=fuzzer -DVERIF_NO_MAIN -DVERIF_FUZZ', []),
}
LIBS = ['libvcddec.a', 'libvcdenc.a', 'libvcdcom.a']


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    """Runs a step of a build; once more if a compiler crashed or was killed."""
    for again in (1, 1, 0):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
        if r.returncode == 0 or not again or not re.search(rb'exit code 139|exit code 135|Segmentation fault|signal 9|Killed|PLEASE submit a bug report|Cannot allocate memory', r.stdout):
            return r
        time.sleep(2)


class Builder:
    """Builds /repo's libraries and the monitors, one directory per variant."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.locks = {}
        self.done = {}
        self.guard = threading.Lock()

    def _once(self, key, fn):
        with self.guard:
            lock = self.locks.setdefault(key, threading.Lock())
        with lock:
            if key not in self.done:
                self.done[key] = fn()
            return self.done[key]

    def configure(self, variant):
        def go():
            both, lib, _, _ = VARIANTS[variant]
            d = os.path.join(self.scratch, 'b_' + variant)
            flags = both + ' ' + lib
            r = sh(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_C_COMPILER=clang', '-DCMAKE_CXX_COMPILER=clang++',
                    '-DCMAKE_BUILD_TYPE=None', '-DBUILD_TESTING=OFF', '-Dvcdiff_use_system_gflags=ON',
                    '-DCMAKE_CXX_FLAGS=' + flags, '-DCMAKE_C_FLAGS=' + flags])
            if r.returncode:
                raise BuildError('cmake (%s):\n%s' % (variant, r.stdout.decode(errors='replace')[-3000:]))
            return d
        return self._once(('conf', variant), go)

    def library(self, variant):
        def go():
            d = self.configure(variant)
            r = sh(['ninja', '-C', d] + LIBS)
            if r.returncode:
                raise BuildError('build (%s):\n%s' % (variant, r.stdout.decode(errors='replace')[-3000:]))
            return d
        return self._once(('lib', variant), go)

    def tool(self, variant):
        """The vcdiff program."""
        def go():
            d = self.library(variant)
            r = sh(['ninja', '-C', d, 'vcdiff'])
            if r.returncode:
                raise BuildError('build of vcdiff (%s):\n%s' % (variant, r.stdout.decode(errors='replace')[-3000:]))
            return os.path.join(d, 'vcdiff')
        return self._once(('tool', variant), go)

    def generator(self):
        """The program that makes cases for the checks of the vcdiff program."""
        def go():
            both = VARIANTS['plain'][0]
            d = self.library('plain')
            exe = os.path.join(d, 'gen_cli')
            r = sh(['clang++', '-std=c++17', '-w', '-DVERIF_NO_MAIN'] + both.split() + ['-I' + os.path.join(REPO, 'src'), '-I' + d, '-I' + HARNESS,
                    os.path.join(HARNESS, 'gen_cli.cc'), os.path.join(HARNESS, 'common.cc')] + [os.path.join(d, l) for l in LIBS] + ['-lpthread', '-o', exe])
            if r.returncode:
                raise BuildError('gen_cli:\n%s' % r.stdout.decode(errors='replace')[-3000:])
            return exe
        return self._once(('gen',), go)

    def _object(self, variant, src):
        def go():
            both, _, own, _ = VARIANTS[variant]
            d = self.configure(variant)
            o = os.path.join(d, 'h_' + src.replace('.cc', '.o'))
            r = sh(['clang++', '-std=c++17', '-c', '-w'] + both.split() + own.split() +
                   ['-I' + os.path.join(REPO, 'src'), '-I' + d, '-I' + HARNESS, os.path.join(HARNESS, src), '-o', o])
            if r.returncode:
                raise BuildError('%s (%s):\n%s' % (src, variant, r.stdout.decode(errors='replace')[-3000:]))
            return o
        return self._once(('obj', variant, src), go)

    def monitor(self, variant, name):
        def go():
            both, _, own, extra = VARIANTS[variant]
            with cf.ThreadPoolExecutor(4) as ex:
                lib = ex.submit(self.library, variant)
                objs = [ex.submit(self._object, variant, s) for s in [name + '.cc', 'common.cc'] + extra]
                d = lib.result()
                objs = [o.result() for o in objs]
            exe = os.path.join(d, name)
            r = sh(['clang++'] + both.split() + own.split() + objs + [os.path.join(d, l) for l in LIBS] + ['-lpthread', '-o', exe])
            if r.returncode:
                raise BuildError('link %s (%s):\n%s' % (name, variant, r.stdout.decode(errors='replace')[-3000:]))
            return exe
        return self._once(('mon', variant, name), go)


ENV = dict(os.environ)
for k in ('MALLOC_PERTURB_', 'MALLOC_ARENA_MAX', 'GLIBCXX_TUNABLES'):
    ENV.pop(k, None)
ENV['ASAN_OPTIONS'] = 'exitcode=99:detect_stack_use_after_return=1:max_allocation_size_mb=2500:hard_rss_limit_mb=4500:allocator_may_return_null=0:detect_leaks=1:strict_string_checks=1:check_initialization_order=1'
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1'
ENV['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:history_size=4'
ENV['LC_ALL'] = 'C'


def proc_env(job):
    e = dict(ENV)
    e.update(job.get('env', {}))
    return e


def limits(job):
    def f():
        if job.get('stack'):
            resource.setrlimit(resource.RLIMIT_STACK, (job['stack'], job['stack']))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


class Result:
    """What the monitors of one check observed."""

    def __init__(self):
        self.lock = threading.Lock()
        self.evaluations = 0
        self.distinct = set()
        self.extra_distinct = 0
        self.events = {}
        self.seen = {}
        self.samples = []
        self.violations = []    # (message, replay dict)
        self.notes = []
        self.per_job = {}

    def ev(self, k, n=1):
        with self.lock:
            self.events[k] = self.events.get(k, 0) + n

    def mx(self, k, v):
        with self.lock:
            self.events[k] = max(self.events.get(k, 0), v)

    def state(self, k, v):
        with self.lock:
            self.seen.setdefault(k, set()).add(v)

    def add_case(self, key):
        with self.lock:
            self.evaluations += 1
            if key is not None:
                self.distinct.add(key)

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 8:
                self.samples.append(s)

    def violation(self, msg, replay):
        with self.lock:
            self.violations.append((msg, replay))

    def merge(self, jobname, stats, hashes):
        with self.lock:
            self.evaluations += stats['evaluations']
            self.per_job[jobname] = self.per_job.get(jobname, 0) + stats['cases']
            for k, v in stats['events'].items():
                if k == 'digest':
                    continue
                if k.startswith(('max ', 'largest ')) or 'work per 1000' in k:
                    self.events[k] = max(self.events.get(k, 0), v)
                else:
                    self.events[k] = self.events.get(k, 0) + v
            for k, v in stats['seen'].items():
                self.seen.setdefault(k, set()).update(v)
            for s in stats['samples']:
                if len(self.samples) < 8:
                    self.samples.append(s)
            self.distinct.update(hashes)


def command(exe, prop, seed, shard, job, stats=None, journal=None, deadline=0, verbose=False, cpu=None):
    c = []
    if job.get('valgrind'):
        c += ['valgrind', '-q', '--error-exitcode=97', '--leak-check=no', '--num-callers=20', '--main-stacksize=8388608']
    c += [exe, prop, '--seed', str(seed), '--first', str(shard[0]), '--count', str(shard[1]), '--step', str(shard[2]),
          '--cpu', str(cpu or job.get('cpu', 10))]
    c += job.get('args', [])
    if stats:
        c += ['--stats', stats]
    if journal:
        c += ['--journal', journal]
    if deadline:
        c += ['--deadline', '%.1f' % deadline]
    if verbose:
        c += ['-v']
    return c


def tail(b, n=6000):
    s = b.decode(errors='replace')
    return s if len(s) <= n else s[:n // 2] + '\n...\n' + s[-n // 2:]


def describe(rc, out):
    m = re.search(r'MONITOR-(VIOLATION|HANG) [^\n]*', out)
    if m:
        return m.group(0)
    for pat in (r'SUMMARY: [^\n]*', r'runtime error: [^\n]*', r'WARNING: ThreadSanitizer[^\n]*', r'==\d+== (Conditional jump|Use of uninit|Invalid|Syscall param)[^\n]*', r'FATAL: [^\n]*', r'Assertion [^\n]*', r'terminate called[^\n]*'):
        m = re.search(pat, out)
        if m:
            return 'exit status %d: %s' % (rc, m.group(0))
    return 'exit status %d' % rc


class JobRunner:
    def __init__(self, prop, seed, builder, result, deadline_at):
        self.prop, self.seed, self.b, self.r, self.deadline_at = prop, seed, builder, result, deadline_at
        self.scratch = builder.scratch
        self.n = 0
        self.lock = threading.Lock()
        self.stop = False
        self.digests = {}

    def uniq(self):
        with self.lock:
            self.n += 1
            return os.path.join(self.scratch, 'run%d' % self.n)

    def execute(self, job, exe, shard, deadline=0, verbose=False, cpu=None, wall=None):
        u = self.uniq()
        cmd = command(exe, self.prop, self.seed, shard, job, u + '.stats', u + '.journal', deadline, verbose, cpu)
        with open(u + '.out', 'wb') as f:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, env=proc_env(job), preexec_fn=limits(job),
                                 cwd=self.scratch, start_new_session=True)
            try:
                rc = p.wait(timeout=wall or 700)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = 43
        out = open(u + '.out', 'rb').read()
        stats = None
        hashes = []
        idx = None
        try:
            j = open(u + '.journal', 'rb').read(16)
            idx = struct.unpack('<QQ', j)[0]
        except Exception:
            pass
        if rc == 0:
            stats = json.load(open(u + '.stats'))
            raw = open(u + '.stats.hashes', 'rb').read()
            hashes = struct.unpack('<%dQ' % (len(raw) // 8), raw)
        for e in ('.out', '.stats', '.stats.hashes', '.journal'):
            try:
                os.unlink(u + e)
            except OSError:
                pass
        return rc, out, stats, hashes, idx

    def shard(self, job, exe, shard):
        if self.stop:
            return
        left = self.deadline_at - time.time()
        if left < 1:
            self.r.ev('shards not run (deadline)')
            return
        rc, out, stats, hashes, idx = self.execute(job, exe, shard, deadline=left, wall=left + 120)
        if rc == 0:
            self.r.merge(job['name'], stats, hashes)
            if 'digest' in job:
                with self.lock:
                    self.digests.setdefault(shard, {})[job['name']] = (stats['events'].get('digest', 0), stats['cases'])
            return
        self.failure(job, exe, shard, rc, out, idx)

    def failure(self, job, exe, shard, rc, out, idx):
        """A monitor stopped: confirm, so that a disturbance from outside is not reported."""
        text = tail(out)
        confirmed = None
        single = (idx, 1, 1) if idx is not None else None
        if single:
            cpu = job.get('cpu', 10) * (3 if rc == 43 else 1)
            rc2, out2, _, _, _ = self.execute(job, exe, single, verbose=True, cpu=cpu, wall=300)
            if rc2 != 0 and rc2 != -9:
                confirmed, shard_used, text, rcu = True, single, tail(out2), rc2
        if not confirmed:
            # perhaps the cases before it matter (leaks, state that is kept)
            n = (idx - shard[0]) // shard[2] + 1 if idx is not None else shard[1]
            rng = (shard[0], max(1, n), shard[2])
            rc2, out2, _, _, _ = self.execute(job, exe, rng, cpu=job.get('cpu', 10) * 3, wall=600)
            if rc2 != 0 and rc2 != -9:
                confirmed, shard_used, text, rcu = True, rng, tail(out2), rc2
        if not confirmed:
            if rc in (43, -9, -15):
                self.r.notes.append('a shard ended with status %d but its cases run through alone' % rc)
                return
            # an error report of a sanitizer or monitor stands even if the schedule cannot be repeated
            confirmed, shard_used, rcu = True, shard, rc
        if rcu == 42 or rcu in (64, 65):
            self.r.notes.append('harness problem: ' + describe(rcu, text) + '\n' + text[-800:])
            return
        self.stop = True
        self.r.violation(describe(rcu, text), {'property': self.prop, 'job': job['name'], 'seed': self.seed, 'shard': list(shard_used),
                                               'exit_status': rcu, 'report': text})

    def compare_digests(self, jobs, exes):
        """Runs of the same cases in different builds must have produced the same bytes."""
        if self.stop:
            return
        for sh_, d in self.digests.items():
            if len(d) < 2:
                continue
            v = list(d.items())
            self.r.ev('shards compared between builds and environments')
            a, b = v[0], v[1]
            if a[1][1] != b[1][1] or a[1][0] == b[1][0]:
                continue
            # locate the case
            ja = next(j for j in jobs if j['name'] == a[0])
            jb = next(j for j in jobs if j['name'] == b[0])
            lo, n, step = sh_[0], a[1][1], sh_[2]
            while n > 1:
                h = n // 2
                da = self.execute(ja, exes[ja['name']], (lo, h, step))[2]['events'].get('digest', 0)
                db = self.execute(jb, exes[jb['name']], (lo, h, step))[2]['events'].get('digest', 0)
                if da != db:
                    n = h
                else:
                    lo += h * step
                    n -= h
            self.stop = True
            self.r.violation('case %d: the delta differs between two runs (builds %s and %s)' % (lo, a[0], b[0]),
                             {'property': self.prop, 'job': a[0], 'other_job': b[0], 'seed': self.seed, 'shard': [lo, 1, 1], 'digest': True, 'report': ''})
            return


def run_monitors(prop, spec, tier, seed, builder, result, deadline_at):
    jobs = [dict(j) for j in spec['jobs'] if tier in j.get('tiers', ('quick', 'thorough'))]
    for j in jobs:
        j['name'] = j.get('name') or j['variant']
        if tier == 'thorough':
            j['args'] = list(j.get('args', [])) + ['--thorough']
    exes = {}
    with cf.ThreadPoolExecutor(8) as ex:
        fs = {j['name']: ex.submit(builder.monitor, j['variant'], j.get('monitor', spec['monitor'])) for j in jobs}
        for k, f in fs.items():
            exes[k] = f.result()
    runner = JobRunner(prop, seed, builder, result, deadline_at)
    tasks = []
    for j in jobs:
        n = j['quick'] if tier == 'quick' else j.get('thorough', j['quick'] * 12)
        k = j.get('shards') or min(max(1, n // 8), 16 if tier == 'quick' else 64)
        base = j.get('base', 0)
        for i in range(k):
            c = (n - i + k - 1) // k
            if c > 0:
                tasks.append((j, (base + i, c, k)))
    # long ones of every job first, mixed
    tasks.sort(key=lambda t: t[1][0])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda t: runner.shard(t[0], exes[t[0]['name']], t[1]), tasks))
    runner.compare_digests(jobs, exes)


def known_findings(prop):
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                res.append(line[len('finding: '):])
    return res


def write_evidence(prop, spec, tier, seed, r, wall):
    os.makedirs(EVIDENCE, exist_ok=True)
    cov = {
        'evaluations': r.evaluations,
        'distinct_nontrivial': len(r.distinct),
        'rule': spec['rule'],
        'samples': r.samples[:6] or ['(none)'],
        'observed_events': dict(sorted(r.events.items())),
        'distinct_states_observed': {k: len(v) for k, v in sorted(r.seen.items())},
        'cases_by_build': r.per_job,
    }
    if r.notes:
        cov['notes'] = r.notes[:10]
    doc = {'property': prop, 'tier': tier, 'seed': seed, 'level': spec['level'], 'coverage': cov,
           'assumptions': spec.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(r.violations)}
    tmp = os.path.join(EVIDENCE, prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, prop + '.json'))


def write_replay(prop, seed, n, msg, replay):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '%s-%d-%d.json' % (prop, seed, n))
    replay = dict(replay)
    replay['message'] = msg
    with open(path, 'w') as f:
        json.dump(replay, f, indent=1)
    return path


def check(prop, tier, seed):
    spec = PROPS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    r = Result()
    try:
        builder = Builder(scratch)
        deadline_at = t0 + (420 if tier == 'quick' else 3000)
        try:
            if 'cli' in spec:
                import cli
                cli.run(prop, spec, tier, seed, builder, r, deadline_at)
            else:
                run_monitors(prop, spec, tier, seed, builder, r, deadline_at)
                if tier == 'thorough' and spec.get('fuzz'):
                    import fuzz
                    fuzz.run(prop, spec, seed, builder, r, deadline_at)
        except BuildError as e:
            # Nothing can be said about a tree that does not build.
            print('BUILD FAILED: %s' % e)
            return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for line in known_findings(prop):
        print('KNOWN-FINDING: ' + line)
    wall = time.time() - t0
    write_evidence(prop, spec, tier, seed, r, wall)
    for n in r.notes[:5]:
        print('note: ' + n)
    if r.violations:
        for i, (msg, replay) in enumerate(r.violations[:5]):
            path = write_replay(prop, seed, i, msg, replay)
            print(msg)
            if replay.get('report'):
                print('\n'.join('  | ' + l for l in replay['report'].splitlines()[:60]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if r.evaluations == 0:
        print('nothing was evaluated')
        return 2
    print('%s: held on %d evaluations (%d distinct non-trivial), %.1f s' % (prop, r.evaluations, len(r.distinct), wall))
    return 0


def replay(path):
    d = json.load(open(path))
    prop = d['property']
    spec = PROPS[prop]
    scratch = tempfile.mkdtemp(prefix='verif_replay_')
    try:
        b = Builder(scratch)
        if 'cli' in spec:
            import cli
            return cli.replay(d, spec, b)
        if d.get('fuzz'):
            import fuzz
            return fuzz.replay(d, spec, b)
        def one(name):
            job = dict(next(j for j in spec['jobs'] if (j.get('name') or j['variant']) == name))
            exe = b.monitor(job['variant'], job.get('monitor', spec['monitor']))
            job.setdefault('name', name)
            run = JobRunner(prop, d['seed'], b, Result(), time.time() + 600)
            return run.execute(job, exe, tuple(d['shard']), verbose=not d.get('digest'), wall=600)
        rc, out, stats, _, _ = one(d['job'])
        print(tail(out, 20000))
        if d.get('digest') and rc == 0:
            o = one(d['other_job'])
            if o[0] == 0 and stats['events'].get('digest') != o[2]['events'].get('digest'):
                rc = 41
        print('reproduced' if rc else 'not reproduced')
        return 1 if rc else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    missing = [t for t in ('clang', 'clang++', 'cmake', 'ninja', 'valgrind', 'strace') if not shutil.which(t)]
    if missing:
        print('missing tools: ' + ', '.join(missing))
        return 1
    print('tools present')
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        return setup()
    if len(a) == 2 and a[0] == '--replay':
        return replay(a[1])
    if not a or a[0] not in PROPS:
        print(__doc__)
        return 64
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return check(a[0], tier, seed)


if __name__ == '__main__':
    sys.exit(main())
