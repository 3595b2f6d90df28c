"""Monitors of the vcdiff command: real processes on scratch files, with faults
injected into their system calls (strace), into their environment (full
devices, size limits, closed streams) and into their input."""
import concurrent.futures as cf
import hashlib, json, os, random, re, resource, shutil, signal, subprocess, threading, time

JOBS = 8
TIMEOUT = 25


class Violated(Exception):
    def __init__(self, msg, report=''):
        super().__init__(msg)
        self.report = report


def rd(path):
    with open(path, 'rb') as f:
        return f.read()


def wr(path, data):
    with open(path, 'wb') as f:
        f.write(data)


class Run:
    __slots__ = ('rc', 'out', 'err', 'cmd')

    def text(self):
        return 'command: %s\nexit status: %s\nstderr: %s' % (' '.join(self.cmd), self.rc, self.err.decode(errors='replace')[-1500:])


SAN_MARKS = (b'ERROR: AddressSanitizer', b'runtime error:', b'ERROR: LeakSanitizer', b'Assertion `', b'WARNING: MemorySanitizer')


def cli_env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'exitcode=99:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2500'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    e['LC_ALL'] = 'C'
    for k in ('MALLOC_PERTURB_',):
        e.pop(k, None)
    return e


ENV = cli_env()


def spawn(cmd, stdin=None, stdout=None, stdin_data=None, pieces=None, capture=True, fsize=None, ignore=(), timeout=TIMEOUT,
          close=(), cwd=None):
    """Runs a command.  stdin/stdout: path, or None; stdin_data: written through a
    pipe in the given pieces.  Raises Violated if it does not end."""
    for attempt in (0, 1):
        files = []
        if stdin_data is not None:
            si = subprocess.PIPE
        elif stdin:
            si = open(stdin, 'rb') if not os.path.isdir(stdin) else os.open(stdin, os.O_RDONLY)
            files.append(si)
        else:
            si = subprocess.DEVNULL
        if stdout:
            so = open(stdout, 'wb')
            files.append(so)
        else:
            so = subprocess.PIPE if capture else subprocess.DEVNULL

        def pre():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGPIPE, signal.SIG_DFL)
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            for s in ignore:
                signal.signal(s, signal.SIG_IGN)
            if fsize is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
            for fd in close:
                os.close(fd)
        p = subprocess.Popen(cmd, stdin=si, stdout=so, stderr=subprocess.PIPE, preexec_fn=pre, env=ENV, start_new_session=True, cwd=cwd)
        for f in files:
            os.close(f) if isinstance(f, int) else f.close()
        feeder = None
        if stdin_data is not None:
            w = p.stdin
            p.stdin = None

            def feed():
                try:
                    pos = 0
                    fd = w.fileno()
                    for n, pause in pieces or [(len(stdin_data), 0)]:
                        part = stdin_data[pos:pos + n]
                        pos += n
                        while part:
                            part = part[os.write(fd, part):]
                        if pause:
                            time.sleep(pause)
                    part = stdin_data[pos:]
                    while part:
                        part = part[os.write(fd, part):]
                except OSError:
                    pass
                finally:
                    try:
                        w.close()
                    except OSError:
                        pass
            feeder = threading.Thread(target=feed)
            feeder.start()
        r = Run()
        r.cmd = cmd
        try:
            r.out, r.err = p.communicate(timeout=timeout * (1 + 3 * attempt))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            r.out, r.err = p.communicate()
            if feeder:
                feeder.join()
            if attempt == 0:
                continue    # confirm with more time
            raise Violated('the command does not end', 'command: ' + ' '.join(cmd))
        if feeder:
            feeder.join()
        r.rc = p.returncode
        if any(m in r.err for m in SAN_MARKS):
            raise Violated('memory error, undefined behaviour or failed assertion in the command', r.text())
        return r


def must_succeed(r, what):
    if r.rc != 0:
        raise Violated('%s: exit status %s where success is due' % (what, r.rc), r.text())


def must_fail(r, what):
    if r.rc == 0:
        raise Violated('%s: exit status 0 where a failure is due' % what, r.text())
    graceful(r, what)


def graceful(r, what):
    """A failure is reported, not a crash."""
    if r.rc == 0:
        return
    if r.rc < 0 or r.rc >= 128:
        raise Violated('%s: the command was ended by signal %d' % (what, -r.rc if r.rc < 0 else r.rc - 128), r.text())
    if not r.err.strip():
        raise Violated('%s: exit status %d without a message on standard error' % (what, r.rc), r.text())


class Tools:
    def __init__(self, builder):
        with cf.ThreadPoolExecutor(4) as ex:
            f = {v: ex.submit(builder.tool, v) for v in ('plain', 'asan', 'dbg')}
            g = ex.submit(builder.generator)
            self.exe = {k: x.result() for k, x in f.items()}
            self.gen = g.result()
        self.scratch = os.path.join(builder.scratch, 'cli')
        os.makedirs(self.scratch, exist_ok=True)

    def generate(self, mode, seed, first, count):
        """Writes cases; the generator uses the library to make some inputs, so if it
        does not get through, the cases are made one by one and the others left out."""
        d = os.path.join(self.scratch, '%s_%d' % (mode, first))
        os.makedirs(d, exist_ok=True)

        def go(a, n, t):
            return subprocess.run([self.gen, mode, d, str(seed), str(a), str(n)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV, timeout=t)
        try:
            r = go(first, count, 60)
            if r.returncode == 0:
                return d, r.stdout.decode().splitlines()
        except subprocess.TimeoutExpired:
            pass
        lines = []
        for i in range(first, first + count):
            try:
                r = go(i, 1, 5)
                if r.returncode == 0:
                    lines += r.stdout.decode().splitlines()
            except subprocess.TimeoutExpired:
                pass
        return d, lines

    def ref(self, dict_path, delta_path, out_path, form=False):
        """The verdict of the independent decoder, its output, and (form) the numbers
        of windows, of those with checksum, of interleaved ones, the size of the
        largest and the number of references to target data."""
        r = subprocess.run([self.gen, 'ref', dict_path, delta_path, out_path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=60)
        if r.returncode:
            return ('NONE', b'') + ((None,) if form else ())
        v = r.stdout.decode().split()
        if form:
            return v[0], rd(out_path), [int(x) for x in v[1:6]]
        return v[0], rd(out_path)


def pieces_of(rng, n):
    res = []
    left = n
    kind = rng.randrange(4)
    while left > 0 and len(res) < 400:
        k = {0: 1, 1: rng.randint(1, 40), 2: rng.randint(1, 5000), 3: rng.choice([1, 3, 4095, 4096, 4097, 65536])}[kind]
        k = min(k, left)
        res.append((k, rng.choice([0, 0, 0, 0, 0.0003]) if len(res) < 60 else 0))
        left -= k
    return res


def flag(rng, name, value=None):
    dash = rng.choice(['-', '--'])
    if value is None:
        return [rng.choice([dash + name, dash + name + '=true'])]
    if rng.random() < 0.5:
        return ['%s%s=%s' % (dash, name, value)]
    return [dash + name, str(value)]


# --------------------------------------------------------------------- JSON
def apply_json(dictionary, text, chunk, total):
    """Interprets the JSON delta.  Chunks of the target have the given size."""
    def no_const(x):
        raise Violated('not JSON: ' + x)
    if not text:
        return b''
    try:
        arr = json.loads(text.decode('ascii'), parse_constant=no_const)
    except ValueError as e:
        raise Violated('the output is not valid JSON: %s' % e, text[:2000].decode(errors='replace'))
    if not isinstance(arr, list):
        raise Violated('the JSON output is not an array')
    out = b''
    cur = b''
    i = 0
    while i < len(arr):
        x = arr[i]
        if isinstance(x, str):
            cur += x.encode('latin-1', 'replace')
            i += 1
        else:
            if not isinstance(x, int) or isinstance(x, bool) or i + 1 >= len(arr) or not isinstance(arr[i + 1], int):
                raise Violated('offset and length expected in the JSON array at element %d' % i)
            off, n = x, arr[i + 1]
            i += 2
            if off < len(dictionary):
                if off + n > len(dictionary):
                    raise Violated('a JSON copy runs beyond the dictionary')
                cur += dictionary[off:off + n]
            else:
                for k in range(n):
                    q = off - len(dictionary) + k
                    if q >= len(cur):
                        raise Violated('a JSON copy refers to data not yet produced')
                    cur += cur[q:q + 1]
        if len(cur) >= chunk:
            if len(cur) > chunk:
                raise Violated('JSON elements cross the end of a chunk')
            out += cur
            cur = b''
    return out + cur


# --------------------------------------------------------------------- C15
def check_stats(r, word, n, m, result):
    """The sizes reported with --stats."""
    got = re.search(rb'%s size: (\d+)' % word.encode(), r.err), re.search(rb'Compressed size: (\d+)', r.err)
    if not all(got):
        raise Violated('--stats reports no sizes', r.text())
    if (int(got[0].group(1)), int(got[1].group(1))) != (n, m):
        raise Violated('--stats reports other sizes than %d and %d' % (n, m), r.text())
    result.ev('size reports verified')


def roundtrip_case(t, d, seed, i, result):
    rng = random.Random('C15/%d/%d' % (seed, i))
    exe = t.exe['asan' if i % 6 == 1 else 'dbg' if i % 12 == 3 else 'plain']
    dic, tgt = os.path.join(d, '%d.dict' % i), os.path.join(d, '%d.target' % i)
    dictionary, target = rd(dic), rd(tgt)
    n = len(target)
    w = os.path.join(d, 'w%d' % i)
    os.mkdir(w)
    try:
        def path(name):
            return os.path.join(w, rng.choice(['%s', '%s file', '-%s', '%s=x', '%s.bin']) % name)
        if rng.random() < 0.5:
            dic = shutil.copy(dic, path('dict'))
        if rng.random() < 0.5:
            tgt = shutil.copy(tgt, path('target'))
        # the buffer size
        buf = rng.choice([None, None, 1, 2, 3, 7, 16, 31, 32, 33, 100, 1000, 4095, 4096, 4097, 65536, 1 << 20, n, n + 1, n - 1, n // 2, n // 2 + 1, 5 * n])
        if buf is not None:
            buf = max(1, buf)
            if n / buf > 4000:
                buf = max(1, n // rng.randint(10, 3000))
        bufflag = [] if buf is None else flag(rng, 'buffersize', buf)
        chunk = 1 << 20 if buf is None else buf
        opts = []
        inter, check, tm, stats = (rng.random() < p for p in (0.5, 0.5, 0.5, 0.3))
        for on, name in ((inter, 'interleaved'), (check, 'checksum'), (tm, 'target_matches'), (stats, 'stats')):
            if on:
                opts += flag(rng, name)
            elif rng.random() < 0.1:
                opts += [rng.choice(['--no%s' % name, '--%s=false' % name])]
        json_out = all(c < 128 for c in dictionary) and all(c < 128 for c in target) and i % 8 in (3, 4)
        if json_out:
            opts += flag(rng, 'json')
        ddict = flag(rng, 'dictionary', dic)

        def assemble(cmd, parts):
            parts = [p for p in parts if p]
            rng.shuffle(parts)
            at = rng.randrange(len(parts) + 1)
            res = []
            for k, p in enumerate(parts):
                if k == at:
                    res.append(cmd)
                res += p
            if at == len(parts):
                res.append(cmd)
            return [exe] + res

        def route(cmd, common, in_name, in_path, out_name, what):
            """Runs the command with one way of passing data in and out."""
            how_in = rng.choice(['file', 'redirect', 'pipe'])
            how_out = rng.choice(['file', 'redirect', 'pipe'])
            outp = path('out_' + what)
            parts = list(common)
            kw = {}
            if how_in == 'file':
                parts.append(flag(rng, in_name, in_path))
            elif how_in == 'redirect':
                kw['stdin'] = in_path
            else:
                data = rd(in_path)
                kw['stdin_data'] = data
                kw['pieces'] = pieces_of(rng, len(data))
            if how_out == 'file':
                if rng.random() < 0.3:
                    wr(outp, os.urandom(1) * (2 * n + 300))   # an older, longer file
                parts.append(flag(rng, out_name, outp))
            elif how_out == 'redirect':
                kw['stdout'] = outp
            r = spawn(assemble(cmd, parts), **kw)
            must_succeed(r, '%s (%s -> %s)' % (what, how_in, how_out))
            result.state('routes', '%s %s %s' % (what, how_in, how_out))
            result.ev('%s runs' % what)
            if how_out == 'pipe':
                wr(outp, r.out)
            elif how_out == 'file' and r.out:
                raise Violated('%s to a file also wrote to standard output' % what, r.text())
            return outp, r

        enc, r = route(rng.choice(['encode', 'delta']), [ddict, bufflag, opts], 'target', tgt, 'delta', 'encode')
        delta = rd(enc)
        info = 'dictionary %d bytes, target %d bytes, %s' % (len(dictionary), n, ' '.join(bufflag + opts))
        if stats and n:
            check_stats(r, 'Original', n, len(delta), result)
        if json_out:
            got = apply_json(dictionary, delta, chunk, n)
            if got != target:
                raise Violated('the JSON delta does not reconstruct the target', info + '\n' + r.text())
            result.ev('JSON outputs interpreted')
        else:
            verdict, out, form = t.ref(dic, enc, os.path.join(w, 'ref.out'), True)
            if verdict != 'ACCEPT' or out != target:
                raise Violated('the delta is not one of the target (independent decoder: %s)' % verdict, info + '\n' + r.text())
            if (delta[3:4] == b'S') != (inter or check):
                raise Violated('the format extension is not as requested', info + '\n' + r.text())
            wins, sums, inters, largest, own = form
            if sums != (wins if check else 0):
                raise Violated('%d of %d windows have a checksum' % (sums, wins), info + '\n' + r.text())
            if inters != (wins if inter else 0):
                raise Violated('%d of %d windows are interleaved' % (inters, wins), info + '\n' + r.text())
            if own and not tm:
                raise Violated('%d references to target data without --target_matches' % own, info + '\n' + r.text())
            if largest > chunk:
                raise Violated('a window of %d bytes with a buffer size of %d' % (largest, chunk), info + '\n' + r.text())
            result.ev('windows whose format was verified', wins)
            result.ev('references to target data', own)
            # decode it, twice, in different ways
            for k in range(2):
                limits = []
                if rng.random() < 0.3:
                    limits = flag(rng, 'max_target_file_size', n + rng.choice([0, 0, 1, 100]))
                if rng.random() < 0.3:
                    limits += flag(rng, 'max_target_window_size', min(n, chunk) + rng.choice([0, 0, 1, 100]))
                if rng.random() < 0.3:
                    limits += [rng.choice(['--allow_vcd_target=false', '--noallow_vcd_target', '--allow_vcd_target'])]
                b2 = rng.choice([None, 1, 2, 5, 100, 4096, len(delta), max(1, len(delta) - 1)])
                if b2 is not None and len(delta) / b2 > 20000:
                    b2 = None
                st2, again = rng.random() < 0.2, rng.random() < 0.2
                o2 = (opts if again else []) + (flag(rng, 'stats') if st2 else [])
                dec, r = route(rng.choice(['decode', 'patch']), [ddict, [] if b2 is None else flag(rng, 'buffersize', b2), limits, o2],
                               'delta', enc, 'target', 'decode')
                if st2 and n:
                    check_stats(r, 'Decompressed', n, len(delta), result)
                if rd(dec) != target:
                    raise Violated('decoding does not reproduce the target', info + '\n' + r.text())
                result.state('decode buffer sizes', 0 if b2 is None else b2)
            # the self-test
            if i % 2 == 0:
                dpath = path('testdelta')
                if rng.random() < 0.3:
                    wr(dpath, b'x' * (2 * n + 300))
                before = rd(tgt)
                r = spawn(assemble('test', [ddict, bufflag, opts, flag(rng, 'target', tgt), flag(rng, 'delta', dpath)]))
                must_succeed(r, 'test')
                if rd(dpath) != delta:
                    raise Violated('the self-test leaves another delta than encoding', info + '\n' + r.text())
                if rd(tgt) != before or rd(dic) != dictionary:
                    raise Violated('the self-test changed its input', info)
                result.ev('self-test runs')
        if rd(tgt) != target or rd(dic) != dictionary:
            raise Violated('an input file was changed', info)
        result.state('encode buffer sizes', chunk)
        result.state('option sets', ' '.join(sorted(x.strip('-').split('=')[0] for x in opts)))
        result.add_case(hashlib.sha1(dictionary + b'|' + target + repr((bufflag, opts)).encode()).hexdigest() if n else None)
        if i % 101 == 7:
            result.sample(info)
    finally:
        shutil.rmtree(w, ignore_errors=True)


# --------------------------------------------------------------------- C16
ERRNOS = {'openat': ['EACCES', 'ENOENT', 'EMFILE'], 'read': ['EIO', 'EINTR', 'EISDIR'], 'write': ['ENOSPC', 'EIO', 'EDQUOT'],
          'close': ['EIO', 'ENOSPC'], 'lseek': ['EIO', 'ESPIPE'], 'newfstatat': ['EIO'], 'fstat': ['EIO'], 'pread64': ['EIO'], 'pwrite64': ['EIO', 'ENOSPC'],
          'writev': ['EIO', 'ENOSPC'], 'readv': ['EIO'], 'fsync': ['EIO'], 'fdatasync': ['EIO'], 'rename': ['EIO'], 'ftruncate': ['EIO']}
# A call that fails once may be without consequences (the C library reads ahead
# when it seeks, for instance, and reads again later); then the output must be
# exactly what it is without the fault.  If opening a file fails, or reading or
# writing fails from some call on, the command has to fail.
STRICT = {'openat'}
LASTING = {'read', 'write', 'pread64', 'pwrite64', 'readv', 'writev', 'fsync', 'fdatasync'}
CALL = re.compile(r'^(\w+)\((.*)$')


class Scenario:
    """A command with its files; run() in a fresh directory."""

    def __init__(self, tools, work, name, kind, routing, dictionary, target, delta, opts):
        self.t, self.work, self.name, self.kind, self.routing = tools, work, name, kind, routing
        self.dictionary, self.target, self.delta, self.opts = dictionary, target, delta, opts

    def run(self, tag, strace=(), exe='plain', **kw):
        w = os.path.join(self.work, '%s_%s' % (self.name, tag))
        os.mkdir(w)
        try:
            p = {k: os.path.join(w, k) for k in ('dict', 'target', 'delta', 'log')}
            wr(p['dict'], self.dictionary)
            if self.kind in ('encode', 'test'):
                wr(p['target'], self.target)
                inp, outp = ('target', 'delta')
            else:
                wr(p['delta'], self.delta)
                inp, outp = ('delta', 'target')
            cmd = [self.t.exe[exe], self.kind, '--dictionary', p['dict']] + self.opts
            if self.routing == 'file' or self.kind == 'test':
                cmd += ['--%s=%s' % (inp, p[inp]), '--%s=%s' % (outp, p[outp])]
            else:
                kw['stdin'] = p[inp]
                kw['stdout'] = p[outp]
            if strace:
                pre = ['strace', '-qq', '-o', p['log']]
                for k in ('dict', 'target', 'delta'):
                    pre += ['-P', p[k]]
                cmd = pre + list(strace) + cmd
            r = spawn(cmd, cwd=w, **kw)
            log = rd(p['log']).decode(errors='replace').splitlines() if strace and os.path.exists(p['log']) else []
            if strace and any('fatal' in l for l in log):
                pass
            # is the output right?
            got = rd(p[outp]) if os.path.exists(p[outp]) else None
            ok = False
            if got is not None:
                if got == (self.target if self.kind == 'decode' else self.delta):
                    ok = 'same'
                elif self.kind == 'decode':
                    ok = False
                else:
                    verdict, out = self.t.ref(p['dict'], p[outp], os.path.join(w, 'ref'))
                    ok = verdict == 'ACCEPT' and out == self.target
            paths = {p[k]: k for k in ('dict', 'target', 'delta')}
            return r, ok, log, paths, outp
        finally:
            shutil.rmtree(w, ignore_errors=True)


def strace_works(t):
    w = os.path.join(t.scratch, 'probe')
    os.makedirs(w, exist_ok=True)
    f = os.path.join(w, 'f')
    wr(f, b'data')
    r = subprocess.run(['strace', '-qq', '-o', os.path.join(w, 'log'), '-P', f, '-e', 'inject=read:error=EIO:when=1', 'cat', f],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return r.returncode == 1 and b'nput/output error' in r.stderr


def parse_calls(log, paths):
    """The calls on the files of a scenario, as (name, ordinal by name, file, line)."""
    count = {}
    res = []
    fds = {}
    for line in log:
        m = CALL.match(line)
        if not m:
            continue
        name, rest = m.groups()
        count[name] = count.get(name, 0) + 1
        which = None
        if name == 'openat':
            for p, k in paths.items():
                if '"%s"' % p in rest:
                    which = k
                    fd = re.search(r'= (\d+)$', line)
                    if fd:
                        fds[fd.group(1)] = k
        else:
            fd = re.match(r'(\d+)', rest)
            if fd:
                which = fds.get(fd.group(1))
                if name == 'close':
                    fds.pop(fd.group(1), None)
        res.append((name, count[name], which, line))
    return res


def scenarios(t, work, rng, quick):
    """Commands whose system calls are enumerated."""
    text = (b'The quick brown fox jumps over the lazy dog; pack my box with five dozen liquor jugs. ' * 90)
    rnd = bytes(rng.getrandbits(8) for _ in range(9000))
    small = bytes(rng.getrandbits(8) for _ in range(300))
    data = [
        ('large', text[:3000] + rnd[:6000], text[500:2500] + rnd[1000:5000] + bytes(rng.getrandbits(8) for _ in range(9000)), ['--buffersize=4096']),
        ('small', small, small[50:200] + b'tail', []),
        ('check', text[:5000], text[100:4000] + rnd, ['--interleaved', '--checksum', '--buffersize=5000']),
        ('empty', small, b'', []),
        ('nodict', b'', small, ['--checksum']),
        ('stats', small, small + small, ['--stats', '--target_matches']),
    ]
    res = []
    for name, dic, tgt, opts in data:
        w = os.path.join(work, 'base_' + name)
        os.mkdir(w)
        wr(w + '/d', dic)
        wr(w + '/t', tgt)
        r = spawn([t.exe['plain'], 'encode', '--dictionary', w + '/d', '--target', w + '/t', '--delta', w + '/x'] + opts)
        must_succeed(r, 'encode')
        delta = rd(w + '/x')
        verdict, out = t.ref(w + '/d', w + '/x', w + '/o')
        if verdict != 'ACCEPT' or out != tgt:
            raise Violated('exit status 0 but the delta does not decode to the target', r.text())
        for kind, routing in (('encode', 'file'), ('encode', 'std'), ('decode', 'file'), ('decode', 'std'), ('test', 'file')):
            res.append(Scenario(t, work, '%s_%s_%s' % (name, kind, routing), kind, routing, dic, tgt, delta, opts))
    return res


def discarded(calls, pos):
    """Whether what this call has read is read again, after seeking (the C library
    reads when it seeks to the end of a file to find its size)."""
    fd = re.match(r'\w+\((\d+)', calls[pos][3]).group(1)
    for name, _, _, line in calls[pos + 1:]:
        m = re.match(r'\w+\((\d+)', line)
        if not m or m.group(1) != fd:
            continue
        if name == 'close':
            return False
        if name == 'lseek' and 'SEEK_CUR' not in line:
            return True
    return False


def change_case(sc, what, fn, result, works):
    """The self-test is stopped between its two passes while a file is changed."""
    w = mk(works)
    try:
        p = {k: os.path.join(w, k) for k in ('dict', 'target', 'delta', 'log')}
        wr(p['dict'], sc.dictionary)
        wr(p['target'], sc.target)
        cmd = ['strace', '-qq', '-o', p['log'], '-P', p['dict'], '-e', 'trace=openat', '-e', 'inject=openat:signal=SIGSTOP:when=2',
               sc.t.exe['plain'], 'test', '--dictionary=' + p['dict'], '--target=' + p['target'], '--delta=' + p['delta']] + sc.opts
        q = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=ENV, start_new_session=True)
        end = time.time() + 20
        stopped = False
        while time.time() < end and q.poll() is None:
            if os.path.exists(p['log']) and b'stopped by SIGSTOP' in rd(p['log']):
                stopped = True
                break
            time.sleep(0.003)
        if stopped:
            changed = fn(p)
            kids = rd('/proc/%d/task/%d/children' % (q.pid, q.pid)).split()
            for k in kids:
                os.kill(int(k), signal.SIGCONT)
        r = Run()
        r.cmd = cmd
        try:
            _, r.err = q.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            os.killpg(q.pid, signal.SIGKILL)
            q.communicate()
            result.ev('self-tests that could not be stopped')
            return
        r.rc = q.returncode
        if not stopped:
            result.ev('self-tests that could not be stopped')
            return
        label = '%s, %s between the passes of the self-test' % (sc.name, what)
        if changed:
            must_fail(r, label)
        else:
            must_succeed(r, label)
        result.ev('self-tests with files changed half-way' if changed else 'self-tests stopped half-way')
        result.add_case(label)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def changes(sc):
    def edit(which, f):
        def go(p):
            old = rd(p[which])
            new = f(old)
            wr(p[which], new)
            return new != old
        return go

    def flip(at):
        def f(b):
            if not b:
                return b
            i = {0: 0, 1: len(b) // 2, 2: len(b) - 1}[at]
            return b[:i] + bytes([b[i] ^ 0x41]) + b[i + 1:]
        return f
    res = [('nothing changed', lambda p: False)]
    for at in (0, 1, 2):
        res.append(('target byte changed at %d' % at, edit('target', flip(at))))
    for n in (1, 100, 5000):
        res.append(('target shortened by %d' % n, edit('target', lambda b, n=n: b[:max(0, len(b) - n)])))
        res.append(('target extended by %d' % n, edit('target', lambda b, n=n: b + b'\0' * n)))
    res.append(('target emptied', edit('target', lambda b: b'')))
    res.append(('delta extended', edit('delta', lambda b: b + b'\x01')))
    res.append(('delta shortened', edit('delta', lambda b: b[:-1])))
    if sc.target:      # no data at all is taken as a delta of nothing
        res.append(('delta emptied', edit('delta', lambda b: b'')))
    res.append(('delta replaced by that of the empty target', lambda p: (len(rd(p['delta'])) > 5, wr(p['delta'], rd(p['delta'])[:5]))[0]))
    return res


def injections(t, scs, result):
    """All (scenario, call, error) to try, from a run of each scenario without faults."""
    todo = []
    for sc in scs:
        r, ok, log, paths, outp = sc.run('trace', ['-e', 'trace=all'])
        must_succeed(r, sc.name)
        if not ok:
            raise Violated('%s: exit status 0 but the output is not right' % sc.name, r.text())
        calls = parse_calls(log, paths)
        # streams are inherited, not opened: name them
        std = {}
        if sc.routing == 'std' and sc.kind != 'test':
            std = {'0': 'target' if sc.kind == 'encode' else 'delta', '1': outp}
        opened = {}
        for pos, (name, k, which, line) in enumerate(calls):
            if which is None:
                fd = re.match(r'\w+\((\d+)', line)
                which = std.get(fd.group(1)) if fd else None
            opened[which] = opened.get(which, 0) + (name == 'openat')
            phase = 2 if sc.kind == 'test' and (opened.get('target', 0) > 1 or opened.get('delta', 0) > 1 or opened.get('dict', 0) > 1) else 1
            result.state('calls injected into', '%s %s %d' % (sc.name, name, k))
            for e in ERRNOS.get(name, []):
                todo.append((sc, name, k, which, 'error=' + e, phase, outp, line))
            if name in LASTING:
                todo.append((sc, name, k, which, 'lasting error=EIO', phase, outp, line))
            # the dictionary ends before its size
            if which == 'dict' and name == 'read' and not discarded(calls, pos):
                got = re.search(r'= (\d+)$', line)
                if got and int(got.group(1)) > 0:
                    todo.append((sc, name, k, which, 'retval=0', phase, outp, line))
            # end of file where there is data, and changed data, for the self-test
            if sc.kind == 'test' and name == 'read' and sc.target:
                got = re.search(r'= (\d+)$', line)
                if got and int(got.group(1)) > 0 and which in ('target', 'delta') and not discarded(calls, pos):
                    todo.append((sc, name, k, which, 'retval=0', phase, outp, line))
                    if which == 'target':
                        todo.append((sc, name, k, which, 'poke', phase, outp, line))
    return todo


def inject_case(item, number, result):
    sc, name, k, which, fault, phase, outp, line = item
    tag = 'i%d' % number
    if fault == 'poke':
        # a byte of what was read is replaced by another
        m = re.match(r'read\(\d+, "((?:\\.|[^"\\])*)"', line)
        data = sc.target
        first = None
        if m and m.group(1):
            s = m.group(1)
            if s[0] != '\\':
                first = ord(s[0])
            else:
                o = re.match(r'\\([0-7]{1,3})', s)
                first = int(o.group(1), 8) if o else {'n': 10, 't': 9, 'r': 13, 'v': 11, 'f': 12, '\\': 92, '"': 34}.get(s[1])
        if first is None:
            return
        spec = 'inject=%s:poke_exit=@arg2=%02x:when=%d' % (name, first ^ 0x55, k)
    elif fault.startswith('lasting '):
        spec = 'inject=%s:%s:when=%d+' % (name, fault[8:], k)
    else:
        spec = 'inject=%s:%s:when=%d' % (name, fault, k)
    r, ok, log, paths, outp = sc.run(tag, ['-e', 'trace=all', '-e', spec])
    injected = any('(INJECTED)' in l or 'INJECTED' in l for l in log)
    if not injected:
        result.ev('faults that were not reached')
        return
    what = '%s with %s at %s call %d on the %s file' % (sc.name, fault, name, k, which)
    graceful(r, what)
    result.ev('faults injected: %s' % name)
    result.state('fault kinds', '%s %s %s %s' % (sc.kind, name, which, fault))
    if fault in ('retval=0', 'poke'):
        must_fail(r, what)     # the dictionary is incomplete, or the two passes of the self-test have seen different data
    elif r.rc == 0:
        if (name in STRICT or fault.startswith('lasting')) and which is not None:
            raise Violated('%s: exit status 0' % what, r.text() + '\n' + '\n'.join(log[-20:]))
        if name == 'close' and which == outp and phase == 1:
            raise Violated('%s: exit status 0 although closing the output failed' % what, r.text() + '\n' + '\n'.join(log[-20:]))
        if ok != 'same':
            raise Violated('%s: exit status 0 but the output is not complete and correct' % what, r.text() + '\n' + '\n'.join(log[-20:]))
        result.ev('faults without consequence')
    result.add_case(what)
    if number % 97 == 5:
        result.sample('%s -> exit status %d' % (what, r.rc))


def environment_cases(t, work, scs, rng):
    """Faults of the surroundings.  Yields (name, function)."""
    cases = []
    for sc in scs:
        out = sc.target if sc.kind == 'decode' else sc.delta
        size = len(out)
        # limits on the file size, so that a write is short and the next one fails
        for lim in sorted({0, 1, 4095, 4096, 4097, size // 2, size - 1, size, size + 100}):
            if lim < 0:
                continue

            def f(sc=sc, lim=lim, size=size, ignore=True):
                r, ok, _, _, _ = sc.run('fs%d' % lim, fsize=lim, ignore=(signal.SIGXFSZ,))
                what = '%s with files limited to %d bytes' % (sc.name, lim)
                graceful(r, what)
                if r.rc == 0 and not ok:
                    raise Violated('%s: exit status 0 but the output is not complete' % what, r.text())
                if lim >= size and r.rc != 0:
                    raise Violated('%s: fails although there is room' % what, r.text())
            cases.append(('%s limit %d' % (sc.name, lim), f))

    def special(sc, name, make, expect_fail=True):
        def f():
            w = os.path.join(work, 'sp_%s_%s' % (sc.name, re.sub(r'\W', '_', name)))
            os.mkdir(w)
            try:
                wr(w + '/dict', sc.dictionary)
                wr(w + '/target', sc.target)
                wr(w + '/delta', sc.delta)
                inp, outp = ('target', 'delta') if sc.kind != 'decode' else ('delta', 'target')
                r = make(w, inp, outp)
                what = '%s, %s' % (sc.name, name)
                if expect_fail is True:
                    must_fail(r, what)
                else:
                    expect_fail(r, what)
            finally:
                shutil.rmtree(w, ignore_errors=True)
        cases.append(('%s %s' % (sc.name, name), f))

    for sc in scs:
        out = sc.target if sc.kind == 'decode' else sc.delta
        ex = t.exe['plain']
        if out:
            special(sc, 'output to a full device', lambda w, i, o, sc=sc: spawn(
                [ex, sc.kind, '--dictionary=' + w + '/dict', '--%s=%s/%s' % (i, w, i), '--%s=/dev/full' % o] + sc.opts))
            if sc.kind != 'test':
                special(sc, 'standard output to a full device', lambda w, i, o, sc=sc: spawn(
                    [ex, sc.kind, '--dictionary=' + w + '/dict', '--%s=%s/%s' % (i, w, i)] + sc.opts, stdout='/dev/full'))
                special(sc, 'standard output closed', lambda w, i, o, sc=sc: spawn(
                    [ex, sc.kind, '--dictionary=' + w + '/dict', '--%s=%s/%s' % (i, w, i)] + sc.opts, capture=False, close=(1,)))

                def broken(w, i, o, sc=sc):
                    rfd, wfd = os.pipe()
                    os.close(rfd)

                    def pre():
                        signal.signal(signal.SIGPIPE, signal.SIG_IGN)
                    p = subprocess.Popen([ex, sc.kind, '--dictionary=' + w + '/dict', '--%s=%s/%s' % (i, w, i)] + sc.opts, stdin=subprocess.DEVNULL,
                                         stdout=wfd, stderr=subprocess.PIPE, preexec_fn=pre, restore_signals=False, env=ENV)
                    os.close(wfd)
                    r = Run()
                    r.cmd = p.args
                    r.out, r.err = p.communicate(timeout=100)
                    r.rc = p.returncode
                    return r
                special(sc, 'standard output to a broken pipe', broken)
        if sc.kind != 'test':
            special(sc, 'standard input closed', lambda w, i, o, sc=sc: spawn(
                [ex, sc.kind, '--dictionary=' + w + '/dict', '--%s=%s/out' % (o, w)] + sc.opts, close=(0,)))
            special(sc, 'standard input is a directory', lambda w, i, o, sc=sc: spawn(
                [ex, sc.kind, '--dictionary=' + w + '/dict', '--%s=%s/out' % (o, w)] + sc.opts, stdin=w))
        for bad, label in (('/missing', 'missing'), ('', 'a directory')):
            special(sc, 'dictionary ' + label, lambda w, i, o, sc=sc, bad=bad: spawn(
                [ex, sc.kind, '--dictionary=' + w + bad, '--%s=%s/%s' % (i, w, i), '--%s=%s/out' % (o, w)] + sc.opts),
                expect_fail=True if bad else nonzero)
            special(sc, 'input ' + label, lambda w, i, o, sc=sc, bad=bad: spawn(
                [ex, sc.kind, '--dictionary=' + w + '/dict', '--%s=%s%s' % (i, w, bad), '--%s=%s/out' % (o, w)] + sc.opts),
                expect_fail=True if bad else nonzero)
        special(sc, 'output in a missing directory', lambda w, i, o, sc=sc: spawn(
            [ex, sc.kind, '--dictionary=' + w + '/dict', '--%s=%s/%s' % (i, w, i), '--%s=%s/no/out' % (o, w)] + sc.opts))
        special(sc, 'output is a directory', lambda w, i, o, sc=sc: spawn(
            [ex, sc.kind, '--dictionary=' + w + '/dict', '--%s=%s/%s' % (i, w, i), '--%s=%s' % (o, w)] + sc.opts))
        if sc.kind == 'decode' and sc.delta:
            # every truncation of the delta: complete only between windows
            cuts = sorted(set(range(0, min(len(sc.delta), 60))) | {rng.randrange(len(sc.delta)) for _ in range(40)})
            for cut in cuts:
                def tr(w, i, o, sc=sc, cut=cut):
                    wr(w + '/delta', sc.delta[:cut])
                    v, out = t.ref(w + '/dict', w + '/delta', w + '/ref')
                    r = spawn([ex, 'decode', '--dictionary=' + w + '/dict', '--delta=' + w + '/delta', '--target=' + w + '/out'])
                    r.out = (v, out, rd(w + '/out') if os.path.exists(w + '/out') else None)
                    return r

                def judge(r, what):
                    v, out, got = r.out
                    if v == 'ACCEPT':
                        must_succeed(r, what)
                        if got != out:
                            raise Violated('%s: wrong output' % what, r.text())
                    elif v == 'REJECT':
                        must_fail(r, what)
                    else:
                        graceful(r, what)
                special(sc, 'delta cut at %d' % cut, tr, judge)
    return cases


def nonzero(r, what):
    if r.rc == 0:
        raise Violated('%s: exit status 0 where a failure is due' % what, r.text())
    if not r.err.strip():
        raise Violated('%s: no message on standard error' % what, r.text())


def argument_cases(t, work):
    """Invalid command lines, and data the JSON format does not take."""
    w = os.path.join(work, 'args')
    os.mkdir(w)
    wr(w + '/dict', b'some dictionary text, some dictionary text')
    wr(w + '/target', b'some dictionary text, and more')
    wr(w + '/late', b'plain text, ' * 30 + b'caf\xc3\xa9' + b', plain text' * 30)
    wr(w + '/last', b'plain text, ' * 50 + b'\x80')
    wr(w + '/bin', b'some dictionary text, \xff\x80 and more' * 3)
    r = spawn([t.exe['plain'], 'encode', '--dictionary', w + '/dict', '--target', w + '/target', '--delta', w + '/delta'])
    must_succeed(r, 'encode')
    def varint(v):
        b = bytes([v & 127])
        while v > 127:
            v >>= 7
            b = bytes([128 | v & 127]) + b
        return b

    def runs(sizes):   # a delta with one window per size, each a single RUN
        d = b'\xd6\xc3\xc4\x00\x00'
        for m in sizes:
            ins = b'\x00' + varint(m)
            body = varint(m) + b'\x00' + varint(1) + varint(len(ins)) + varint(0) + b'r' + ins
            d += b'\x00' + varint(len(body)) + body
        return d
    mb64 = 1 << 26
    big = dict(full=[mb64], halves=[mb64 // 2, mb64 // 2], over=[mb64 + 1], overhalves=[mb64 // 2, mb64 // 2 + 1])
    for k, v in big.items():
        wr(w + '/run_' + k, runs(v))
    D, T, X = '--dictionary=' + w + '/dict', '--target=' + w + '/target', '--delta=' + w + '/delta'
    n = [0]

    def out(flagname):
        n[0] += 1
        return '--%s=%s/o%d' % (flagname, w, n[0])
    bad = [
        [], [D], [D, T, X], ['encode'], ['decode'], ['test'], ['delta'], ['patch'], ['encode', T, out('delta')], ['decode', X, out('target')], ['patch', X, out('target')],
        ['delta', T, out('delta')], ['test', T, out('delta')],
        ['frobnicate', D, T, out('delta')], ['Encode', D, T, out('delta')], ['encod', D, T, out('delta')], ['encodex', D, T, out('delta')], ['', D, T, out('delta')],
        ['decodes', D, X, out('target')], ['tests', D, T, out('delta')],
        ['encode', 'decode', D, T, out('delta')], ['encode', 'encode', D, T, out('delta')], ['decode', 'x', D, X, out('target')], ['decode', 'decode', D, X, out('target')],
        ['encode', D, T, out('delta'), '--buffersize=0'], ['decode', D, X, out('target'), '--buffersize=0'], ['test', D, T, out('delta'), '--buffersize=0'],
        ['encode', D, T, out('delta'), '--buffersize=abc'], ['encode', D, T, out('delta'), '--buffersize=-1'], ['encode', D, T, out('delta'), '--buffersize='],
        ['encode', D, T, out('delta'), '--no_such_option'], ['decode', D, X, out('target'), '--no_such_option=1'], ['decode', D, X, out('target'), '--max_target_file_size=many'],
        ['decode', D, X, out('target'), '--max_target_window_size=1x'], ['decode', D, X, out('target'), '--allow_vcd_target=perhaps'], ['encode', D, T, out('delta'), '--checksum=2nd'],
        ['test', D, T], ['test', D, X], ['test', D, '--target=', out('delta')], ['test', D, T, '--delta='], ['encode', '--dictionary=', T, out('delta')],
        ['decode', '--dictionary=', X, out('target')], ['encode', D, T, '--delta'], ['encode', T, out('delta'), '--dictionary'],
        # non-ASCII data in the JSON format
        ['encode', D, '--target=' + w + '/bin', out('delta'), '--json'], ['encode', '--dictionary=' + w + '/bin', T, out('delta'), '--json'],
        ['encode', D, '--target=' + w + '/bin', out('delta'), '--json', '--buffersize=25'], ['encode', D, '--target=' + w + '/bin', out('delta'), '--json', '--buffersize=10'],
        ['encode', D, '--target=' + w + '/late', out('delta'), '--json', '--buffersize=100'], ['encode', D, '--target=' + w + '/last', out('delta'), '--json', '--buffersize=100'],
        ['encode', D, '--target=' + w + '/last', out('delta'), '--json', '--buffersize=600'], ['test', D, '--target=' + w + '/late', out('delta'), '--json', '--buffersize=50'],
        ['delta', D, '--target=' + w + '/late', out('delta'), '--json', '--stats', '--buffersize=7'], ['test', D, '--target=' + w + '/bin', out('delta'), '--json'],
        # over the limits
        ['decode', D, X, out('target'), '--max_target_file_size=29'], ['decode', D, X, out('target'), '--max_target_window_size=29'],
        ['decode', D, X, out('target'), '--max_target_file_size=0'], ['decode', D, X, out('target'), '--max_target_window_size=0'],
        # over the default limits, 64 MB each
        ['decode', D, '--delta=' + w + '/run_over', '--max_target_file_size=100000000'],
        ['decode', D, '--delta=' + w + '/run_overhalves', '--max_target_window_size=100000000'],
        ['test', D, T, out('delta'), '--max_target_window_size=29'], ['test', D, T, out('delta'), '--max_target_file_size=29'],
    ]
    good = [
        ['decode', D, X, out('target'), '--max_target_file_size=30'], ['decode', D, X, out('target'), '--max_target_window_size=30'],
        ['decode', D, '--delta=' + w + '/run_full'], ['decode', D, '--delta=' + w + '/run_halves'],
        ['decode', D, '--delta=' + w + '/run_overhalves', '--max_target_file_size=67108865'],
        ['decode', D, '--delta=' + w + '/run_over', '--max_target_file_size=67108865', '--max_target_window_size=67108865'],
        ['test', D, T, out('delta'), '--max_target_window_size=30', '--max_target_file_size=30'], ['encode', D, T, out('delta'), '--buffersize=1'],
    ]
    cases = []
    for exe in ('plain', 'asan', 'dbg'):
        for a in bad:
            cases.append(('%s arguments %s' % (exe, ' '.join(x.replace(w, '') for x in a)),
                          lambda a=a, exe=exe: must_fail(spawn([t.exe[exe]] + [x + exe if re.search(r'/o\d+$', x) else x for x in a], stdin=w + '/target'), 'arguments ' + ' '.join(a))))
        for a in good:
            cases.append(('%s arguments %s' % (exe, ' '.join(x.replace(w, '') for x in a)),
                          lambda a=a, exe=exe: must_succeed(spawn([t.exe[exe]] + [x + exe if re.search(r'/o\d+$', x) else x for x in a]), 'arguments ' + ' '.join(a))))
    return cases


def hostile_case(t, d, seed, line, result):
    f = line.split('\t')
    i, verdict, allow, mf, mw, origin, why = int(f[0]), f[1], f[2], f[3], f[4], f[5], f[6] if len(f) > 6 else ''
    rng = random.Random('C16/%d/%d' % (seed, i))
    exe = t.exe['asan' if i % 5 == 1 else 'plain']
    dic, delta, want = (os.path.join(d, '%d.%s' % (i, x)) for x in ('dict', 'delta', 'out'))
    outp = os.path.join(d, '%d.got' % i)
    size = os.path.getsize(delta)
    cmd = [exe, rng.choice(['decode', 'patch']), '--dictionary', dic, '--max_target_file_size=' + mf, '--max_target_window_size=' + mw]
    if allow == '0':
        cmd += [rng.choice(['--noallow_vcd_target', '--allow_vcd_target=false'])]
    b = rng.choice([None, None, 1, 2, 7, 100, max(1, size - 1)])
    if b:
        cmd += ['--buffersize=%d' % b]
    kw = {}
    how = rng.choice(['file', 'std', 'pipe'])
    if how == 'file':
        cmd += ['--delta', delta, '--target', outp]
    elif how == 'std':
        kw = dict(stdin=delta, stdout=outp)
    else:
        data = rd(delta)
        kw = dict(stdin_data=data, pieces=pieces_of(rng, len(data)))
    r = spawn(cmd, **kw)
    what = 'hostile delta %d (%s; model: %s %s)' % (i, origin, verdict, why)
    got = r.out if how == 'pipe' else (rd(outp) if os.path.exists(outp) else b'')
    if os.path.exists(outp):
        os.unlink(outp)
    hexdelta = rd(delta)[:300].hex()
    try:
        graceful(r, what)
        if r.rc == 0:
            if verdict == 'REJECT':
                raise Violated('%s: exit status 0' % what, r.text())
            if verdict != 'NOCLAIM' and got != rd(want):
                raise Violated('%s: exit status 0 but wrong output' % what, r.text())
        elif verdict == 'ACCEPT':
            raise Violated('%s: refused' % what, r.text())
    except Violated as v:
        v.report += '\ndelta: ' + hexdelta
        raise
    result.ev('hostile deltas, model says %s, exit status %s' % (verdict, 'zero' if r.rc == 0 else 'non-zero'))
    result.state('reasons for refusal', why)
    result.add_case(hashlib.sha1(rd(delta) + rd(dic)).hexdigest() + mf + mw + allow if verdict == 'REJECT' else None)
    if i % 211 == 3:
        result.sample('%s -> exit status %d' % (what, r.rc))


# --------------------------------------------------------------------- long streams
def blocks(kind, seed, dictionary, total):
    """A stream of the given length: pieces of the dictionary, bytes that occur
    nowhere else, or both."""
    rng = random.Random(seed)
    noise = rng.randbytes(1 << 20)
    left = total
    while left > 0:
        if kind == 'copies' or (kind == 'mixed' and rng.random() < .5):
            k = rng.randrange(max(1, len(dictionary) - 64))
            b = dictionary[k:k + 1 + rng.randrange(1 << 20)]
            if len(b) < 1 << 17:
                b = b * ((1 << 17) // max(1, len(b)) + 1)
        else:
            k = rng.randrange(256)
            b = noise.translate(bytes(i ^ k for i in range(256)))
            b = b[rng.randrange(1 << 12):]
            if kind == 'text':
                b = bytes(b).translate(bytes(32 + i % 95 for i in range(256)))
        if len(b) > left:
            b = b[:left]
        left -= len(b)
        yield b


def meter(pid, peak, stop):
    """Watches the memory of a process until it is gone."""
    while not stop.is_set():
        try:
            with open('/proc/%d/status' % pid) as f:
                m = re.search(r'VmHWM:\s*(\d+) kB', f.read())
            if m:
                peak[0] = max(peak[0], int(m.group(1)) * 1024)
                peak[1] += 1
        except OSError:
            return
        stop.wait(.005)


def stream(cmd, source, out, limit, cpu, refused=None):
    """Runs a command that reads source (blocks, or None) from its standard input
    and writes its output to out (a function, or None); the memory it takes is
    observed all the time, at the end of the input too."""
    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
    e = open(os.devnull, 'r')
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if source is not None else e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, env=ENV, start_new_session=True)
    e.close()
    peak, stop, err = [0, 0], threading.Event(), []
    fed = [0]

    def feed():
        try:
            for b in source:
                p.stdin.write(b)
                fed[0] += len(b)
        except OSError:
            pass
        try:
            p.stdin.close()
        except OSError:
            pass

    def drain():
        while True:
            b = p.stdout.read(1 << 20)
            if not b:
                return
            if out:
                out(b)
    ts = [threading.Thread(target=drain), threading.Thread(target=lambda: err.append(p.stderr.read())), threading.Thread(target=meter, args=(p.pid, peak, stop))]
    if source is not None:
        ts.append(threading.Thread(target=feed))
    for x in ts:
        x.start()
    while p.poll() is None:
        if peak[0] > limit:
            os.killpg(p.pid, signal.SIGKILL)
            break
        time.sleep(.01)
    p.wait()
    stop.set()
    for x in ts:
        x.join()
    for h in (p.stdout, p.stderr):
        h.close()
    r = Run()
    r.cmd, r.rc, r.out, r.err = cmd, p.returncode, b'', b''.join(err)
    if peak[0] > limit:
        raise Violated('after %d bytes of input the command takes %d bytes of memory, more than the %d that dictionary and buffer account for' % (fed[0], peak[0], limit), r.text())
    if r.rc in (-signal.SIGXCPU, -signal.SIGKILL):
        raise Violated('the command needs more than %d s of processor time' % cpu, r.text())
    if refused:
        must_fail(r, refused)
    else:
        must_succeed(r, 'a long stream')
    if SAN_MARKS[0] in r.err:
        raise Violated('the sanitizer reports an error', r.text())
    return peak[0], r


def stream_case(t, work, name, kind, total, dict_size, buffer_size, options, command, seed, result):
    w = mk(work)
    try:
        rng = random.Random('%s/%d' % (name, seed))
        dictionary = rng.randbytes(dict_size)
        if kind == 'text':
            dictionary = dictionary.translate(bytes(32 + i % 95 for i in range(256)))
        dp, delta, target = os.path.join(w, 'dict'), os.path.join(w, 'delta'), os.path.join(w, 'target')
        wr(dp, dictionary)
        exe = t.exe['plain']
        limit = (24 << 20) + 8 * dict_size + 40 * buffer_size
        cpu = 20 + total // (2 << 20) if kind != 'copies' else 30 + total // (16 << 20)
        base = [exe, '--dictionary=' + dp, '--buffersize=%d' % buffer_size, '--stats']
        limits = ['--max_target_file_size=%d' % (1 << 40), '--allow_vcd_target=false']
        key = '%s/%d' % (name, seed)
        if command == 'test':
            with open(target, 'wb') as f:
                for b in blocks(kind, key, dictionary, total):
                    f.write(b)
            peak, r = stream(base + options + limits + ['test', '--target=' + target, '--delta=' + delta], None, None, limit, 2 * cpu)
            check_stats(r, 'Original', total, os.path.getsize(delta), result)
            result.ev('long self-tests')
        else:
            want, got, n = hashlib.sha1(), hashlib.sha1(), [0, 0]

            def tap():
                for b in blocks(kind, key, dictionary, total):
                    want.update(b)
                    n[0] += len(b)
                    yield b

            def sink(b):
                got.update(b)
                n[1] += len(b)
            peak, r = stream(base + options + ['encode', '--delta=' + delta], tap(), None, limit, cpu)
            check_stats(r, 'Original', total, os.path.getsize(delta), result)
            result.ev('long encodings')
            result.mx('largest memory of an encoder process, KB', peak >> 10)
            if '--json' not in options:
                if kind == 'copies':    # a buffer of delta data holds many windows
                    base[2] = '--buffersize=128'
                if command == 'file':
                    peak, r = stream(base + limits + ['decode', '--delta=' + delta], None, sink, limit, cpu)
                else:
                    def parts():
                        with open(delta, 'rb') as f:
                            while True:
                                b = f.read(1 << 20)
                                if not b:
                                    return
                                yield b
                    peak, r = stream(base + limits + ['decode'], parts(), sink, limit, cpu)
                check_stats(r, 'Decompressed', total, os.path.getsize(delta), result)
                result.ev('long decodings')
                result.mx('largest memory of a decoder process, KB', peak >> 10)
                if n[0] != total or n[1] != total or want.digest() != got.digest():
                    raise Violated('a stream of %d bytes (%s) was decoded to %d other bytes' % (total, name, n[1]))
                if total >> 32:    # a limit above 4 GB, exceeded by a byte
                    limits[0] = '--max_target_file_size=%d' % (total - 1)
                    stream(base + limits + ['decode', '--delta=' + delta], None, None, limit, cpu, 'a stream of %d bytes with a limit of one byte less' % total)
                    result.ev('limits above 4 GB enforced')
        result.mx('longest stream, MB', total >> 20)
        result.ev('megabytes streamed', total >> 20)
        result.add_case(key)
        result.sample('%s: %d bytes, dictionary %d, buffer %d, %s' % (name, total, dict_size, buffer_size, ' '.join(options)))
    finally:
        shutil.rmtree(w, ignore_errors=True)


def stream_cases(seed, thorough):
    rng = random.Random('C30/%d' % seed)
    M = 1 << 20
    cases = []
    f = 6 if thorough else 1

    def add(kind, total, dict_size, buffer_size, options, command):
        cases.append(('%d-%s-%s' % (len(cases), kind, command), kind, total, dict_size, buffer_size, options, command))
    # more than 4 GB
    add('copies', (4 << 30) + 12345678 + rng.randrange(M), 3 * M + rng.randrange(M), M, [], 'pipe')
    for k in range(2 * f):
        for options in ([], ['--interleaved', '--checksum'], ['--target_matches'], ['--checksum']):
            b = rng.choice([1 << 16, 1 << 17, 300000, M])
            add(rng.choice(['noise', 'mixed']), 96 * M + rng.randrange(M) if b > 200000 else 64 * M + rng.randrange(M), rng.choice([0, 1000, 200000, 2 * M]), b, options, rng.choice(['pipe', 'file']))
        add('text', 64 * M, 100000, 1 << 16, ['--json'], 'pipe')
        add(rng.choice(['noise', 'mixed']), 80 * M + rng.randrange(M), rng.choice([1000, M]), rng.choice([1 << 16, M]), rng.choice([[], ['--interleaved']]), 'test')
    # many very small windows
    for k in range(f):
        add('mixed', 12 * M, 5000, 64, [], 'pipe')
        add('mixed', 12 * M, 5000, 100, ['--interleaved'], 'pipe')
    return cases


# --------------------------------------------------------------------- running
class Pool:
    def __init__(self, prop, seed, result, deadline_at):
        self.prop, self.seed, self.result, self.deadline_at = prop, seed, result, deadline_at
        self.stop = False

    def guard(self, replay, fn, *args):
        if self.stop or time.time() > self.deadline_at:
            return
        try:
            fn(*args)
        except Violated as v:
            # repeat it: only what happens again is reported
            try:
                fn(*args)
                self.result.notes.append('not repeated: %s' % v)
                return
            except Violated as v2:
                v = v2
            self.stop = True
            d = {'property': self.prop, 'seed': self.seed, 'report': v.report}
            d.update(replay)
            self.result.violation(str(v), d)

    def map(self, tasks):
        """tasks: (replay, fn, args...)"""
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for f in [ex.submit(self.guard, *task) for task in tasks]:
                f.result()


def run(prop, spec, tier, seed, builder, result, deadline_at, only=None):
    t = Tools(builder)
    thorough = tier == 'thorough'
    pool = Pool(prop, seed, result, deadline_at)

    def wanted(kind, key=None):
        return only is None or (only.get('kind') == kind and (key is None or only.get('key') == key))
    if prop == 'C15':
        total, batch = (12000 if thorough else 2400), 100
        first = 0
        while first < total and not pool.stop and time.time() < deadline_at:
            if only is not None:
                first, batch, total = only['key'], 1, 0
            d, _ = t.generate('diff', seed, first, batch)
            pool.map([({'kind': 'roundtrip', 'key': i}, roundtrip_case, t, d, seed, i, result) for i in range(first, first + batch)
                      if os.path.exists(os.path.join(d, '%d.target' % i))])
            shutil.rmtree(d, ignore_errors=True)
            first += batch
        return
    if prop == 'C30':
        work = os.path.join(t.scratch, 'work')
        os.makedirs(work)
        pool.map([({'kind': 'stream', 'key': c[0]}, stream_case, t, work) + c + (seed, result) for c in stream_cases(seed, thorough) if wanted('stream', c[0])])
        return
    # C16
    rng = random.Random('C16/%d' % seed)
    work = os.path.join(t.scratch, 'work')
    os.makedirs(work)
    scs = []

    def prepare():
        w = os.path.join(work, 'prep%d' % len(os.listdir(work)))
        os.mkdir(w)
        scs[:] = scenarios(t, w, random.Random('C16/%d' % seed), not thorough)
    pool.guard({'kind': 'scenario'}, prepare)
    if pool.stop:
        return
    if wanted('arguments'):
        args = []

        def plan_args():
            args[:] = argument_cases(t, mk(work))
        pool.guard({'kind': 'arguments'}, plan_args)

        def one(name, f):
            f()
            result.ev('invalid and boundary command lines')
            result.add_case(name)
        pool.map([({'kind': 'arguments', 'key': n}, one, n, f) for n, f in args if wanted('arguments', n)])
    if wanted('environment'):
        envs = environment_cases(t, mk(work), scs, rng)
        def one_env(name, f):
            f()
            result.ev('faults of the surroundings')
            result.add_case(name)
        pool.map([({'kind': 'environment', 'key': n}, one_env, n, f) for n, f in envs if wanted('environment', n)])
    if wanted('inject') and not pool.stop:
        if strace_works(t):
            todo = []

            def plan():
                for s in scs:
                    s.work = mk(work)
                del todo[:]
                todo.extend(injections(t, scs, result))
            pool.guard({'kind': 'inject', 'key': 'trace'}, plan)
            tasks = []
            for k, item in enumerate(todo):
                key = '%s|%s|%d|%s' % (item[0].name, item[1], item[2], item[4])
                if wanted('inject', key) or (only and only.get('key') == 'trace'):
                    tasks.append(({'kind': 'inject', 'key': key}, inject_case, item, k, result))
            tests = mk(work)
            for sc in scs:
                if sc.kind == 'test':
                    for what, fn in changes(sc):
                        key = '%s|%s' % (sc.name, what)
                        if wanted('inject', key):
                            tasks.append(({'kind': 'inject', 'key': key}, change_case, sc, what, fn, result, tests))
            pool.map(tasks)
        else:
            result.notes.append('strace cannot inject faults here; only the other faults were tried')
    if wanted('hostile') and not pool.stop:
        total, batch = (30000 if thorough else 2000), 250
        first = 0
        while first < total and not pool.stop and time.time() < deadline_at:
            if only is not None:
                first, batch, total = only['key'], 1, 0
            d, lines = t.generate('hostile', seed, first, batch)
            pool.map([({'kind': 'hostile', 'key': int(l.split('\t')[0])}, hostile_case, t, d, seed, l, result) for l in lines])
            shutil.rmtree(d, ignore_errors=True)
            first += batch


_mk = [0]


def mk(work):
    _mk[0] += 1
    d = os.path.join(work, 'm%d' % _mk[0])
    os.makedirs(d)
    return d


def replay(d, spec, builder):
    import run as runner
    r = runner.Result()
    run(d['property'], spec, 'quick', d['seed'], builder, r, time.time() + 800, only=d)
    for msg, rep in r.violations:
        print(msg)
        print(rep.get('report', ''))
    print('reproduced' if r.violations else 'not reproduced (%d evaluations)' % r.evaluations)
    return 1 if r.violations else 0
