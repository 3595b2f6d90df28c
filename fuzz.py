"""Coverage-guided exploration (libFuzzer) of the decoder for the thorough tier;
the monitors are those of harness/fuzz_decode.cc."""
import base64, glob, os, re, shutil, subprocess, time

WORKERS = 8


def env(prop):
    e = dict(os.environ)
    e['VERIF_FUZZ_PROP'] = prop
    e['ASAN_OPTIONS'] = 'detect_leaks=1:max_allocation_size_mb=2000:allocator_may_return_null=0'
    return e


def run(prop, spec, seed, builder, result, deadline_at, seconds=None):
    if result.violations:
        return
    exe = builder.monitor('fuzz', 'fuzz_decode')
    gen = builder.generator()
    base = os.path.join(builder.scratch, 'fuzz')
    corpus = os.path.join(base, 'corpus')
    os.makedirs(corpus)
    try:
        subprocess.run([gen, 'corpus', corpus, str(seed), '0', '1500'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
    except subprocess.TimeoutExpired:
        pass
    seeds = len(os.listdir(corpus))
    seconds = int(seconds or max(30, min(900, deadline_at - time.time() - 60)))
    procs = []
    for w in range(WORKERS):
        d = os.path.join(base, 'w%d' % w)
        os.makedirs(d)
        log = open(os.path.join(d, 'log'), 'wb')
        procs.append((d, subprocess.Popen([exe, '-seed=%d' % (seed * 1000 + w + 1), '-max_total_time=%d' % seconds, '-timeout=20', '-rss_limit_mb=3000', '-max_len=2500',
                                           '-artifact_prefix=%s/crash-' % d, '-print_final_stats=1', '-reload=5', corpus],
                                          stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT, env=env(prop), cwd=d)))
    for d, p in procs:
        try:
            p.wait(timeout=seconds + 200)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    for d, p in procs:
        log = open(os.path.join(d, 'log'), 'rb').read().decode(errors='replace')
        m = re.search(r'stat::number_of_executed_units:\s*(\d+)', log)
        if m:
            result.ev('inputs executed by the fuzzer', int(m.group(1)))
            result.evaluations += int(m.group(1))
        c = re.findall(r'cov: (\d+)', log)
        if c:
            result.events['max coverage points reached by a fuzzer'] = max(result.events.get('max coverage points reached by a fuzzer', 0), int(c[-1]))
        for a in glob.glob(d + '/crash-*'):
            # confirm
            data = open(a, 'rb').read()
            q = subprocess.run([exe, '-timeout=60', a], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(prop), timeout=200)
            if q.returncode == 0:
                result.notes.append('a fuzzer artifact could not be repeated')
                continue
            out = q.stdout.decode(errors='replace')
            m = re.search(r'MONITOR-VIOLATION [^\n]*|SUMMARY: [^\n]*', out)
            result.violation(m.group(0) if m else 'fuzzer: exit status %d' % q.returncode,
                             {'property': prop, 'fuzz': True, 'seed': seed, 'input_base64': base64.b64encode(data).decode(), 'report': out[-5000:]})
    result.ev('fuzzer seeds', seeds)
    found = len(os.listdir(corpus))
    result.ev('fuzzer inputs kept for new coverage', max(0, found - seeds))
    for i in range(found - seeds):
        result.distinct.add(('fuzz', i))
    shutil.rmtree(base, ignore_errors=True)


def replay(d, spec, builder):
    exe = builder.monitor('fuzz', 'fuzz_decode')
    f = os.path.join(builder.scratch, 'input')
    open(f, 'wb').write(base64.b64decode(d['input_base64']))
    q = subprocess.run([exe, '-timeout=60', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(d['property']))
    print(q.stdout.decode(errors='replace')[-8000:])
    print('reproduced' if q.returncode else 'not reproduced')
    return 1 if q.returncode else 0
