#!/usr/bin/env python3
"""Driver of the deterministic simulation checks.

  check.py C05 [--tier quick|thorough]     decide one property on /repo's working tree
  check.py --replay FILE                   re-execute a replay file
  check.py --build VARIANT...              build only
  check.py --selftest-determinism C05      many seeds twice, in different worker layouts

Exit 0: held on everything explored.  Exit 1 with "VIOLATION property=... replay=...": broken.
Anything else is an error of the check itself.
"""
import glob, hashlib, json, os, re, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SIM = os.path.join(VERIF, 'sim')
BUILD = os.path.join(VERIF, 'build')
NCPU = 8

CONFIG_H = '''#define OPEN_VCDIFF_VERSION "sim"
#define HAVE_GETTIMEOFDAY 1
#define HAVE_MALLOC_H 1
#define HAVE_MEMALIGN 1
#define HAVE_MPROTECT 1
#define HAVE_POSIX_MEMALIGN 1
#define HAVE_SYS_MMAN_H 1
#define HAVE_SYS_TIME_H 1
#define HAVE_UNISTD_H 1
'''
COV = ['-fsanitize-coverage=trace-pc-guard']
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr', '-fno-omit-frame-pointer']
# variant -> (flags for library, flags for harness, link flags)
VARIANTS = {
    'rel':  (['-O2', '-DNDEBUG'] + COV, ['-O1'], []),
    'asan': (['-O1', '-DNDEBUG'] + ASAN + COV, ['-O1', '-fsanitize=address'], ['-fsanitize=address,undefined']),
    'dbg':  (['-O1'] + ASAN + COV, ['-O1', '-fsanitize=address'], ['-fsanitize=address,undefined']),
    'cli':  (['-O1', '-DNDEBUG'] + COV, ['-O1'], []),
    'clia': (['-O1', '-DNDEBUG'] + ASAN + COV, ['-O1', '-fsanitize=address'], ['-fsanitize=address,undefined']),
    'thr':  (['-O1', '-DNDEBUG', '-fsanitize-coverage=trace-pc-guard,no-prune,trace-loads,trace-stores'], ['-O1', '-DSIM_BUMP'], []),
}
# the same builds, each run in a process of its own that has not used the library before
FORKED = {'relf': 'rel', 'asanf': 'asan'}
HARNESS = ['sim.cc', 'main.cc', 'gen.cc', 'ref.cc', 'api.cc']
LIBSCEN = ['registry.cc', 'scen_codec.cc', 'scen_writer.cc', 'scen_state.cc', 'scen_json.cc', 'scen_work.cc', 'scen_wif.cc']
CLISCEN = ['scen_cli.cc']
THRSCEN = ['scen_thr.cc']
WRAP_CLI = ['fopen', 'fopen64', 'remove', 'unlink', 'rename', 'truncate', 'ftell', 'ftello', 'ftello64', 'exit', '_exit', 'abort']
WRAP_THR = ['pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock', 'pthread_once', 'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock',
            'pthread_rwlock_unlock', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', 'sched_yield']

WRAP_MEM = ['memcpy', 'memmove', 'memset', 'memcmp']      # moving data is work, too

# property -> plan: list of (variant, share of workers), quick seconds
PLAN = {
    'C01': [('rel', 4), ('dbg', 4)], 'C02': [('rel', 5), ('asan', 3)], 'C03': [('rel', 4), ('dbg', 4)], 'C04': [('rel', 4), ('asan', 4)],
    'C05': [('rel', 5), ('asan', 3)], 'C06': [('rel', 3), ('asan', 5)], 'C07': [('rel', 5), ('asan', 3)], 'C08': [('rel', 4), ('asan', 4)],
    'C09': [('rel', 4), ('asan', 4)], 'C10': [('thr', 8)], 'C11': [('rel', 3), ('asan', 2), ('relf', 2), ('asanf', 1)], 'C12': [('cli', 5), ('clia', 3)], 'C13': [('cli', 5), ('clia', 3)],
    'C14': [('rel', 4), ('dbg', 4)], 'C15': [('rel', 4), ('asan', 4)], 'C16': [('rel', 5), ('asan', 3)], 'C17': [('rel', 6), ('dbg', 2)], 'C18': [('rel', 6), ('asan', 2)], 'C19': [('cli', 5), ('clia', 3)],
    'C20': [('rel', 5), ('asan', 3)],
}
QUICK_S = 45.0
THOROUGH_S = 600.0
MAX_RUNS_PER_WORKER = {'quick': 10 ** 7, 'thorough': 10 ** 9}

ENV = dict(os.environ)
ENV.update({'ASAN_OPTIONS': 'detect_leaks=0:exitcode=77:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0:quarantine_size_mb=32:malloc_context_size=8',
            'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=77', 'LC_ALL': 'C'})


def log(*a):
    print(*a, flush=True)


def die(msg):
    log('ERROR', msg)
    sys.exit(2)


def lib_sources(main):
    cc = sorted(f for f in glob.glob(REPO + '/src/*.cc') if not f.endswith('_test.cc'))
    if not main:
        cc = [f for f in cc if os.path.basename(f) != 'vcdiff_main.cc']
    return cc + sorted(glob.glob(REPO + '/src/zlib/*.c'))


def harvest_constants():
    """Integer constants of the library's source: sizes and counts near them are drawn more often."""
    vals = set()
    files = [f for f in lib_sources(True)] + [f for f in all_headers() if f.startswith(REPO)]
    for f in files:
        b = os.path.basename(f)
        if b.endswith('_test.h') or b in ('testing.h', 'zconf.h', 'zlib.h'):
            continue
        t = open(f, errors='replace').read()
        t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
        t = re.sub(r'//[^\n]*', ' ', t)
        t = re.sub(r'"(\\.|[^"\\\n])*"', ' ', t)
        t = re.sub(r"'(\\.|[^'\\\n])+'", ' ', t)
        num = r'(0[xX][0-9a-fA-F]+|[0-9]+)[uUlL]*'
        for m in re.finditer(r'(?<![\w.])' + num + r'(?:\s*(<<|\*|\+|-)\s*' + num + r'\b)?', t):
            try:
                a = int(m.group(1), 0) if not re.match(r'0[0-9]', m.group(1)) else int(m.group(1), 8)
                vals.add(a)
                if m.group(2):
                    c = int(m.group(3), 0)
                    vals.add(c)
                    if m.group(2) == '<<' and c < 40:
                        vals.add(a << c)
                    elif m.group(2) == '*':
                        vals.add(a * c)
                    elif m.group(2) == '+':
                        vals.add(a + c)
                    else:
                        vals.add(a - c)
            except ValueError:
                pass
    return sorted(v for v in vals if 40 < v <= 3 << 20)[:400]


def file_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\1')
    return h.hexdigest()


def all_headers():
    r = []
    for root, _, files in os.walk(REPO + '/src'):
        r += [os.path.join(root, f) for f in files if f.endswith(('.h', '.in', '.c', '.inc', '.hpp'))]
    return sorted(r) + sorted(glob.glob(SIM + '/*.h'))


def build(variants):
    """Builds the named variants from /repo's working tree; returns {variant: binary}."""
    bins = build_plain(sorted(set(FORKED.get(v, v) for v in variants)))
    for v in variants:
        if v in FORKED:
            b = bins[FORKED[v]]
            if not os.path.lexists(b + '.fork'):
                try:
                    os.symlink(os.path.basename(b), b + '.fork')
                except FileExistsError:
                    pass
            bins[v] = b + '.fork'
    return bins


def build_plain(variants):
    os.makedirs(BUILD, exist_ok=True)
    inc = os.path.join(BUILD, 'include')
    os.makedirs(inc, exist_ok=True)
    cfg = os.path.join(inc, 'config.h')
    if not os.path.exists(cfg) or open(cfg).read() != CONFIG_H:
        with open(cfg, 'w') as f:
            f.write(CONFIG_H)
    hh = file_hash(all_headers())
    consts = ','.join(map(str, harvest_constants())) or '64'
    jobs, links, bins = [], [], {}
    incs = ['-I' + inc, '-I' + REPO + '/src', '-I' + REPO + '/src/zlib', '-I' + SIM]
    for v in variants:
        libf, harf, ldf = VARIANTS[v]
        cli, thr = v.startswith('cli'), v == 'thr'
        objs = []
        for src in lib_sources(cli):
            is_c = src.endswith('.c')
            flags = ['-g1', '-w'] + libf + incs + (['-std=gnu11'] if is_c else ['-std=gnu++17'])
            if os.path.basename(src) == 'vcdiff_main.cc':
                flags += ['-Dmain=vcdiff_real_main']
            objs.append((['clang' if is_c else 'clang++'] + flags, src))
        for s in HARNESS + (CLISCEN if cli else THRSCEN if thr else LIBSCEN):
            objs.append((['clang++', '-g1', '-w', '-std=gnu++17'] + harf + incs + (['-DSIM_CONSTS=' + consts] if s == 'sim.cc' else []), os.path.join(SIM, s)))
        outs = []
        for cmd, src in objs:
            key = hashlib.sha256((' '.join(cmd) + hh + file_hash([src])).encode()).hexdigest()[:24]
            o = os.path.join(BUILD, 'o-' + key + '.o')
            outs.append(o)
            jobs.append((cmd, src, o))
        link = ['clang++'] + ldf + ['-rdynamic']
        tail = ['-lpthread']
        if cli:
            link += ['-Wl,' + ','.join('--wrap=' + w for w in WRAP_CLI)]
            tail = ['-lgflags', '-lpthread']
        if v == 'rel':
            link += ['-static-libstdc++', '-Wl,' + ','.join('--wrap=' + w for w in WRAP_MEM)]
        if thr:
            link += ['-Wl,' + ','.join('--wrap=' + w for w in WRAP_THR)]
        key = hashlib.sha256(' '.join(link + outs + tail).encode()).hexdigest()[:16]
        b = os.path.join(BUILD, 'sim-%s-%s' % (v, key))
        bins[v] = b
        links.append((link + outs + ['-o'], tail, b))
    todo = {}
    for cmd, src, o in jobs:
        if not os.path.exists(o):
            todo[o] = (cmd, src)

    def comp(item):
        o, (cmd, src) = item
        tmp = o + '.%d.tmp' % os.getpid()
        p = subprocess.run(cmd + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return 'compiling %s failed:\n%s' % (src, p.stdout.decode(errors='replace')[-4000:])
        os.rename(tmp, o)
        return None
    # long compilations first
    order = sorted(todo.items(), key=lambda kv: -os.path.getsize(kv[1][1]))
    with ThreadPoolExecutor(NCPU) as ex:
        for r in ex.map(comp, order):
            if r:
                die(r)

    def do_link(item):
        pre, tail, b = item
        if os.path.exists(b):
            return None
        tmp = b + '.%d.tmp' % os.getpid()
        p = subprocess.run(pre + [tmp] + tail, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return 'linking failed:\n' + p.stdout.decode(errors='replace')[-4000:]
        os.rename(tmp, b)
        return None
    with ThreadPoolExecutor(NCPU) as ex:
        for r in ex.map(do_link, links):
            if r:
                die(r)
    return bins


SH_FMT = '<11Q'


def read_shared(path):
    with open(path, 'rb') as f:
        head = f.read(8 * 10 + 64 + 1024)
    names = ['magic', 'index', 'running', 'event_hash', 'nevents', 'nchoices', 'overflow', 'runs_done', 'steps', 'failed']
    d = dict(zip(names, struct.unpack('<10Q', head[:80])))
    d['cls'] = head[80:144].split(b'\0')[0].decode(errors='replace')
    d['msg'] = head[144:].split(b'\0')[0].decode(errors='replace')
    n = min(d['nchoices'], 1 << 21)
    with open(path, 'rb') as f:
        f.seek(80 + 64 + 1024)
        raw = f.read(8 * n)
    d['choices'] = list(struct.unpack('<%dQ' % (len(raw) // 8), raw))
    return d


def cpu_limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, 8 << 20))


def classify(rc, sh, out):
    """Class and message of the failure of a simulated run, or (None, None)."""
    if sh['failed']:
        return sh['cls'], sh['msg']
    if rc == 0:
        return None, None
    if rc == 77 or b'ERROR: AddressSanitizer' in out or b'runtime error:' in out:
        msg = ''
        for line in out.decode(errors='replace').splitlines():
            if 'runtime error:' in line or 'ERROR: AddressSanitizer' in line:
                msg = line.strip()[:300]
                break
        return 'crash', 'sanitizer report: ' + msg
    if rc < 0:
        return 'crash', 'the process died from signal %d' % -rc
    if rc == 45:
        return 'crash', 'the simulated process died'
    if rc == 3:
        return 'harness', out.decode(errors='replace')[-600:]
    return 'crash', 'the process ended itself with status %d' % rc


def segments_text(segs):
    return ''.join('run' + ''.join(' %d' % x for x in s) + '\n' for s in segs)


def write_replay(path, prop, variant, tier, seed, index, cls, msg, hsh, segs):
    with open(path, 'w') as f:
        f.write('# deterministic simulation replay; run: python3 %s/check.py --replay %s\n' % (VERIF, path))
        for k, v in (('property', prop), ('variant', variant), ('tier', tier), ('seed', seed), ('index', index), ('class', cls), ('message', (msg or '').replace('\n', ' ')), ('hash', hsh)):
            f.write('%s: %s\n' % (k, v))
        f.write(segments_text(segs))


def run_replay(binary, prop, tier, segs, work, tag, verbose=False, timeout=180):
    sh = os.path.join(work, 'sh-' + tag)
    fn = os.path.join(work, 'seg-' + tag)
    with open(fn, 'w') as f:
        f.write(segments_text(segs))
    cmd = [binary, prop, 'replay', '--file', fn, '--shared', sh, '--tier', '1' if tier == 'thorough' else '0'] + (['--verbose'] if verbose else [])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=timeout, preexec_fn=cpu_limits)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        rc, out = -9, (e.stdout or b'') + b'\ntimeout'
    s = read_shared(sh)
    rc2 = 0 if rc == 42 else rc
    cls, msg = classify(rc2, s, out)
    return cls, msg, s['event_hash'], out


def seed_choices(binary, prop, tier, seed, indices, work, tag, timeout=300):
    """Executes single indices from their seed in a fresh process each; returns results of the last."""
    sh = os.path.join(work, 'sh-' + tag)
    idx = indices
    cmd = [binary, prop, 'run', '--seed', str(seed), '--start', str(idx), '--count', '1', '--shared', sh, '--stats', os.path.join(work, 'st-' + tag), '--tier', '1' if tier == 'thorough' else '0']
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=timeout, preexec_fn=cpu_limits)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        rc, out = -9, b'timeout'
    s = read_shared(sh)
    cls, msg = classify(0 if rc == 42 else rc, s, out)
    return cls, msg, s, out


def report_violation(prop, variant, binary, tier, seed, start, stride, index, cls, msg, sh, work):
    """Gate, minimise and report.  Returns True if reported."""
    # the same seed twice in fresh processes
    a = seed_choices(binary, prop, tier, seed, index, work, 'g1')
    b = seed_choices(binary, prop, tier, seed, index, work, 'g2')
    segs = None
    if a[0] and b[0] and a[0] == b[0] and a[0] != 'harness' and a[2]['event_hash'] == b[2]['event_hash']:
        segs = [a[2]['choices']]
        cls, msg = a[0], a[1]
    elif prop != 'C10' and variant not in FORKED:
        # Depends on what earlier runs left behind in the process: replay the history of that worker.
        log('violation needs the history of the process; collecting it')
        idxs = list(range(start, index + 1, stride))
        for n in (2, 8, 40, 200, 1000):
            tail = idxs[-n:]
            hist = []
            for i in tail:
                r = seed_choices(binary, prop, tier, seed, i, work, 'h')
                hist.append(r[2]['choices'])
            c1 = run_replay(binary, prop, tier, hist, work, 'h1')
            c2 = run_replay(binary, prop, tier, hist, work, 'h2')
            if c1[0] and c1[0] == c2[0] and c1[2] == c2[2]:
                segs, cls, msg = hist, c1[0], c1[1]
                break
            if n >= len(idxs):
                break
    if segs is None:
        log('violation at index %d (%s: %s) did not reproduce: %s / %s' % (index, cls, msg, a[:2], b[:2]))
        return False
    # minimise
    inf, outf = os.path.join(work, 'shrink-in'), os.path.join(work, 'shrink-out')
    with open(inf, 'w') as f:
        f.write(segments_text(segs))
    if os.path.exists(outf):
        os.remove(outf)
    try:
        p = subprocess.run([binary, prop, 'shrink', '--file', inf, '--out', outf, '--shared', os.path.join(work, 'sh-shrink'), '--time', '25', '--tier', '1' if tier == 'thorough' else '0'],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV, timeout=240, preexec_fn=cpu_limits)
        log(p.stdout.decode(errors='replace').strip())
    except subprocess.TimeoutExpired:
        log('minimisation timed out')
    small = segs
    if os.path.exists(outf):
        small = [[int(x) for x in l.split()[1:]] for l in open(outf) if l.startswith('run')]
    r1 = run_replay(binary, prop, tier, small, work, 'r1')
    r2 = run_replay(binary, prop, tier, small, work, 'r2')
    if not (r1[0] and r1[0] == r2[0] and r1[2] == r2[2]):
        small = segs
        r1 = run_replay(binary, prop, tier, small, work, 'r1')
        r2 = run_replay(binary, prop, tier, small, work, 'r2')
        if not (r1[0] and r1[0] == r2[0] and r1[2] == r2[2]):
            log('replay is not stable: %s %s' % (r1[:3], r2[:3]))
            return False
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    path = os.path.join(VERIF, 'replays', '%s-%s-%d-%d.replay' % (prop, variant, seed, index))
    write_replay(path, prop, variant, tier, seed, index, r1[0], r1[1], '%016x' % r1[2], small)
    v = run_replay(binary, prop, tier, small, work, 'rv', verbose=True)
    log('--- minimised run (%d choices, %d runs), seed %d index %d, build %s' % (len(small[-1]), len(small), seed, index, variant))
    log(v[3].decode(errors='replace')[-5000:])
    log('violated: %s: %s' % (r1[0], r1[1]))
    log('VIOLATION property=%s replay=%s' % (prop, path))
    return True


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    plan = PLAN[prop]
    bins = build([v for v, _ in plan])
    build_s = time.time() - t0
    work = os.path.join(BUILD, 'work-%s-%d' % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        return check2(prop, tier, t0, seed, plan, bins, build_s, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check2(prop, tier, t0, seed, plan, bins, build_s, work):
    secs = QUICK_S if tier == 'quick' else THOROUGH_S
    if os.environ.get('VERIF_SECONDS'):
        secs = float(os.environ['VERIF_SECONDS'])
    # every variant explores its own disjoint range of run indices
    procs = []
    base = 0
    t1 = time.time()
    for vi, (v, share) in enumerate(plan):
        for w in range(share):
            tag = '%s-%d' % (v, w)
            start = base + w
            cmd = [bins[v], prop, 'run', '--seed', str(seed), '--start', str(start), '--stride', str(share), '--count', str(MAX_RUNS_PER_WORKER[tier]), '--time', str(secs),
                   '--shared', os.path.join(work, 'sh-' + tag), '--stats', os.path.join(work, 'st-' + tag), '--tier', '1' if tier == 'thorough' else '0', '--variant', v]
            of = open(os.path.join(work, 'out-' + tag), 'wb')
            procs.append([v, tag, start, share, subprocess.Popen(cmd, stdout=of, stderr=subprocess.STDOUT, env=ENV, preexec_fn=cpu_limits), of])
        base += 1000000000
    deadline = time.time() + secs + 200
    failures = []
    # stop everything soon after the first failure
    pending = list(procs)
    stop_at = None
    killed = set()
    while pending:
        for p in list(pending):
            rc = p[4].poll()
            if rc is not None:
                pending.remove(p)
                if rc != 0 and p[1] not in killed:
                    failures.append((p, rc))
                    if stop_at is None:
                        stop_at = time.time() + 3
        now = time.time()
        if pending and ((stop_at and now > stop_at) or now > deadline):
            for p in pending:
                killed.add(p[1])
                p[4].kill()
                if now > deadline and not stop_at:
                    failures.append((p, -9))
        time.sleep(0.02)
    for p in procs:
        p[5].close()
    reported = False
    errors = []
    for p, rc in failures:
        v, tag, start, share = p[0], p[1], p[2], p[3]
        out = open(os.path.join(work, 'out-' + tag), 'rb').read()
        sh = read_shared(os.path.join(work, 'sh-' + tag))
        cls, msg = classify(0 if rc == 42 else rc, sh, out)
        if cls == 'harness':
            errors.append('harness: ' + msg)
            continue
        log('run %d (%s): %s: %s' % (sh['index'], v, cls, msg))
        if report_violation(prop, v, bins[v], tier, seed, start, share, sh['index'], cls, msg, sh, work):
            reported = True
            break
        errors.append('unreproducible failure at index %d of %s: %s %s\n%s' % (sh['index'], v, cls, msg, out.decode(errors='replace')[-1500:]))
    ex_s = time.time() - t1
    # statistics
    stats = []
    for p in procs:
        fn = os.path.join(work, 'st-' + p[1])
        if os.path.exists(fn):
            try:
                stats.append((p[0], json.load(open(fn))))
            except ValueError:
                pass
    det_checked = det_bad = 0
    if not failures:
        # determinism: sampled indices again, alone in fresh processes, must give the same event hash
        sample = []
        for v, s in stats:
            for i, h in s['hashes'][:3] if tier == 'quick' else s['hashes'][:12]:
                sample.append((v, i, h))

        def one(x):
            k, (v, i, h) = x
            r = seed_choices(bins[v], prop, tier, seed, i, work, 'd%d' % k)
            return '%016x' % r[2]['event_hash'] == h
        with ThreadPoolExecutor(NCPU) as ex:
            for ok in ex.map(one, list(enumerate(sample))):
                det_checked += 1
                det_bad += 0 if ok else 1
        if det_bad:
            errors.append('%d of %d sampled runs did not repeat exactly' % (det_bad, det_checked))
    write_evidence(prop, tier, seed, stats, bins, work, time.time() - t0, ex_s, build_s, 1 if reported else 0, det_checked, det_bad)
    if reported:
        return 1
    if errors:
        for e in errors:
            log('ERROR', e)
        return 2
    for line in known_findings(prop):
        log(line)
    runs = sum(s['runs'] for _, s in stats)
    log('%s %s: %d simulated runs in %.1fs (build %.1fs), seed %d: held' % (prop, tier, runs, ex_s, build_s, seed))
    return 0


def known_findings(prop):
    fn = os.path.join(VERIF, 'known_findings.txt')
    r = []
    if os.path.exists(fn):
        for l in open(fn):
            if l.startswith('known: property=%s ' % prop):
                r.append('KNOWN-FINDING: property=%s %s' % (prop, l.split(' ', 2)[2].strip()))
    return r


META = json.load(open(os.path.join(SIM, 'meta.json'))) if os.path.exists(os.path.join(SIM, 'meta.json')) else {}


def write_evidence(prop, tier, seed, stats, bins, work, wall, ex_s, build_s, violations, det_checked, det_bad):
    runs = sum(s['runs'] for _, s in stats)
    nont = sum(s['nontrivial'] for _, s in stats)
    counters, sigs = {}, set()
    per_variant = {}
    for v, s in stats:
        for k, n in s['counters'].items():
            counters[k] = counters.get(k, 0) + n
        sigs.update((v, x) for x in s['sigs'])
        d = per_variant.setdefault(v, {'runs': 0, 'library_edges_covered_max': 0, 'library_edges_total': s['edges_total']})
        d['runs'] += s['runs']
        d['library_edges_covered_max'] = max(d['library_edges_covered_max'], s['edges'])
    samples = []
    for v, s in stats[:1] + stats[-1:]:
        for i, h in s['hashes'][:40]:
            if len([x for x in samples if x['build'] == v]) >= 2:
                break
            r = None
            a = seed_choices(bins[v], prop, tier, seed, i, work, 'smp')
            r = run_replay(bins[v], prop, tier, [a[2]['choices']], work, 'smp2', verbose=True)
            text = [l for l in r[3].decode(errors='replace').splitlines() if l and not l.startswith('replay ')]
            if len(text) < 1:
                continue
            samples.append({'build': v, 'seed': seed, 'index': i, 'event_hash': h, 'choices': len(a[2]['choices']), 'trace': text[:20]})
    m = META.get(prop, {})
    steps = sum(s['steps'] for _, s in stats)
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': len(sigs),
        'rule': 'One evaluation is one simulated run: all inputs, schedules and faults drawn from the seeded choice stream. ' + m.get('rule', '') +
                ' Distinct: runs are counted once per distinct signature, the bucketed execution counts of all control-flow edges of the library in that run.',
        'samples': samples,
        'nontrivial_runs': nont,
        'distinct_histories': sum(s['distinct_histories'] for _, s in stats),
        'runs_per_hour': int(runs / max(ex_s, 0.1) * 3600),
        'seeds': 'VERIF_SEED=%d; run i uses the stream derived from (VERIF_SEED, property, i)' % seed,
        'simulated_time_steps': steps,
        'simulated_time_unit': 'control-flow edges executed by the library',
        'choices_drawn': sum(s['choices'] for _, s in stats),
        'api_events_observed': sum(s['events'] for _, s in stats),
        'faults_injected': {k: n for k, n in sorted(counters.items()) if k.startswith(('fault.', 'misuse.', 'io.', 'limits.', 'restart.'))},
        'workload_and_schedule_counts': {k: n for k, n in sorted(counters.items()) if not k.startswith(('fault.', 'misuse.', 'io.', 'limits.', 'restart.'))},
        'builds': per_variant,
        'determinism_reruns': det_checked, 'determinism_mismatches': det_bad,
        'real_components': m.get('real', ''), 'stubbed_components': m.get('stub', ''),
        'build_seconds': round(build_s, 1),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': m.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': violations}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    fn = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(fn + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(fn + '.tmp', fn)


def replay(path):
    meta, segs = {}, []
    for l in open(path):
        if l.startswith('run'):
            segs.append([int(x) for x in l.split()[1:]])
        elif ':' in l and not l.startswith('#'):
            k, v = l.split(':', 1)
            meta[k.strip()] = v.strip()
    b = build([meta['variant']])[meta['variant']]
    work = os.path.join(BUILD, 'work-replay-%d' % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        cls, msg, h, out = run_replay(b, meta['property'], meta.get('tier', 'quick'), segs, work, 'r', verbose=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    log(out.decode(errors='replace'))
    same = cls == meta['class'] and '%016x' % h == meta['hash']
    log('replay: class=%s message=%s hash=%016x %s' % (cls, msg, h, 'identical to the recorded run' if same else '(recorded: class=%s hash=%s)' % (meta['class'], meta['hash'])))
    if cls:
        log('VIOLATION property=%s replay=%s' % (meta['property'], path))
        return 1
    return 0


def determinism(prop, n=400):
    """The same indices under three worker layouts; event hashes must agree."""
    work = os.path.join(BUILD, 'work-det-%d' % os.getpid())
    os.makedirs(work, exist_ok=True)
    bins = build([v for v, _ in PLAN[prop]])
    bins = dict((v, bins[v]) for v, _ in PLAN[prop])
    bad = total = 0
    for v, b in bins.items():
        table = {}
        for seed in range(1, 11):
            jobs = []
            for layout in (1, 3, 8, 20):
                for w in range(layout):
                    sh, st = os.path.join(work, 's%d-%d-%d' % (seed, layout, w)), os.path.join(work, 't%d-%d-%d' % (seed, layout, w))
                    jobs.append((seed, layout, w, sh, st))

            def go(j):
                seed, layout, w, sh, st = j
                subprocess.run([b, prop, 'run', '--seed', str(seed), '--start', str(w), '--stride', str(layout), '--count', str(max(1, 40 // layout)), '--shared', sh, '--stats', st],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV, preexec_fn=cpu_limits)
                r = json.load(open(st))['hashes']
                os.remove(sh)
                return seed, r
            with ThreadPoolExecutor(NCPU) as ex:
                for seed_, r in ex.map(go, jobs):
                    for i, h in r:
                        total += 1
                        if table.setdefault((seed_, i), h) != h:
                            bad += 1
        log('%s %s: %d executions of %d runs, %d mismatches so far' % (prop, v, total, len(table), bad))
    shutil.rmtree(work, ignore_errors=True)
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if not a:
        die('usage')
    if a[0] == '--build':
        print(build(a[1:] or list(VARIANTS)))
        return 0
    if a[0] == '--replay':
        return replay(a[1])
    if a[0] == '--selftest-determinism':
        rc = 0
        for p in a[1:] or sorted(PLAN):
            rc |= determinism(p)
        return rc
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    return check(a[0], tier)


if __name__ == '__main__':
    sys.exit(main())
