"""Machinery shared by the checks: build the driver from /repo, run sessions on
the real code, validate the recorded trace with TLC, report."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, glob, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
NCPU = max(2, min(8, os.cpu_count() or 4))
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class MachineryError(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

# ---------------------------------------------------------------- building
VARIANTS = {
    'asan': dict(cxx=['-O0', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
                      '-fno-sanitize=vptr,function', '-D_GLIBCXX_ASSERTIONS'], ign=True),
    'tsan': dict(cxx=['-O1', '-g1', '-fsanitize=thread'], ign=False),
    'plain': dict(cxx=['-O1', '-g1', '-D_GLIBCXX_ASSERTIONS'], ign=False),
    'parts': dict(cxx=['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,function',
                       '-D_GLIBCXX_ASSERTIONS', '-DDRIVER_PARTS'], ign=True),
    # the Android binding on a desktop Java
    'jni': dict(cxx=['-O1', '-g1', '-fPIC', '-D_GLIBCXX_ASSERTIONS'], ign=False),
}
ANDROID = REPO + '/android/tokenizers_android/src/main'

def java_home():
    return os.path.dirname(os.path.dirname(os.path.realpath(shutil.which('javac'))))

def build(variant):
    """Compile every source of /repo's working tree and the driver; returns the driver's path."""
    v = VARIANTS[variant]
    srcs = sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))
    hdrs = sorted(glob.glob(REPO + '/include/**/*.h', recursive=True))
    driver = os.path.join(VERIF, 'harness', 'driver.cpp')
    jni = variant == 'jni'
    java = []
    if jni:
        driver = os.path.join(VERIF, 'harness', 'JniDriver.java')
        native = sorted(glob.glob(ANDROID + '/cpp/**/*.cpp', recursive=True))
        java = sorted(glob.glob(ANDROID + '/java/**/*.java', recursive=True))
        srcs += native
        hdrs += sorted(glob.glob(ANDROID + '/cpp/**/*.h', recursive=True))
    h = hashlib.sha256()
    for f in srcs + hdrs + java + [driver, os.path.join(VERIF, 'harness', 'mkshim.py')] + [os.path.join(VERIF, 'harness', 'parts.h')] * (variant == 'parts'):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    h.update(json.dumps(v, sort_keys=True).encode())
    out = os.path.join(BUILD, variant + '-' + h.hexdigest()[:16])
    exe = os.path.join(out, 'libtokenizers_android.so' if jni else 'driver')
    run = ['java', '-Xmx1g', '-Xcheck:jni', '-XX:+UseSerialGC', '-XX:-CreateCoredumpOnCrash', '-XX:ErrorFile=/dev/null', '-Djava.library.path=' + out, '-cp', JARS + ':' + out, 'JniDriver'] if jni else [exe]
    if os.path.exists(exe):
        return run
    t0 = time.time()
    os.makedirs(out + '/shim', exist_ok=True)
    subprocess.run([sys.executable, os.path.join(VERIF, 'harness', 'mkshim.py'), out + '/shim/simdjson.h'], check=True)
    open(out + '/ign.txt', 'w').write('src:*simdjson.h\nsrc:*nlohmann*\nsrc:*unicode/*\n')
    flags = ['-std=c++17', '-w', '-pthread', '-I', out + '/shim', '-I', REPO + '/include'] + v['cxx']
    if jni:
        flags += ['-I', java_home() + '/include', '-I', java_home() + '/include/linux']
        r = subprocess.run(['javac', '-cp', JARS, '-d', out, driver] + java, capture_output=True, text=True)
        if r.returncode:
            raise MachineryError('compiling the Java sources failed:\n' + r.stderr[-3000:])
    if v['ign']:
        flags.append('-fsanitize-ignorelist=' + out + '/ign.txt')
    def cc(f):
        o = os.path.join(out, os.path.relpath(f, '/').replace('/', '_') + '.o')
        r = subprocess.run(['clang++'] + flags + ['-c', f, '-o', o], capture_output=True, text=True)
        if r.returncode:
            raise MachineryError('compiling %s failed:\n%s' % (f, r.stderr[-3000:]))
        return o
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(cc, srcs if jni else [driver] + srcs))
    r = subprocess.run(['clang++', '-pthread'] + (['-shared'] if jni else []) + [x for x in v['cxx'] if 'sanitize' in x] + objs +
                       ['-lsimdjson', '-licui18n', '-licuuc', '-o', exe + '.tmp'], capture_output=True, text=True)
    if r.returncode:
        raise MachineryError('linking failed:\n' + r.stderr[-3000:])
    for o in objs:
        os.unlink(o)
    os.rename(exe + '.tmp', exe)
    log('built %s in %.1fs' % (variant, time.time() - t0))
    return run

# ---------------------------------------------------------------- running sessions
SAN_ENV = dict(ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=0',
               UBSAN_OPTIONS='halt_on_error=1:exitcode=99:print_stacktrace=0',
               TSAN_OPTIONS='halt_on_error=1:exitcode=99:second_deadlock_stack=1')

def _run_chunk(exe, sessions, work, env, timeout):
    """Runs the sessions in order; returns for each a list of outputs (one per call made)."""
    req = os.path.join(work, 'req'); res = os.path.join(work, 'res')
    with open(req, 'w') as f:
        for s in sessions:
            f.write(json.dumps(s) + '\n')
    open(res, 'w').close()
    outs = [[] for _ in sessions]
    start = 0
    restarts = 0
    while start < len(sessions):
        e = dict(os.environ); e.update(SAN_ENV); e['LC_ALL'] = 'C'; e.update(env or {})
        with open(os.path.join(work, 'err'), 'wb') as err:
            p = subprocess.Popen(exe + [req, res, str(start)], stdout=subprocess.DEVNULL, stderr=err, env=e, cwd=work)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); rc = 'timeout'
        outs = [[] for _ in sessions]
        lines = open(res, errors='replace').read().split('\n')
        for ln in lines:
            if not ln:
                continue
            try:
                r = json.loads(ln)
            except ValueError:
                continue
            if r['c'] == len(outs[r['s']]):
                outs[r['s']].append(r['out'])
        if rc == 0:
            break
        if rc == 3:
            raise MachineryError('driver error: ' + open(os.path.join(work, 'err'), errors='replace').read()[-2000:])
        # the first session without all its outputs is the one that ended the process
        bad = next((i for i in range(start, len(sessions)) if len(outs[i]) < len(sessions[i])), None)
        text = open(os.path.join(work, 'err'), errors='replace').read()
        if bad is None:   # a report at exit
            bad = len(sessions) - 1
        m = re.search(r'(SUMMARY: .*|runtime error: .*|terminate called.*\n.*|Assertion .*failed.*|.*Sanitizer.*)', text)
        why = 'hang' if rc in ('timeout', -14) else ('%s rc=%s' % (m.group(1)[:300] if m else 'died', rc))
        with open(res, 'a') as f:
            f.write(json.dumps(dict(s=bad, c=len(outs[bad]), out=dict(crash=why))) + '\n')
        outs[bad].append(dict(crash=why))
        start = bad + 1
        restarts += 1
        if restarts > 40:     # enough evidence; leave the rest out
            for i in range(start, len(sessions)):
                outs[i] = []
            break
    return outs

def run_sessions(exe, sessions, env=None, timeout=300, jobs=NCPU):
    """Runs sessions on the real code, spread over processes."""
    n = len(sessions)
    jobs = max(1, min(jobs, n))
    chunks = [list(range(i, n, jobs)) for i in range(jobs)]
    outs = [None] * n
    base = tempfile.mkdtemp(prefix='verif-run-')
    try:
        def go(j):
            w = os.path.join(base, str(j)); os.makedirs(w)
            return _run_chunk(exe, [sessions[i] for i in chunks[j]], w, env, timeout)
        with ThreadPoolExecutor(jobs) as ex:
            for j, r in enumerate(ex.map(go, range(jobs))):
                for i, o in zip(chunks[j], r):
                    outs[i] = o
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return outs

# ---------------------------------------------------------------- TLC
def tlc(module, cfg=None, env=None, timeout=600, workers=1, heap='2g', extra=()):
    """Runs TLC in a scratch directory; returns (exit code, output)."""
    meta = tempfile.mkdtemp(prefix='verif-tlc-')
    try:
        e = dict(os.environ); e['VERIF_UNICODE'] = os.path.join(SPEC, 'data', 'unicode.json'); e.update(env or {})
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
               '-XX:TieredStopAtLevel=4', '-cp', JARS, 'tlc2.TLC', '-metadir', meta, '-workers', str(workers),
               '-noGenerateSpecTE', '-config', cfg or module + '.cfg'] + list(extra) + [module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
            return p.returncode, p.stdout + p.stderr
        except subprocess.TimeoutExpired as x:
            return 'timeout', (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or '')
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def _weight(events):
    return sum(len(json.dumps(e)) for e in events)

def validate(prop, groups, timeout=800, jobs=NCPU, module='Trace'):
    """groups: lists of events that belong together (one session each).  Returns
    (rejected [(group, event index, expected)], distinct states, states generated)."""
    groups = list(groups)
    order = sorted(range(len(groups)), key=lambda i: -len(groups[i]))
    jobs = max(1, min(jobs, len(groups)))
    shards = [[] for _ in range(jobs)]; load = [0] * jobs
    for i in order:
        k = load.index(min(load)); shards[k].append(i); load[k] += _weight(groups[i]) + 400 * len(groups[i])
    base = tempfile.mkdtemp(prefix='verif-trace-')
    rejected, states, trans = [], 0, 0
    def go(shard, name):
        """TLC's verdict on the groups of the shard"""
        f = os.path.join(base, name + '.ndjson')
        index = []
        with open(f, 'w') as o:
            for i in shard:
                o.write('{"op":"reset"}\n'); index.append((i, None))
                for j, e in enumerate(groups[i]):
                    o.write(json.dumps(e) + '\n'); index.append((i, j))
        rc, out = tlc(module, env=dict(VERIF_TRACE=f, VERIF_PROP=prop), timeout=timeout)
        os.unlink(f)
        if rc != 0 or 'Model checking completed. No error' not in out:
            # something TLC cannot evaluate: find the group
            if rc != 'timeout' and len(shard) > 1 and 'semantic analysis failed' not in out:
                h = len(shard) // 2
                a, b = go(shard[:h], name + 'a'), go(shard[h:], name + 'b')
                return a[0] + b[0], a[1] + b[1], a[2] + b[2]
            m = re.search(r'Error: .*(?:\n.*){0,12}', out)
            raise MachineryError('TLC ended with %s on %d groups, first %s:\n%s' % (rc, len(shard), json.dumps(groups[shard[0]])[:1500], m.group(0) if m else out[-3000:]))
        m = re.search(r'(\d+) states generated, (\d+) distinct', out)
        exp = {int(m.group(1)): m.group(2).replace('\\"', '"') for m in re.finditer(r'^"EXPECTED (\d+) (.*)"$', out, re.M)}
        rej = [index[int(m.group(1)) - 1] + (exp.get(int(m.group(1)), ''),) for m in re.finditer(r'^"REJECT (\d+)"$', out, re.M)]
        return rej, int(m.group(2)) if m else 0, int(m.group(1)) if m else 0
    try:
        with ThreadPoolExecutor(jobs) as ex:
            for rej, st, tr in ex.map(go, shards, map(str, range(jobs))):
                rejected += rej; states += st; trans += tr
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return sorted(set(rejected)), states, trans
