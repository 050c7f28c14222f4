"""Shared machinery of the checks: build, run scenarios, run TLC, report.

Everything is rebuilt from /repo's working tree; build products and scratch
data live in /verif/.build and /verif/.work (both ignored by git)."""
import atexit
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
WORK = os.path.join(VERIF, '.work')         # replay directories stay here
RUN = os.path.join(WORK, 'run%d' % os.getpid())  # scratch of this run
SPEC = os.path.join(VERIF, 'spec')
JAVA = ['java', '-XX:+UseSerialGC', '-Xss64m']
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = max(2, min(8, os.cpu_count() or 2))
WRAP = '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free'
CFLAGS = ['-w', '-std=gnu99', '-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer',
          '-DUSE_CLEANUP_CUSTOM_DATATYPES=1']


class ToolError(Exception):
    """The machinery itself failed: no verdict."""


def seed():
    return int(os.environ.get('VERIF_SEED', '1'))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


# ------------------------------------------------------------------ build
def _sources():
    core = sorted(glob.glob(REPO + '/src/*.c') + glob.glob(REPO + '/src/*/*.c'))
    back = sorted(glob.glob(REPO + '/backends/open62541/src/**/*.c', recursive=True))
    shim = sorted(glob.glob(VERIF + '/shim/src/*.c'))
    return core, back, shim


def _digest(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]


def build(harness):
    """harness: 'h_core' or 'h_back'. Returns the path of the executable."""
    core, back, shim = _sources()
    hdr = sorted(glob.glob(REPO + '/include/**/*.h', recursive=True) + glob.glob(REPO + '/src/**/*.h', recursive=True)
                 + glob.glob(REPO + '/backends/open62541/**/*.h', recursive=True)
                 + glob.glob(VERIF + '/shim/**/*.h', recursive=True) + glob.glob(VERIF + '/harness/*'))
    dg = _digest(core + back + shim + hdr)
    d = os.path.join(BUILD, dg)
    exe = os.path.join(d, harness)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        os.makedirs(d, exist_ok=True)
        inc = ['-I' + VERIF + '/shim/include', '-I' + VERIF + '/shim/src', '-I' + VERIF + '/harness', '-I' + REPO + '/include', '-I' + REPO + '/src',
               '-I' + REPO + '/backends/open62541/include', '-I' + REPO + '/backends/open62541/src', '-I/usr/include/libxml2']
        libsrc = core + back
        jobs = []
        for f in libsrc + shim + [VERIF + '/harness/hcommon.c', VERIF + '/harness/' + harness + '.c']:
            o = os.path.join(d, f.strip('/').replace('/', '_') + '.o')
            if not os.path.exists(o):
                jobs.append((f, o))

        def cc(j):
            r = sh(['gcc'] + CFLAGS + inc + ['-c', j[0], '-o', j[1] + '.tmp'])
            if r.returncode == 0:
                os.rename(j[1] + '.tmp', j[1])
            return r
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for r in ex.map(cc, jobs):
                if r.returncode:
                    raise ToolError('build failed:\n' + r.stdout[-3000:])
        objs = [os.path.join(d, f.strip('/').replace('/', '_') + '.o')
                for f in libsrc + shim + [VERIF + '/harness/hcommon.c', VERIF + '/harness/' + harness + '.c']]
        r = sh(['gcc', '-fsanitize=address'] + objs + [WRAP, '-lxml2', '-lm', '-lpthread', '-o', exe + '.tmp'])
        if r.returncode:
            raise ToolError('link failed:\n' + r.stdout[-3000:])
        os.rename(exe + '.tmp', exe)
    return exe


# ------------------------------------------------------------------ run
def _tidy(pid=os.getpid()):
    """removes the scratch of this run and of runs that were ended"""
    if os.getpid() != pid:
        return
    for d in glob.glob(os.path.join(WORK, 'run*')):
        n = os.path.basename(d)[3:]
        if d == RUN or (n.isdigit() and not os.path.exists('/proc/' + n)):
            shutil.rmtree(d, ignore_errors=True)


if not os.environ.get('VERIF_KEEP'):
    atexit.register(_tidy)


def workdir(name):
    d = os.path.join(RUN, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def run_scenarios(exe, scens, d, timeout=20, jobs=None):
    """scens: list of (id, [command lines]). Returns {id: [events]}."""
    jobs = jobs or NCPU
    out = os.path.join(d, 'out'); os.makedirs(out, exist_ok=True)
    parts = [scens[i::jobs] for i in range(jobs)]
    procs = []
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:handle_abort=0', LC_ALL='C')
    for i, p in enumerate(parts):
        if not p:
            continue
        f = os.path.join(d, 'scen%d.txt' % i)
        with open(f, 'w') as o:
            for sid, cmds in p:
                o.write('S %s\n' % sid)
                for c in cmds:
                    o.write(c + '\n')
                o.write('E\n')
        procs.append(subprocess.Popen([exe, f, out, str(timeout)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    for p in procs:
        o, _ = p.communicate()
        if p.returncode != 0:
            raise ToolError('harness failed (%d): %s' % (p.returncode, o[-2000:]))
    res = {}
    for sid, _ in scens:
        res[sid] = read_events(os.path.join(out, sid + '.ndjson'))
    return res


def skipped(ev):
    return bool(ev) and ev[-1].get('how') == 'skipped'


def read_events(path):
    ev = []
    with open(path, 'rb') as f:
        for l in f:
            l = l.strip()
            if not l:
                continue
            try:
                ev.append(json.loads(l.decode('utf-8', 'replace'), strict=False))
            except ValueError:
                pass            # line cut off by a crash; the end record tells about it
    return ev


# ------------------------------------------------------------------ TLC
class TLC:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r'(\d+) states generated.*?, (\d+) distinct states found', out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r'depth of the complete state graph search is (\d+)', out)
        self.depth = int(m[-1]) if m else 0
        self.fails = re.findall(r'^"(FAIL .*)"$', out, re.M)
        self.ok = 'Model checking completed. No error has been found.' in out

    def prints(self, tag):
        return [l[1:-1].encode().decode('unicode_escape') if '\\' in l else l[1:-1]
                for l in re.findall(r'^"%s .*"$' % tag, self.out, re.M)]


def tlc(module, cfg=None, env=None, args=(), heap='3g', timeout=800, workers='1', d=None):
    cfg = cfg or module + '.cfg'
    d = d or RUN
    os.makedirs(d, exist_ok=True)
    meta = os.path.join(d, 'meta_%s_%d_%d' % (module, os.getpid(), time.monotonic_ns()))
    cmd = JAVA + ['-Xmx' + heap, '-cp', CP, 'tlc2.TLC', '-metadir', meta, '-config', cfg, '-noGenerateSpecTE', '-workers', str(workers)] + list(args) + [module]
    t = time.time()
    e = dict(os.environ); e.update(env or {})
    try:
        r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        rc, out = 124, (x.stdout or b'').decode('utf8', 'replace') if isinstance(x.stdout, bytes) else (x.stdout or '')
    shutil.rmtree(meta, ignore_errors=True)
    return TLC(rc, out, time.time() - t)


def model_check(module, cfg=None, workers='auto', **kw):
    """A model of the specification; an error here is an error of the machinery."""
    r = tlc(module, cfg, workers=str(NCPU) if workers == 'auto' else workers, **kw)
    if not r.ok:
        raise ToolError('model checking of %s %s failed (rc %d):\n%s' % (module, cfg or '', r.rc, r.out[-4000:]))
    return r


def judge(module, cases, d, env=None, cfg=None, jobs=None, weight=None, heap='3g', timeout=800):
    """Validates cases (JSON objects with an id) against a trace specification.
    Returns (failures: {id: message}, states, transitions)."""
    if not cases:
        return {}, 0, 0
    jobs = min(jobs or NCPU, len(cases))
    lines = [(c['id'], json.dumps(c)) for c in cases]
    lines.sort(key=lambda x: -len(x[1]))
    parts = [[] for _ in range(jobs)]; load = [0] * jobs
    for l in lines:
        k = load.index(min(load)); parts[k].append(l); load[k] += (weight(l[1]) if weight else len(l[1])) + 2000

    def one(k):
        f = os.path.join(d, 'judge%d.ndjson' % k)
        with open(f, 'w') as o:
            for l in parts[k]:
                o.write(l[1] + '\n')
        return tlc(module, cfg, env=dict(env or {}, TRACE=f), heap=heap, d=d, timeout=timeout)
    fails, st, tr = {}, 0, 0
    with cf.ThreadPoolExecutor(jobs) as ex:
        rs = list(ex.map(one, range(jobs)))
    for k, r in enumerate(rs):
        st += r.distinct; tr += r.generated
        for m in r.fails:
            p = m.split(' ', 2)
            fails.setdefault(p[1], m)
        if not r.ok:
            if r.rc == 124 or 'OutOfMemory' in r.out or 'StackOverflow' in r.out:
                raise ToolError('TLC ran out of resources: ' + r.out[-1500:])
            if 'semantic analysis failed' in r.out or r.distinct == 0:
                raise ToolError('TLC cannot start with %s: %s' % (module, r.out[-1500:]))
            if len(parts[k]) == 1:
                raise ToolError('TLC cannot evaluate case %s:\n%s' % (parts[k][0][0], r.out[-4000:]))
            # the case that has no value under the specification, and the rest
            todo = parts[k]
            for _ in range(4):
                at = re.findall(r'^/\\ c = (\d+)', r.out, re.M)
                n = int(at[-1]) if at else 1
                fails.setdefault(todo[n - 1][0], 'FAIL %s 0 not a behaviour of the specification: %s' % (todo[n - 1][0], ' '.join(explain(r.out).split())))
                todo = todo[n:]
                if not todo:
                    break
                f = os.path.join(d, 'judge%dr.ndjson' % k)
                with open(f, 'w') as o:
                    for l in todo:
                        o.write(l[1] + '\n')
                r = tlc(module, cfg, env=dict(env or {}, TRACE=f), heap=heap, d=d, timeout=timeout)
                for m in r.fails:
                    fails.setdefault(m.split(' ', 2)[1], m)
                if r.ok:
                    break
    return fails, st, tr


def explain(out):
    m = re.search(r'^(Error: .*?)(?:^State 1:|^Error: The behavior|^Finished in)', out, re.M | re.S)
    e = m.group(1) if m else out[-1200:]
    m = re.search(r'The error occurred when TLC was evaluating the nested.*?(?=^Finished|\Z)', out, re.M | re.S)
    return e[:900] + ' ... ' + (m.group(0)[-900:] if m else '')


# ------------------------------------------------------------------ report
class Result:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [],
                    'distinct_nontrivial': 0}
        self.violations = []
        self.known = []
        self.assumptions = []

    def model(self, r, name):
        self.cov['states'] += r.distinct; self.cov['transitions'] += r.generated
        self.cov.setdefault('models', {})[name] = {'states': r.distinct, 'transitions': r.generated, 'depth': r.depth, 'wall_s': round(r.wall, 1)}

    def violation(self, what, files=None, text=''):
        """files: {name: content or path to copy}"""
        n = len(self.violations)
        d = os.path.join(WORK, 'replay', '%s_%d' % (self.prop, n))
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        with open(os.path.join(d, 'README.txt'), 'w') as o:
            o.write('property %s is violated\n%s\n%s\n' % (self.prop, what, text))
        for k, v in (files or {}).items():
            with open(os.path.join(d, k), 'wb') as o:
                o.write(v if isinstance(v, bytes) else v.encode())
        self.violations.append((what, d))

    def finish(self):
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        for what, d in self.violations[:5]:
            print('violated: %s' % what[:600])
            print('VIOLATION property=%s replay=%s' % (self.prop, d))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': seed(), 'level': 'model_checking', 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as o:
            json.dump(ev, o, indent=1)
        print('%s %s: %s, %d traces judged, %d states, %.1f s' % (
            self.prop, self.tier, 'VIOLATED' if self.violations else 'held',
            self.cov['traces_validated_against_impl'], self.cov['states'], time.time() - self.t0))
        return 1 if self.violations else 0
