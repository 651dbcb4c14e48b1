"""Infrastructure of the checks: building /repo, running harness programs, TLC, evidence, verdicts."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(VERIF, 'build')
OUT = os.environ.get('VERIF_BUILD') or VERIF      # a trial on a scratch copy leaves no results here
SPEC = os.path.join(VERIF, 'spec')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself failed (neither verdict)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- build

def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, dn, fn in os.walk(root):
                dn[:] = sorted(x for x in dn if x not in ('.git', '_build', 'CMakeFiles', 'lib', 'build'))
                files += [os.path.join(d, f) for f in sorted(fn)]
        for f in files:
            if f.endswith(('.cpp', '.hpp', '.h', '.c', '.txt', '.cmake')):
                h.update(f.encode()); h.update(b'\0')
                with open(f, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()


ENV = dict(os.environ, OPENBLAS_NUM_THREADS='1', CC='/usr/bin/gcc', CXX='/usr/bin/g++', CMAKE_POLICY_VERSION_MINIMUM='3.5')
ENV.pop('JAVA_TOOL_OPTIONS', None)


def sh(cmd, cwd=None, timeout=600, env=None, check=True):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
    if check and r.returncode != 0:
        raise CheckError('command failed (%d): %s\n%s' % (r.returncode, ' '.join(cmd) if isinstance(cmd, list) else cmd, r.stdout[-4000:]))
    return r


class _Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, '.lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN); self.f.close()


def build_repo(hooks=True):
    """Builds /repo's working tree; returns the build directory.  A changed source tree is always built from scratch."""
    d = os.path.join(BUILD, 'hooks' if hooks else 'plain')
    stamp = os.path.join(d, '.stamp')
    h = tree_hash([os.path.join(REPO, 'src'), os.path.join(REPO, 'externalFunctions')])
    with _Lock():
        if os.path.exists(stamp) and open(stamp).read() == h:
            return d
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        flags = '-DRODEO_VERIF' if hooks else ''
        sh(['cmake', '-S', os.path.join(REPO, 'src'), '-B', d, '-G', 'Ninja', '-DFETCHCONTENT_FULLY_DISCONNECTED=ON', '-DCMAKE_CXX_FLAGS=' + flags])
        sh(['ninja', '-C', d])
        with open(stamp, 'w') as f:
            f.write(h)
    return d


def harness(name, extra=()):
    """Compiles harness/<name>.cpp against the hooked build; returns the executable."""
    d = build_repo(True)
    src = os.path.join(VERIF, 'harness', name + '.cpp')
    exe = os.path.join(d, 'h_' + name)
    stamp = exe + '.stamp'
    h = tree_hash([os.path.join(VERIF, 'harness')]) + ' '.join(extra)
    with _Lock():
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
            return exe
        libs = sorted(glob.glob(os.path.join(d, '**', '*.a'), recursive=True))
        ext = os.path.join(REPO, 'externalFunctions', 'lib')
        if 'API/INCLUDE' in open(src).read():
            extra = [*extra, *sorted(glob.glob(os.path.join(REPO, 'src', 'API', '*.cpp')))]
        sh(['g++', '-O1', '-DRODEO_VERIF', '-DOPENMP_SUPPORT', '-fopenmp', '-I' + os.path.join(REPO, 'src'), '-rdynamic', src, '-o', exe,
            *extra, '-Wl,--start-group', *libs, '-Wl,--end-group', '-L' + ext, '-lexternalFunctions', '-Wl,-rpath,' + ext,
            '-lopenblas', '-lpthread', '-ldl'])
        with open(stamp, 'w') as f:
            f.write(h)
    return exe


def rundir(check, fresh=True):
    d = os.path.join(BUILD, 'run', check)
    if fresh and os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d, exist_ok=True)
    return d


def parallel(fn, items, workers=None):
    with ThreadPoolExecutor(workers or NCPU) as ex:
        return list(ex.map(fn, items))


def run(cmd, cwd, timeout=120, env=None, **kw):
    e = dict(ENV)
    e['VERIF_SEED'] = str(SEED)
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return r.returncode, r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 'timeout', '', ''


def read_trace(path):
    ev = []
    if os.path.exists(path):
        with open(path, errors='replace') as f:
            for l in f:
                l = l.strip()
                if not l:
                    continue
                try:
                    ev.append(json.loads(l))
                except ValueError:
                    pass        # torn last line of a killed run
    return ev


# ---------------------------------------------------------------- TLC

class TLCResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        m = re.findall(r'depth of the complete state graph search is (\d+)', out)
        self.depth = int(m[-1]) if m else 0
        self.ok = rc == 0
        self.rejected = rc in (10, 11, 12, 13)
        if not self.ok and not self.rejected:
            # evaluation of an invariant or postcondition that is false is a rejection, everything else a model failure
            raise CheckError('TLC failed (rc=%s):\n%s' % (rc, out[max(0, out.find('Error:')):][:3000]))

    def summary(self):
        keep = []
        for l in self.out.splitlines():
            if l.startswith('Error:') or 'is violated' in l:
                keep.append(l)
        return ' '.join(keep)[:500]

    def last_state(self):
        parts = re.split(r'\nState \d+:', self.out)
        return parts[-1].split('\n\n')[0] if len(parts) > 1 else ''


def cfgtext(spec=None, init=None, next_=None, constants=None, invariants=(), properties=(), deadlock=True, constraint=None, postcondition=None, view=None):
    s = ''
    if spec:
        s += 'SPECIFICATION %s\n' % spec
    if init:
        s += 'INIT %s\nNEXT %s\n' % (init, next_)
    if constants:
        s += 'CONSTANTS\n' + ''.join('  %s = %s\n' % (k, tla(v)) for k, v in constants.items())
    if invariants:
        s += 'INVARIANTS ' + ' '.join(invariants) + '\n'
    if properties:
        s += 'PROPERTIES ' + ' '.join(properties) + '\n'
    if constraint:
        s += 'CONSTRAINT %s\n' % constraint
    if postcondition:
        s += 'POSTCONDITION %s\n' % postcondition
    if view:
        s += 'VIEW %s\n' % view
    s += 'CHECK_DEADLOCK %s\n' % ('TRUE' if deadlock else 'FALSE')
    return s


def tla(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, Raw):
        return v.s
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(tla(x) for x in sorted(v, key=str)) + '}'
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla(x) for x in v) + '>>'
    raise TypeError(v)


class Raw:
    def __init__(self, s):
        self.s = s


def tlc(module, cfg, work, workers=None, timeout=800, args=(), coverage=False, heap='6g'):
    """Runs TLC on spec/<module>.tla with the given cfg text in a private working directory."""
    os.makedirs(work, exist_ok=True)
    for f in glob.glob(os.path.join(SPEC, '*.tla')):
        dst = os.path.join(work, os.path.basename(f))
        if not os.path.exists(dst) or open(dst).read() != open(f).read():
            shutil.copy(f, dst)
    c = os.path.join(work, module + '_' + hashlib.md5(cfg.encode()).hexdigest()[:8] + '.cfg')
    with open(c, 'w') as f:
        f.write(cfg)
    meta = tempfile.mkdtemp(prefix='tlcmeta', dir=work)
    env = dict(ENV); env['TMPDIR'] = meta
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-Djava.io.tmpdir=' + meta,
           '-cp', '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tlc2.TLC',
           '-config', c, '-workers', str(workers or NCPU), '-metadir', meta, '-noGenerateSpecTE']
    if coverage:
        cmd += ['-coverage', '1']
    cmd += list(args) + [module + '.tla']
    try:
        r = subprocess.run(cmd, cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        raise CheckError('TLC timed out: ' + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(r.returncode, r.stdout)


def write_json(path, obj):
    with open(path, 'w') as f:
        json.dump(obj, f)


# ---------------------------------------------------------------- verdicts

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property=%s ' % prop):
                out.append(l)
    return out


class Check:
    """One run of a check: collects what was covered and the violations, writes the evidence, decides the exit code."""

    def __init__(self, prop, level='model_checking'):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.extra, self.assumptions, self.violations = [], {}, [], []
        self.dir = rundir(prop)

    def model(self, module, cfg, what, **kw):
        """Exhaustive (or simulated) checking of the design itself; a failure here is a failure of the check."""
        r = tlc(module, cfg, os.path.join(self.dir, 'tlc'), **kw)
        if not r.ok:
            raise CheckError('the specification violates its own properties: %s\n%s' % (what, r.out[-6000:]))
        self.states += r.distinct; self.transitions += r.generated
        self.extra.setdefault('models', []).append('%s: %d distinct states, %d transitions, depth %d' % (what, r.distinct, r.generated, r.depth))
        log('[%s] model %s: %d states' % (self.prop, what, r.distinct))
        return r

    def validate(self, module, cfg, name, traces, sample=None, **kw):
        """Validates a batch of traces (written by the caller to <dir>/tlc/<name>.json); returns None or the TLC result of the rejection."""
        w = os.path.join(self.dir, 'tlc')
        r = tlc(module, cfg, w, **kw)
        if r.rejected:
            r2 = tlc(module, cfg, w, **kw)
            if not r2.rejected:
                raise CheckError('rejection not reproducible')
            return r
        self.states += r.distinct; self.transitions += r.generated
        self.traces += traces
        return None

    def violation(self, what, detail):
        i = len(self.violations)
        d = os.path.join(OUT, 'out', self.prop)
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, 'violation_%d.txt' % i)
        with open(f, 'w') as h:
            h.write(what + '\n\n' + detail + '\n')
        self.violations.append((what, f))
        log('[%s] VIOLATION %s' % (self.prop, what))

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(s)

    def finish(self):
        cov = dict(self.extra)
        cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, samples=self.samples or ['none'])
        ev = dict(property=self.prop, tier='thorough' if THOROUGH else 'quick', seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
        write_json(os.path.join(OUT, 'evidence', self.prop + '.json'), ev)
        known = known_findings(self.prop)
        for k in known:
            print(k)
        if self.violations:
            for what, f in self.violations[:10]:
                print('# ' + what.replace('\n', ' ')[:300])
                print('VIOLATION property=%s replay=%s' % (self.prop, f))
            return 1
        print('OK property=%s states=%d traces=%d wall=%.1fs' % (self.prop, self.states, self.traces, time.time() - self.t0))
        return 0


def main(prop, fn):
    if '--help' in sys.argv:
        print(__doc__); sys.exit(0)
    try:
        c = Check(prop)
        fn(c)
        rc = c.finish()
    except CheckError as e:
        log('CHECK ERROR:', e); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    sys.exit(rc)
