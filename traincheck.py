"""P15: training of surrogate models on several threads."""
import json, math, os, random, re
import vlib, egocheck

WRAP = ('-Wl,--wrap=_ZN5Rodop11EAOptimizer8optimizeEv', '-Wl,--wrap=_ZNK5Rodop11EAOptimizer11getSolutionEv')
HUGE = 1.7976931348623157e308


class Life:
    """operations on a model"""
    def __init__(self, rng, name, case=None):
        self.name, self.rng = name, rng
        self.d = rng.choice([1, 1, 1, 2]) if not case else 1
        d = self.d
        self.lb = [rng.choice([0.0, -5.0, 100.0, -1e-3]) for _ in range(d)]
        self.ub = [a + rng.choice([1.0, 10.0, 0.01, 1e4]) for a in self.lb]
        self.kind = 'smooth' if case else rng.choice(['smooth', 'smooth', 'noise', 'twins', 'twins', 'close', 'close', 'constant', 'steps', 'cluster', 'same'])
        self.valid = not case and self.kind in ('smooth', 'noise', 'close', 'same') and rng.random() < .35
        n = rng.randint(3, 8) if not self.valid else rng.randint(6, 10)
        if case:
            n = 3
        self.rows = []
        for i in range(n):
            self.rows.append(self.row())
        if self.kind == 'twins':
            self.rows[-1] = self.rows[0][:d] + [self.rows[0][d] + rng.choice([0.0, 1.0, -3.5])]
        if self.kind == 'same':
            self.rows = [self.rows[0][:d] + r[d:] for r in self.rows]
        if self.kind in ('close', 'cluster'):
            k = 1 if self.kind == 'close' else n - 1
            for j in range(1, k + 1):
                self.rows[j] = [self.clip(i, v + (self.ub[i] - self.lb[i]) * rng.choice([1e-3, 1e-5, 1e-7, 1e-8, 1e-9]) * rng.choice([-1, 1])) for i, v in enumerate(self.rows[0][:d])] + [self.rows[0][d] + rng.uniform(-.1, .1)]
        L = self.lines = ['model %d' % d, 'threads %d' % (len(case['value']) if case else rng.choice([1, 2, 2, 3, 4, 6])), 'iters %d' % (1 if case else rng.choice([1, 400 * d, 600 * d, 1300 * d])),
                          'epsilon %s' % rng.choice(['0', '0', '1e-12', '1e-10', '1e-7'])]
        if not case and rng.random() < .2:
            L.append('linear')
        if self.valid:
            L.append('valid %s' % rng.choice(['0.2', '0.34', '0.5']))
        L += ['box ' + ' '.join(repr(v) for v in self.lb + self.ub), 'rows %d %s' % (n, ' '.join(repr(v) for r in self.rows for v in r)), 'setup']
        if case:
            self.plan(case['value'], [x - 1 for x in case['order']], max(case['value']))
            L.append('train')
            return
        for _ in range(rng.randint(1, 4)):
            op = rng.choice(['train', 'train', 'train', 'planned', 'add', 'reinit', 'update', 'threads', 'write', 'read']) if not self.valid else rng.choice(['train', 'planned', 'write'])
            if op == 'planned':
                k = self.threads()
                vs = [rng.choice([0, 1, 2, 3, 9]) for _ in range(k)]
                order = list(range(k))
                rng.shuffle(order)
                self.plan(vs, order, 9)
                op = 'train'
            elif op == 'train' and rng.random() < .8:
                order = list(range(self.threads()))
                rng.shuffle(order)
                L.append('plan 0 %d %s' % (len(order), ' '.join(map(str, order))))
            elif op == 'add':
                r = self.row()
                self.rows.append(r)
                op = 'add ' + ' '.join(repr(v) for v in r)
            elif op == 'threads':
                op = 'threads %d' % rng.choice([1, 2, 3, 5])
            elif op == 'write':
                L += ['write 1']
                op = 'train'
            elif op == 'read':
                L += ['write 1', 'train', 'write 0', 'read 1', 'train']
                op = 'read 0'
            L.append(op)
            if self.valid and op == 'train':
                L.append('update')
        if not any(x == 'train' for x in L):
            L.append('train')

    def clip(self, i, v):
        return min(max(v, self.lb[i]), self.ub[i])

    def threads(self):
        return [int(x.split()[1]) for x in self.lines if x.startswith('threads')][-1]

    def plan(self, ranks, order, fail):
        rng = self.rng
        base = sorted(rng.uniform(-200, 50) for _ in range(12))
        if rng.random() < .2:
            base = [-HUGE / 2] + base
        top = max(ranks)
        vs = [HUGE if r == fail and fail > 3 else base[r] for r in ranks]
        self.lines.append('plan %d %s %d %s' % (len(vs), ' '.join(repr(v) for v in vs), len(order), ' '.join(map(str, order))))

    def row(self):
        x = [self.rng.uniform(a, b) for a, b in zip(self.lb, self.ub)]
        z = [(v - a) / (b - a) for v, a, b in zip(x, self.lb, self.ub)]
        y = {'constant': 2.5, 'steps': float(round(z[0] * 2))}.get(self.kind)
        if y is None:
            y = math.sin(5 * z[0]) + sum(v * v for v in z) * 3 + 10
        if self.kind == 'noise':
            y = self.rng.uniform(-100, 100)
        return [float('%.9g' % v) for v in x] + [float('%.9g' % y)]

    def read(self, recs):
        ids, ev = {}, []

        def ident(r):
            r = tuple(float(v) for v in r)
            for k, i in ids.items():    # files have 12 digits after the point
                if all(abs(p - q) <= 1e-11 + 1e-9 * abs(p) for p, q in zip(k, r)):
                    return i
            return ids.setdefault(r, len(ids) + 1)
        d = self.d
        linear = 'linear' in self.lines
        last = None
        threads, read, write, trained, subset = 1, False, False, False, self.valid
        for line, r in zip(self.lines, recs):
            w = line.split()
            op = w[0]
            if op == 'threads':
                threads = int(w[1])
            elif op in ('read', 'write'):
                if op == 'read':
                    read = w[1] == '1'
                else:
                    write = w[1] == '1'
            e = dict(op=op if op != 'read' else 'readflag', ok=r['ok'], data=[], rows=[], row=0, consistent=True, same=True, slots=[], order=[], threads=threads, read=read, write=write,
                     near=False, broken=False, formula=True, loaded=True, stored=True, faked=False, fail=0)
            if op == 'rows':
                v = [float(x) for x in w[2:]]
                e['rows'] = [ident(v[i:i + d + 1]) for i in range(0, len(v), d + 1)]
            if op == 'add':
                e['row'] = ident([float(x) for x in w[1:]])
                new = [float(x) for x in w[1:]]
                e['near'] = any(all(abs(p - float(q)) <= 1e-4 for p, q in zip(new, old)) for old in (last or []))
            if op in ('setup', 'update'):
                subset = self.valid
            if op == 'train' and r['ok']:
                subset = False
            D = r['data']
            last = D['raw'] if D else last
            if D:
                e['data'] = [ident(x) for x in D['raw']]
                if op in ('setup', 'update', 'add', 'train', 'reinit'):
                    e['consistent'] = self.consistent(D, subset, linear)
            if op == 'train' and r['ok']:
                B = r['before']
                e['same'] = B['raw'] == D['raw'] and (self.valid or (B['X'] == D['X'] and B['y'] == D['y'] and B['n'] == D['n']))
                e['faked'] = r['faked']
                hyper = [float(x) for x in re.split(r'[,\s]+', r['hyper'].strip()) if x]
                close = lambda a, b: len(a) == len(b) and all(abs(p - q) <= 1e-5 * max(1.0, abs(p)) for p, q in zip(a, b))
                e['stored'] = e['loaded'] = close(r['final'], hyper)
                S = r['slots']
                flat = len({x[d] for x in B['raw']}) == 1    # without variance of the outputs the likelihood is not defined
                vs = {v for s in S for v in [s['value'], s['least']] + ([] if r['faked'] else [s['truth']]) + [x for c in s['cands'] for x in c[:2]]} | {HUGE}
                e['broken'] = r['same']
                good = lambda v, own, pv: r['faked'] or own is None or float(own) != float(own) or pv < 1e-6 or abs(float(v) - float(own)) <= 1e-3 * (1 + abs(float(own)))
                e['formula'] = flat or all(good(s['value'], s['own'], s['pivot']) and all(good(x[0], x[3], x[2]) for x in s['cands']) for s in S)
                vs = {float(v) for v in vs if v is not None}
                if any(v != v for v in vs):
                    e['consistent'] = False
                    vs = {v for v in vs if v == v}
                rank = {v: i for i, v in enumerate(sorted(vs))}
                rk = lambda v: rank.get(float(v), -1) if v is not None else -2
                e['fail'] = rank[HUGE]
                e['slots'] = [dict(value=rk(s['value']), truth=rk(s['truth']), least=rk(s['least']), safe=not r['faked'] and not flat and s['pivot'] > 1e-9, count=s['count'], final=s['genes'] == r['final'],
                                   cands=[dict(value=rk(c[0]), truth=rk(c[1]), safe=not flat and c[2] > 1e-9) for c in s['cands']]) for s in S]
                done = []
                for q in r['trained']:
                    m = [i for i, s in enumerate(S) if s['genes'] == q[1:] and i + 1 not in done]
                    if m:
                        done.append(m[0] + 1)
                e['order'] = done + [i + 1 for i in range(len(S)) if i + 1 not in done]
            ev.append(e)
        return dict(name=self.name, ev=ev)

    def consistent(self, D, subset, linear):
        d = self.d
        norm = lambda r: [(float(v) - a) / (b - a) / d for v, a, b in zip(r, self.lb, self.ub)]
        near = lambda a, b: len(a) == len(b) and all(abs(float(p) - float(q)) <= 1e-9 for p, q in zip(a, b))
        raw, X, y = D['raw'], D['X'], D['y']
        if len(X) != D['n'] or len(y) != D['n'] or D['n'] + D['nv'] != len(raw):
            return False
        if subset:
            return True
        return len(X) == len(raw) and all(near(X[i], norm(raw[i])) and (linear or float(y[i]) == float(raw[i][d])) for i in range(len(raw)))

    def script(self):
        return ['S ' + self.name] + self.lines


def execute(exe, lives, base, tag):
    d = os.path.join(base, tag)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'script'), 'w') as f:
        for s in lives:
            f.write('\n'.join(s.script()) + '\n')
    rc, out, err = vlib.run([exe, 'script', 'trace'], d, timeout=400, env=dict(OPENBLAS_NUM_THREADS='1', OMP_DYNAMIC='false'))
    parts, dead = [], None
    for r in vlib.read_trace(os.path.join(d, 'trace')):
        if r['e'] == 'start':
            parts.append([])
        else:
            parts[-1].append(r)
    traces = []
    for s, p in zip(lives, parts):
        if len(p) < len(s.lines):
            dead = (s, len(p), rc)
            break
        traces.append(s.read(p))
    vlib.shutil.rmtree(d)
    return traces, dead


def decide(c):
    big = dict(MaxThreads=4, Values={1, 2, 3}, Fail=9, MaxSamples=2) if vlib.THOROUGH else dict(MaxThreads=3, Values={1, 2}, Fail=9, MaxSamples=2)
    r = c.model('TrainingMC', vlib.cfgtext(spec='Spec', constants=big, invariants=['BestSoFar', 'BestAtEnd', 'NeverFails', 'Emit'], properties=['DataKept', 'Ends'], deadlock=False), 'TrainingMC %s' % big, timeout=3000)
    cases = {}
    for l in r.out.splitlines():
        m = re.match(r'<<"CASE", "(.*)">>$', l)
        if m:
            x = json.loads('"' + m.group(1) + '"')
            cases[x] = json.loads(x)
    if len(cases) < 100:
        raise vlib.CheckError('no cases')
    rng = random.Random(vlib.SEED)
    lives = [Life(rng, 'case%d' % i, cases[x]) for i, x in enumerate(sorted(cases))]
    lives += [Life(rng, 'life%d' % i) for i in range(4000 if vlib.THOROUGH else 600)]
    rng.shuffle(lives)
    exe = vlib.harness('train', WRAP)
    base = os.path.join(c.dir, 'sc')
    n = 16
    parts = [lives[i::n] for i in range(n)]
    res = vlib.parallel(lambda a: execute(exe, a[1], base, 'p%d' % a[0]), list(enumerate(parts)), 4)
    all_ = [s for p, (ts, d) in zip(parts, res) for s in p[:len(ts)]]
    traces = [t for ts, d in res for t in ts]
    for ts, d in res:
        if d:
            c.violation('%s: operation %d (%s) did not return: %s' % (d[0].name, d[1] + 1, d[0].lines[d[1]][:80] if d[1] < len(d[0].lines) else '?', d[2]), '\n'.join(d[0].script()))
    bad = egocheck.batch(c, 'TrainingTrace', traces, {})
    tr = [e for t in traces for e in t['ev'] if e['op'] == 'train']
    c.extra['trainings'] = len(tr)
    c.extra['with failing candidates'] = sum(1 for e in tr if any(x['value'] == e['fail'] for s in e['slots'] for x in s['cands']))
    c.extra['candidates compared'] = sum(len(s['cands']) for e in tr for s in e['slots'])
    c.extra['orders of completion'] = len({(tuple(e['order'])) for e in tr})
    for i in bad[:3]:
        w = os.path.join(c.dir, 'tlc')
        f = os.path.join(w, 'one.json')
        vlib.write_json(f, [traces[i]])
        r = vlib.tlc('TrainingTrace', vlib.cfgtext(spec='TraceSpec', constants=dict(File=f), deadlock=False, invariants=['Progress']), os.path.join(w, 'one'), workers=1)
        at = max(((int(a), b == 'selection', b) for a, b in re.findall(r'<<"AT", \d+, (\d+), "([^"]*)">>', r.out)), default=(0, False, '?'))
        t, s = traces[i], all_[i]
        c.violation('%s: operation %d (%s): %s' % (t['name'], at[0], s.lines[at[0] - 1][:80] if 0 < at[0] <= len(s.lines) else '?', at[2]), '\n'.join(s.script()) + '\n' + json.dumps(t))
    c.sample(dict(script=lives[0].script()))


def run():
    vlib.main('P15', decide)
