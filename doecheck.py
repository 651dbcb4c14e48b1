"""P17: designs of experiments."""
import json, os, random, re
from fractions import Fraction
import vlib, egocheck, egolib, extlib
from egolib import fl
from apicheck import cell, rows, h

BOXES = [(0.0, 1.0), (-3.0, 5.0), (-0.001, 0.0015), (1000.0, 1000.5), (-7.25e4, 3.5e5), (2.0, 2.0000305), (0.1, 0.7), (-1e-3, 12.0)]
SPELL = {True: ['LHS', 'lhs', 'Lhs'], False: ['Random', 'random', 'RANDOM', None]}


def strata(x, lb, ub, n):
    lb, ub = Fraction(lb), Fraction(ub)
    k = (Fraction(x) - lb) * n / (ub - lb)
    j = k.__floor__()
    # boundaries of strata are computed in floating point
    near = k - round(k)
    if abs(near) < Fraction(1, 10 ** 9) * n and not 0 <= j < n:
        j = min(max(j, 0), n - 1)
    return j if 0 <= j < n else -1


class Experiment:
    def __init__(self, name, case, seed, kind='run'):
        self.name, self.seed, self.kind = name, seed, kind
        self.n, self.p, self.nf, self.latin, self.fail = case['n'], case['p'], case['nf'], case['latin'], list(case['fail'])
        rng = self.rng = random.Random('%s/%d' % (name, seed))
        bs = [rng.choice(BOXES) for _ in range(self.p)]
        self.lb, self.ub = [b[0] for b in bs], [b[1] for b in bs]

    def lines(self):
        rng = self.rng
        if self.kind == 'fill':
            kind = rng.choice(['lhs', 'lhsv'] if self.latin else ['random', 'randomv'])
            return ['fill %s %d %d %s' % (kind, self.n, self.p, ' '.join(fl(v) for v in self.lb + self.ub))]
        out = ['weights %d %s 1' % (k, ' '.join(fl(rng.uniform(-40, 40)) for _ in range(5))) for k in range(self.nf)]
        if self.fail[0]:
            out.append('fail %d %d' % (self.fail[0] - 1, self.fail[1] - 1))
        if rng.random() < .9 or self.kind == 'run':
            out.append('abort initialized')
        out += ['dim %d' % self.p, 'obj 0 %s %s' % (h('f'), h('f0.csv'))]
        cons = ['con %d %s %s' % (k, h('c%d %s %d' % (k, rng.choice('<>'), rng.randint(-9, 9))), h('f%d.csv' % k)) for k in range(1, self.nf)]
        box = 'box %d %s' % (self.p, ' '.join(fl(v) for v in self.lb + self.ub))
        late = rng.random() < .3
        out += [box] + cons if late else cons + [box]
        sp = rng.choice(SPELL[self.latin])
        free = ['doe %d' % self.n, 'budget %d' % rng.randint(1, 2)] + (['strategy ' + h(sp)] if sp else [])
        rng.shuffle(free)
        return out + free + ['run']

    def run(self, exe, base):
        rng = self.rng
        d = os.path.join(base, self.name)
        os.makedirs(d)
        before = {}
        for k in range(self.nf):       # previous content: more or fewer rows, other numbers of columns, no numbers at all
            c = rng.choice(['none', 'same', 'other', 'text'])
            if c != 'none':
                w = self.p + 1 if c == 'same' else rng.randint(1, 6)
                before['f%d.csv' % k] = 'not a number\n' if c == 'text' else ''.join(','.join(fl(rng.uniform(-5, 5)) for _ in range(w)) + '\n' for _ in range(rng.randint(1, 2 * self.n + 3)))
        for f, t in before.items():
            with open(os.path.join(d, f), 'w') as o:
                o.write(t)
        self.script = self.lines()
        with open(os.path.join(d, 'script'), 'w') as f:
            f.write('\n'.join(self.script) + '\n')
        rc, out, err = vlib.run([exe, 'script', 'trace.json'], d, timeout=300, env=dict(VERIF_SEED=str(self.seed * 1000 + rng.randint(0, 999))))
        ev = vlib.read_trace(os.path.join(d, 'trace.json'))
        vlib.shutil.rmtree(d)
        return self.observe(ev, before, rc)

    def sample(self, x):
        ok = len(x) == self.p
        return dict(x=[egolib.val(v).hex() for v in x], inside=ok and all(Fraction(a) <= Fraction(v) <= Fraction(b) for a, v, b in zip(self.lb, x, self.ub)),
                    strata=[strata(v, a, b, self.n) for v, a, b in zip(x, self.lb, self.ub)] if ok else [])

    def observe(self, ev, before, rc):
        t = dict(name=self.name, kind=self.kind, n=self.n, p=self.p, nf=self.nf, latin=self.latin, fail=self.fail, calls=[], files=[], history=[], reached=False, failed=False, untouched=False)
        if self.kind == 'fill':
            for e in ev:
                if e['e'] == 'filled':
                    t['calls'] = [dict(self.sample([float(v) for v in r]), f=1, fail=False) for r in e['rows']]
            return t
        for e in ev:
            if e['e'] == 'call' and not t['reached']:
                x = [egolib.val(v) for v in e['x']]
                v = egolib.val(e['v'])
                t['calls'].append(dict(self.sample(x), f=e['fn'] + 1, fail=bool(e['fail']), row=['%.12f' % a for a in x + [v]], shown=['%.6f' % (float('%.12f' % a) + 0.0) for a in x + [v]]))
            elif e['e'] == 'initialized':
                t['reached'] = True
                w = self.p + self.nf + 2
                flat = e['history']
                t['history'] = [['%.6f' % (egolib.val(v) + 0.0) for v in flat[i:i + self.p + 1]] for i in range(0, len(flat), w)]
            elif e['e'] == 'did' and e['op'] == 'run':
                t['failed'] = not e['ok'] and not t['reached']
                f = e['files']
                t['files'] = [[[c[0] for c in r] for r in rows(f.get('f%d.csv' % k, ''))] for k in range(self.nf)]
                t['untouched'] = {k: v for k, v in f.items() if k in before} == before
        return t


def decide(c):
    big = (4, 2, 3) if vlib.THOROUGH else (3, 2, 2)
    r = c.model('DoEMC', vlib.cfgtext(spec='Spec', constants=dict(MaxN=big[0] - 1 if vlib.THOROUGH else big[0], MaxP=big[1], MaxF=big[2]), invariants=['DoneComplete', 'FailedStops', 'RefusedNothing', 'FilesPrefix', 'InOrder', 'EmitCases'],
                properties=['Ends'], deadlock=False), 'DoEMC', timeout=3000)
    cases = []
    for l in r.out.splitlines():
        m = re.match(r'<<"CASE", "(.*)">>$', l)
        if m:
            cases.append(json.loads(json.loads('"' + m.group(1) + '"')))
    if len(cases) < 20:
        raise vlib.CheckError('no cases')
    rng = random.Random(vlib.SEED)
    for _ in range(400 if vlib.THOROUGH else 120):
        n, nf = rng.choice([4, 5, 7, 10, 16, 33, 64]), rng.randint(1, 5)
        cases.append(dict(n=n, p=rng.randint(1, 6), nf=nf, latin=rng.random() < .6, fail=[rng.randint(1, nf), rng.randint(1, n)] if rng.random() < .3 else [0, 0]))
    fills = [dict(n=rng.choice([1, 2, 3, 5, 8, 13, 40, 100]), p=rng.randint(1, 8), nf=1, latin=rng.random() < .7, fail=[0, 0]) for _ in range(1000 if vlib.THOROUGH else 150)]
    exe = vlib.harness('api')
    base = os.path.join(c.dir, 'sc')
    os.makedirs(base, exist_ok=True)
    xs = [Experiment('doe%d' % i, x, vlib.SEED) for i, x in enumerate(cases)] + [Experiment('fill%d' % i, x, vlib.SEED, 'fill') for i, x in enumerate(fills)]
    traces = vlib.parallel(lambda x: x.run(exe, base), xs)
    bad = egocheck.batch(c, 'DoETrace', traces, {})
    c.extra['experiments'] = len(cases)
    c.extra['fills'] = len(fills)
    c.extra['evaluations'] = sum(len(t['calls']) for t in traces)
    c.extra['failing evaluations'] = sum(1 for t in traces if t['fail'][0])
    for i in bad[:3]:
        w = os.path.join(c.dir, 'tlc')
        f = os.path.join(w, 'one.json')
        vlib.write_json(f, [traces[i]])
        r = vlib.tlc('DoETrace', vlib.cfgtext(spec='TraceSpec', constants=dict(File=f), deadlock=False, invariants=['Progress']), os.path.join(w, 'one'), workers=1)
        at = max(((int(a), b) for a, b in re.findall(r'<<"AT", \d+, (\d+), "([^"]*)">>', r.out)), default=(0, '?'))
        t = traces[i]
        c.violation('%s: n=%d p=%d functions=%d %s fail=%s: not as specified after evaluation %d of %d (%s)' % (t['name'], t['n'], t['p'], t['nf'], 'lhs' if t['latin'] else 'random', t['fail'], at[0] - 2, len(t['calls']), at[1]),
                    '\n'.join(xs[i].script) + '\n' + json.dumps(t))
    c.sample(dict(script=xs[10].script))


def run():
    vlib.main('P17', decide)
