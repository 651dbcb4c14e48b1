"""P13: sequences of calls of the C++ interface.  P17: designs of experiments."""
import json, math, os, random, re
import vlib, egocheck, egolib, extlib
from egolib import fl

h = extlib.hexs
DIRS = ['work', 'other']


def call(op, **kw):
    return dict(op=op, **kw)


dim = lambda n: call('dim', n=n)
obj = lambda fn=0, name='f', file='f.csv': call('obj', fn=fn, name=name, file=file)
con = lambda fn, expr, file: call('con', fn=fn, expr=list(expr), file=file)
box = lambda lb, ub: call('box', lb=lb, ub=ub)
data = lambda file: call('data', file=file)
doe = lambda n: call('doe', n=n)
budget = lambda n: call('budget', n=n)
name = lambda s: call('name', name=s)
cwd = lambda d: call('cwd', dir=d)
strategy = lambda s: call('strategy', text=list(s))
RUN = call('run')


def bases():
    one = [dim(1), obj(), con(1, 'g > 12.5', 'g.csv'), box([0, 0, 0], [4, 4, 4]), doe(4), con(4, 'b>-2', 'b.csv'), strategy('LHS'), budget(2), RUN, budget(1), box([-4, 2, 0], [0, 6, 1]), RUN]
    two = [name('study'), cwd('work'), strategy('random'), dim(2), obj(2, 'cost', 'c.csv'), box([-8, 2, 0], [8, 3, 1]), con(3, ' a<0', 'a.csv'), doe(5), budget(1), RUN]
    old = [budget(1), data('later.csv'), dim(1), obj(0, 'f', 'old.csv'), con(1, 'g<20', 'oldg.csv'), box([0, 0, 0], [4, 0, 0]), RUN, doe(3), RUN]
    return [one, two, old]


def extra():
    return [dim(0), dim(1), dim(2), dim(3), obj(-1), obj(0, ''), obj(0, 'f', ''), obj(5, 'again', 'again.csv'), obj(1, 'f', 'old.csv'), obj(2, 'f', 'old2.csv'), obj(6, 'h', 'f2.csv'),
            con(-1, 'k<1', 'k.csv'), con(6, '', 'k.csv'), con(6, 'k<1', ''), con(6, 'k', 'k.csv'), con(6, 'k<', 'k.csv'), con(6, '<1', 'k.csv'), con(6, 'k<1<2', 'k.csv'), con(6, 'k<1x', 'k.csv'),
            con(6, 'k =< 1', 'k.csv'), con(6, 'k < 1e1', 'k.csv'), con(7, ' k2>-.5 ', 'k2.csv'), con(5, 'old>3', 'oldg.csv'),
            box([0, 0, 0], [0, 4, 4]), box([4, 4, 4], [0, 0, 0]), box([0, 0, 0], [4, 4, -1]), box([-40, 4, -4], [-36, 8, -2]), box([1, 1, 1], [2, 2, 2]), box([-1, 0, 1], [1, 9, 40]), box([0, 4, 0], [1, 4, 1]),
            data(''), data('f.csv'), data('old.csv'), data('old2.csv'), data('other.csv'),
            doe(0), doe(1), doe(3), doe(6), budget(0), budget(1), budget(3), name(''), name('n'), name('second'),
            cwd(''), cwd('nowhere'), cwd('work'), cwd('other'), cwd('old.csv'),
            strategy(''), strategy('LHS'), strategy('lhS'), strategy('Random'), strategy('sobol'), strategy('LHS '), strategy('lh'), RUN]


def line(c):
    o = c['op']
    if o in ('dim', 'doe', 'budget'):
        return '%s %d' % (o, c['n'])
    if o == 'obj':
        return 'obj %d %s %s' % (c['fn'], h(c['name']), h(c['file']))
    if o == 'con':
        return 'con %d %s %s' % (c['fn'], h(''.join(c['expr'])), h(c['file']))
    if o == 'box':
        return 'box %d ' % len(c['lb']) + ' '.join(repr(q / 4) for q in c['lb'] + c['ub'])
    if o == 'data':
        return 'data ' + h(c['file'])
    if o == 'name':
        return 'name ' + h(c['name'])
    if o == 'cwd':
        return 'cwd ' + h(c['dir'])
    if o == 'strategy':
        return 'strategy ' + h(''.join(c['text']))
    return o


def cell(v):
    return ['%.12f' % v, '%.6f' % v]


def rows(text):
    out = []
    for l in text.split('\n'):
        if l.strip():
            out.append([[x, six(x)] for x in l.split(',')])
    return out


def six(x):
    try:
        return '%.6f' % float(x)
    except ValueError:
        return '?' + x


def initial_files(rng):
    f = {}
    for d in [''] + [x + '/' for x in DIRS]:
        for n, dm, lo in (('old', 1, 0), ('old2', 2, -2)):
            xs = [[round(lo + (i + rng.random()) / 4, 3) for _ in range(dm)] for i in range(4)]
            f[d + n + '.csv'] = ''.join(','.join(fl(v) for v in x + [float(rng.randint(-9, 9))]) + '\n' for x in xs)
            if dm == 1:
                f[d + 'oldg.csv'] = ''.join(','.join(fl(v) for v in x + [float(rng.randint(10, 30))]) + '\n' for x in xs)
    return f


class Calls:
    def __init__(self, name, calls, seed):
        self.name, self.calls, self.seed = name, calls, seed
        self.lines = [line(c) for c in calls]
        self.extra = []

    def run(self, exe, base):
        rng = random.Random('%s/%d' % (self.name, self.seed))
        d = os.path.join(base, self.name)
        os.makedirs(d)
        for x in DIRS:
            os.makedirs(os.path.join(d, x))
        before = initial_files(rng)
        for n, t in before.items():
            with open(os.path.join(d, n), 'w') as f:
                f.write(t)
        with open(os.path.join(d, 'script'), 'w') as f:
            f.write('\n'.join(self.extra + self.lines) + '\n')
        rc, out, err = vlib.run([exe, 'script', 'trace.json'], d, timeout=300, env=dict(VERIF_SEED=str(self.seed * 1000 + rng.randint(0, 999))))
        ev = vlib.read_trace(os.path.join(d, 'trace.json'))
        names = []
        for p in [''] + DIRS:
            f = os.path.join(d, p, 'optimization.log')
            if os.path.exists(f):
                names += re.findall(r'Problem name\s*:\s*(.*\S)', open(f).read())
        vlib.shutil.rmtree(d)
        return self.observe(ev, before, names, rc)

    def observe(self, ev, before, names, rc):
        steps, calls, here = [], [], ''
        parsed = {k: rows(v) for k, v in before.items()}
        done = [e for e in ev if e['e'] == 'did']
        good = [e for e in done if e['op'] == 'run' and e['ok']]
        k = 0
        for e in ev:
            if e['e'] == 'start':
                calls = []
            elif e['e'] == 'call':
                calls.append(e)
            elif e['e'] == 'did':
                s = dict(call=self.calls[len(steps)], ok=e['ok'], here=here)
                if e['op'] == 'run':
                    after = {n: rows(t) for n, t in e['files'].items() if n.endswith('.csv') and not re.search('optimizationHistory|hyper', n)}
                    hist = e['files'].get((e['cwd'] + '/' if e['cwd'] else '') + 'optimizationHistory.csv', '')
                    hl = rows(hist)
                    header = [c[0] for c in hl[0]] if hl else []
                    s['run'] = dict(ok=e['ok'], calls=self.project(calls, parsed), before=parsed, after=after, header=header, history=hl[1:],
                                    chars=[list(x) for x in header[header.index('Objective') + 1:-2]] if 'Objective' in header else [],
                                    problem=names[k] if e['ok'] and len(names) == len(good) else '')
                    if e['ok']:
                        k += 1
                    parsed, here = after, e['cwd']
                steps.append(s)
        if len(steps) != len(self.calls) or rc != 0:      # the program died
            steps.append(dict(call=RUN, ok=False, here=here, run=dict(ok=True, calls=[dict(fn=99, x=[], lo=[], hi=[], v=['', ''], n=0, near=False)], before={}, after={}, header=[], history=[], chars=[], problem='')))
            self.died = dict(rc=rc, at=len(steps) - 1)
        return dict(name=self.name, dirs=DIRS, steps=steps)

    def project(self, calls, files):
        seen = [[float(c[0]) for c in r[:-1]] for f in files.values() for r in f if all(not c[1].startswith('?') for c in r)]
        own, out = {}, []
        for e in calls:
            x = [egolib.val(v) for v in e['x']]
            near = any(len(y) == len(x) and max(abs(a - b) for a, b in zip(x, y)) < 2e-4 for y in seen + own.get(e['fn'], []))
            own.setdefault(e['fn'], []).append(x)
            big = lambda f, v: max(-10 ** 8, min(10 ** 8, f(v * 10000)))
            out.append(dict(fn=e['fn'], x=[cell(v) for v in x], lo=[big(math.floor, v) for v in x], hi=[big(math.ceil, v) for v in x], v=cell(egolib.val(e['v'])), n=int(egolib.val(e['v'])), near=near))
        return out


def sequences(c):
    w = os.path.join(c.dir, 'tlc')
    os.makedirs(w, exist_ok=True)
    f = os.path.join(w, 'calls.json')
    vlib.write_json(f, dict(bases=bases(), calls=extra(), dirs=DIRS))
    every, pair = (1, 300) if vlib.THOROUGH else (10, 6000)
    r = c.model('ApiMC', vlib.cfgtext(spec='Spec', constants=dict(File=f, MaxDev=2, Every=every, EveryPair=pair, Seed=vlib.SEED),
                invariants=['BasesComplete', 'LastWins', 'Monotone', 'Accumulate', 'Commute', 'EmitCalls'], deadlock=False), 'ApiMC call sequences with up to two deviations', timeout=3000)
    out = []
    for l in r.out.splitlines():
        m = re.match(r'<<"CALLS", "(.*)">>$', l)
        if m:
            out.append(json.loads(json.loads('"' + m.group(1) + '"')))
    if len(out) < 50:
        raise vlib.CheckError('no call sequences')
    return out


def decide(c):
    seqs = sequences(c)
    exe = vlib.harness('api')
    base = os.path.join(c.dir, 'sc')
    os.makedirs(base, exist_ok=True)
    uniq = {json.dumps(x['calls']): x['calls'] for x in seqs}
    cases = [Calls('calls%d' % i, x, vlib.SEED) for i, x in enumerate(uniq.values())]
    traces = vlib.parallel(lambda x: x.run(exe, base), cases)
    bad = egocheck.batch(c, 'ApiTrace', traces, {})
    c.extra['sequences'] = len(traces)
    c.extra['runs'] = sum(1 for t in traces for s in t['steps'] if s['call']['op'] == 'run')
    c.extra['runs performed'] = sum(1 for t in traces for s in t['steps'] if s['call']['op'] == 'run' and s['ok'])
    for i in bad[:3]:
        report(c, 'ApiTrace', traces[i], cases[i])
    c.sample(dict(calls=cases[0].lines))


def report(c, module, t, case):
    w = os.path.join(c.dir, 'tlc')
    f = os.path.join(w, 'one.json')
    vlib.write_json(f, [t])
    r = vlib.tlc(module, vlib.cfgtext(spec='TraceSpec', constants=dict(File=f), deadlock=False, invariants=['Progress']), os.path.join(w, 'one'), workers=1)
    at = max(((int(a), b) for a, b in re.findall(r'<<"AT", \d+, (\d+), "([^"]*)">>', r.out)), default=(0, '?'))
    c.violation('%s: call %d (%s): %s is not as specified%s' % (t['name'], at[0], case.lines[at[0] - 1] if 0 < at[0] <= len(case.lines) else 'end', at[1], ' (the program died: %s)' % case.died if hasattr(case, 'died') else ''),
                '\n'.join(case.extra + case.lines) + '\n' + json.dumps(t))


def run():
    vlib.main('P13', decide)
