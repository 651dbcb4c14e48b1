"""P16: life cycle of sample data."""
import json, os, random, re
import vlib, egocheck

L = 3840
WIDTHS = [4, 8, 16, 32, 64]
SCALES = [1.0, 1.0, 0.125, 1 / 7, 1e-2, 1.1e-4, 37.3, 12345.678]
LOST = -99999999


def h(t):
    return 'x' + t.encode().hex() + 'x'


def hexs(t):
    return '"' + t.encode().hex() + '"'


class Seq:
    """A sequence of operations, in integer units; S: size of eight units of a parameter."""

    def __init__(self, name, model, ops, S=1.0, dim=2):
        self.dim = dim
        self.name, self.model, self.ops, self.S = name, model, ops, S
        self.tol = int(1e-4 * 8 / S)

    def xv(self, u):
        return u * self.S / 8

    def row(self, r, dim):
        return ['%.17g' % (self.xv(u) if j < dim else u / 8) for j, u in enumerate(r)]

    def file(self, o):
        f = o['file']
        if 'text' in f:
            return 'missing' if f['text'] is None else 'raw ' + hexs(f['text'])
        rows = f['rows']
        return 'table %d %d %s' % (len(rows), len(rows[0]), ' '.join(v for r in rows for v in self.row(r, o['d'])))

    def lines(self, k):
        out = ['T %d %d' % (k, self.model)]
        for o in self.ops:
            op = o['op']
            if op in ('dim',):
                out.append('dim %d' % o['n'])
            elif op == 'ratio':
                out.append('ratio %.17g' % (o['n'] / 8))
            elif op in ('box', 'count'):
                b = o['box']
                e = o.get('eps', 0)
                out.append('%s %d %s' % (op, len(b['lb']), ' '.join('%.17g' % v for v in [self.xv(u - e) for u in b['lb']] + [self.xv(u + e) for u in b['ub']])))
            elif op in ('file', 'readtest') or (op == 'read' and not self.model):
                out.append('%s %s' % (op, self.file(o)))
            elif op == 'sety':
                out.append('sety %d %s' % (len(o['y']), ' '.join('%.17g' % (u / 8) for u in o['y'])))
            elif op == 'add':
                out.append('add %d %s' % (len(o['row']), ' '.join(self.row(o['row'], o['d']))))
            elif op == 'tryout':
                out.append('tryout ' + o['mode'])
            else:
                out.append(op)
        return out

    def tryout(self, r, o):
        """every row of the results belongs to the test sample of the same row"""
        d, res, mode = r['obs']['dim'], r['results'], o['mode']
        xt, tval = r['obs']['xtraw'], r['obs']['tval']
        close = lambda a, b: abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
        want = []
        for x, e, v in zip(xt, r['estimates'], r['variances']):
            want.append(x[:d] + [e] + ([x[d], (x[d] - e) ** 2] if tval else []) + ([v] if mode == 'with_variances' else []))
        ok = len(res) == len(want) == len(xt) and all(len(a) == len(b) and all(close(p, q) for p, q in zip(a, b)) for a, b in zip(res, want))
        if tval and want:
            ok = ok and close(r['mse'], sum(w[d + 2] for w in want) / len(want))
        lines = r['saved'].split('\n')
        head = ['x%d' % (j + 1) for j in range(d)] + ['Estimated value'] + (['True value', 'Squared Error'] if tval else []) + (['Variance'] if mode == 'with_variances' else [])
        if [c.strip() for c in lines[0].split(',')] != head:
            return False
        rows = [[float(c) for c in l.split(',')] for l in lines[1:] if l]
        return ok and len(rows) == len(want) and all(len(a) == len(b) and all(abs(p - q) <= 1e-6 * max(1, abs(q)) for p, q in zip(a, b)) for a, b in zip(rows, want))

    # ------------------------------------------------------------ projection
    def unit(self, v, u):
        if isinstance(v, str):
            return LOST
        q = v / u
        if abs(q) > 1e9:
            return LOST
        r = round(q)
        return r if abs(q - r) < 1e-5 else LOST

    def obs(self, o):
        S, X, Y = self.S, self.S / 8, 1 / 8
        d = o['dim']
        r = {k: o[k] for k in ('dim', 'read', 'norm', 'n', 'nv', 'tread', 'tval', 'nt', 'rows')}
        xu = 1 / L if o['norm'] else X
        m = lambda rows, u: [[self.unit(v, u) for v in q] for q in rows]
        full = lambda rows: [[self.unit(v, X if j < d else Y) for j, v in enumerate(q)] for q in rows]
        r['box'] = m(o['box'], X)
        if o['read']:
            r['raw'] = full(o['raw'])
            r['X'], r['XV'], r['xraw'] = m(o['X'], xu), m(o['XV'], xu), m(o['xraw'], X)
            r['y'], r['yV'] = [self.unit(v, Y) for v in o['y']], [self.unit(v, Y) for v in o['yV']]
            gu = S / 64 if o['norm'] else Y
            r['grad'] = m(o['grad'], gu)
            r['dirv'] = [self.unit(v, gu) for v in o['dirv']]
            r['dirs'] = m(o['dirs'], Y)
        if o['tread']:
            r['xtraw'] = full(o['xtraw'])
            r['yT'] = [self.unit(v, Y) for v in o['yT']]
            # raw or normalized, judged by the specification: units of 1/L where that is what they are
            raw = [q[:d] for q in o['xtraw']]
            r['XT'] = m(o['XT'], X if o['XT'] == raw and not self.tnorm else 1 / L)
        if 'mread' in o:
            r.update({k: o[k] for k in ('mread', 'mnorm', 'init', 'mn', 'same')})
            rows = []
            for line in o['file'].split('\n'):
                if line:
                    try:
                        rows.append([self.unit(float(c), X if j < (d or self.dim) else Y) for j, c in enumerate(line.split(','))])
                    except ValueError:
                        rows.append([LOST])
            r['file'] = rows
        return r

    def witness(self, o, rows):
        """which rows of the file are held back"""
        d, v, b = o['dim'], [], o['box']
        for i in range(len(o['XV'])):
            for k in range(len(rows)):
                x = rows[k][:d]
                if o['norm'] and len(b) == 2 and len(b[0]) == d:
                    x = [(u - p) * L // ((q - p) * d) for u, p, q in zip(x, *b)]
                if k + 1 not in v and x == o['XV'][i] and i < len(o['yV']) and len(rows[k]) > d and rows[k][d] == o['yV'][i]:
                    v.append(k + 1)
                    break
        return v

    def project(self, recs):
        ev, cur, self.tnorm = [], None, False
        for o, r in zip(self.ops, recs + [dict(r='none')] * (len(self.ops) - len(recs))):
            if r['r'] == 'none':
                break
            e = {k: v for k, v in o.items() if k in ('op', 'n', 'box', 'y', 'row')}
            if 'file' in o:
                f = o['file']
                e['file'] = dict(ok='rows' in f, rows=f.get('rows', []))
            e['ok'] = r['r'] == 'ok'
            e['aborted'] = r['r'] in ('abort', 'died')
            if r['r'] == 'died':
                e['ok'], e['aborted'], e['obs'] = True, False, {}      # never as specified
                e['op'], e['died'] = 'dim', True
                e['n'] = LOST
                ev.append(e)
                break
            if o['op'] == 'file':
                cur = e['file']['rows']
            if not e['aborted']:
                if o['op'] == 'normtest' and e['ok']:
                    self.tnorm = True
                if o['op'] == 'readtest' and e['ok']:
                    self.tnorm = False
                e['obs'] = self.obs(r['obs'])
                if self.model:
                    cur = e['obs']['file']
                rows = cur if self.model else e.get('file', {}).get('rows', [])
                e['valid'] = self.witness(e['obs'], rows or []) if e['obs']['read'] else []
            else:
                e['valid'] = []
            if 'count' in r:
                e['count'] = r['count']
            if 'results' in r:
                e['agree'] = self.tryout(r, o)
            elif 'error' in r:
                raw = {tuple(q[:r['obs']['dim']]): q[r['obs']['dim']] for q in r['obs']['raw']}
                est = r['estimates']
                want = sum((a - raw.get(tuple(x), 1e300)) ** 2 for a, x in zip(est, r['obs']['xraw'])) / max(1, len(est))
                e['agree'] = len(est) == len(r['obs']['xraw']) and abs(want - r['error']) <= 1e-9 * max(1, abs(want))
            elif o['op'] in ('insample', 'tryout'):
                e['agree'] = False
            ev.append(e)
            if e['aborted']:
                break
        return dict(name=self.name, model=self.model, tol=self.tol, ev=ev)


# ---------------------------------------------------------------- sequences

def box(rng, d):
    lb = [rng.randint(-40, 40) for _ in range(d)]
    return dict(lb=lb, ub=[a + rng.choice(WIDTHS) for a in lb])


def table(rng, n, d, kind, bx=None, distinct=False):
    w = dict(plain=d + 1, grad=2 * d + 1, dir=2 * d + 2, x=d, odd=d + 2, long=2 * d + 2 if d > 1 else 2, short=2 * d if d > 1 else 3)[kind]
    rows, seen = [], set()
    while len(rows) < n:
        x = [rng.randint(bx['lb'][j], bx['ub'][j]) if bx and len(bx['lb']) == d and rng.random() < .8 else rng.randint(-50, 50) for j in range(d)]
        if distinct and tuple(x) in seen:
            x[0] += rng.randint(-400, 400)
            if tuple(x) in seen:
                continue
        seen.add(tuple(x))
        rows.append((x + [rng.randint(-900, 900) for _ in range(w)])[:w])
    if not distinct and n > 1 and rng.random() < .2:
        rows[rng.randrange(n)] = list(rows[rng.randrange(n)])
    return dict(rows=rows)


def broken(rng, d):
    return dict(text=rng.choice([None, '', '1,2\n3\n' if d != 0 else '', 'a,b,c\n', '\n\n', ','.join(['0.5'] * (d + 1)) + '\n' + ','.join(['0.5'] * d) + '\n',
                                 ','.join(['1'] * (d + 1)) + '\n' + ','.join(['2'] * d + ['2z']) + '\n']))


def data_sequence(rng, name):
    S = rng.choice(SCALES)
    d = rng.choice([1, 2, 2, 3, 4, 5])
    kind = rng.choice(['plain', 'plain', 'plain', 'grad', 'dir'])
    ops, read, bx = [], False, None
    if kind != 'plain' and rng.random() < .9:
        ops.append(dict(op=kind))
    if rng.random() < .5:
        ops.append(dict(op='dim', n=d))
    for _ in range(rng.randint(5, 14)):
        k = rng.choice(['read'] * 4 + ['box'] * 3 + ['normalize'] * 4 + ['revert', 'revert', 'ratio', 'ratio', 'sety', 'readtest', 'readtest', 'normtest', 'normtest', 'bad', 'other', 'badtest', 'misfit', 'flag'])
        n = rng.randint(1, 9)
        if k == 'read':
            ops.append(dict(op='read', file=table(rng, n, d, kind, bx), d=d))
            read = True
        elif k == 'other':
            ops.append(dict(op='read', file=table(rng, n, d, rng.choice(['x', 'odd', 'long', 'short', 'grad', 'dir', 'plain'])), d=d, k='other'))
        elif k == 'bad':
            ops.append(dict(op='read', file=broken(rng, d), d=d))
        elif k == 'box':
            bx = box(rng, d)
            ops.append(dict(op='box', box=bx))
        elif k == 'misfit' and rng.random() < .5:
            bx = box(rng, d + rng.choice([-1, 1]) or 2)
            ops.append(dict(op='box', box=bx))
        elif k == 'ratio':
            ops.append(dict(op='ratio', n=rng.choice([0, 1, 2, 3, 4, 4, 6, 8, -1, 9])))
        elif k == 'sety':
            ops.append(dict(op='sety', y=[rng.randint(-99, 99) for _ in range(n)]))
        elif k == 'readtest':
            ops.append(dict(op='readtest', file=table(rng, n, d, rng.choice(['plain', 'plain', 'x', 'odd'])), d=d))
        elif k == 'badtest':
            ops.append(dict(op='readtest', file=broken(rng, d), d=d))
        elif k == 'flag' and rng.random() < .2:
            ops.append(dict(op=rng.choice(['grad', 'dir'])))
        elif k in ('normalize', 'revert', 'normtest'):
            ops.append(dict(op=k))
    if any(o['op'] == 'ratio' for o in ops):       # all samples can be told from each other
        for o in ops:
            rows = o.get('file', {}).get('rows', [])
            ys = set()
            for r in rows:
                while len(r) > d and r[d] in ys:
                    r[d] = rng.randint(-900, 900)
                ys.add(r[d] if len(r) > d else 0)
    if any(o.get('k') for o in ops) or [o for o in ops if o['op'] in ('grad', 'dir')] != [dict(op=kind)] * (kind != 'plain'):
        S = 1.0           # the file may be taken to have another number of parameters
    return Seq(name, False, ops, S)


def model_sequence(rng, name):
    S = rng.choice(SCALES)
    d = rng.choice([1, 2, 2, 3, 4])
    bx = box(rng, d)
    n = rng.randint(2, 8)
    tab = table(rng, n, d, 'plain', bx, distinct=True)
    pre = [dict(op='dim', n=d), dict(op='name'), dict(op='file', file=tab, d=d)]
    if rng.random() < .3:
        pre.insert(1, dict(op='linear'))
    validate = rng.random() < .4
    if validate:
        pre.append(dict(op='ratio', n=rng.choice([2, 3, 4, 4])))
    if rng.random() < .8:
        pre.append(dict(op='box', box=bx))
    if rng.random() < .25:
        del pre[rng.randrange(len(pre))]
    if pre[0]['op'] != 'dim' and pre[0]['op'] == 'linear':
        pre = pre[1:]
    ops = pre
    good = True
    xs = {tuple(r[:d]) for r in tab['rows']}
    steps = ['read', 'normalize', 'init', 'add', 'add'] if rng.random() < .6 else []
    for k in steps + [rng.choice(['read', 'normalize', 'init', 'update', 'update', 'add', 'add', 'add', 'again', 'close', 'size', 'file', 'badfile', 'count', 'insample', 'insample', 'train', 'readtest', 'normtest', 'tryout', 'tested', 'box', 'misfit']) for _ in range(rng.randint(3, 9))]:
        if not good and k not in ('read', 'update', 'file', 'count', 'insample', 'readtest', 'normtest', 'tryout', 'tested'):
            continue
        if k in ('read', 'normalize', 'init', 'update', 'insample', 'normtest'):
            ops.append(dict(op=k))
        elif k in ('add', 'again', 'close', 'size'):
            x = [rng.randint(a, b) for a, b in zip(bx['lb'], bx['ub'])]
            old = [o['row'] for o in ops if o['op'] == 'add' and len(o['row']) == d + 1] + tab['rows']
            r = x + [rng.randint(-900, 900)]
            if k != 'add':
                r = list(rng.choice(old))
                if k == 'close':
                    j = rng.randrange(d)
                    r[j] += rng.choice([1, -1, 2, 7, 8])
                if k == 'size':
                    r = r[:-1] if rng.random() < .5 else r + [3]
            if len(r) == d + 1 and (k == 'add' or k == 'close') and tuple(r[:d]) in xs and S > 2e-4:
                continue
            if S < 2e-4 and k == 'add' and any(all(abs(a - b) <= 8 for a, b in zip(q, r)) for q in xs):
                continue
            if len(r) == d + 1:
                xs.add(tuple(r[:d]))
            ops.append(dict(op='add', row=r, d=d))
        elif k == 'file':
            tab = table(rng, rng.randint(2, 8), d, 'plain', bx, distinct=True)
            xs = {tuple(r[:d]) for r in tab['rows']}
            ops.append(dict(op='file', file=tab, d=d))
            ops.append(dict(op='read'))
            good = True
        elif k == 'badfile':
            ops.append(dict(op='file', file=broken(rng, d), d=d))
            ops.append(dict(op=rng.choice(['read', 'update'])))
            good = False
        elif k == 'count':
            b = box(rng, d)
            ops.append(dict(op='count', box=b, eps=0.5))
        elif k in ('tryout', 'tested'):
            if k == 'tested':
                ops.append(dict(op='readtest', file=table(rng, rng.randint(1, 6), d, rng.choice(['plain', 'x']), bx), d=d))
                ops.append(dict(op='normtest'))
            ops.append(dict(op='tryout', mode=rng.choice(['default', 'with_variances'])))
        elif k == 'train':
            ops.append(dict(op='train'))
        elif k == 'readtest':
            ops.append(dict(op='readtest', file=table(rng, rng.randint(1, 6), d, rng.choice(['plain', 'x', 'odd'])), d=d))
        elif k == 'box':
            bx = box(rng, d)
            ops.append(dict(op='box', box=bx))
        elif k == 'misfit':
            ops.append(dict(op='box', box=box(rng, d + 1)))
    return Seq(name, True, ops, S, d)


def generated(name, model, ops):
    """a sequence written by the specification"""
    out = []
    for o in ops:
        o = {k: v for k, v in o.items() if k != 'valid'}
        if 'file' in o:
            o['d'] = 2 if len(o['file']['rows'] and o['file']['rows'][0]) != 2 and o['file']['rows'] != [[1, 30, 5], [0, 31, 6]] else 1
            o['file'] = dict(rows=o['file']['rows']) if o['file']['ok'] else dict(text='a,b\n')
        if 'row' in o:
            o['d'] = 2
        out.append(o)
    return Seq(name, model, out)


def usable(ops):
    """linear regression is switched on before the bounds are given"""
    names = [o['op'] for o in ops]
    return not ('linear' in names and 'box' in names and names.index('box') < names.index('linear'))


def decide(c):
    cases = []
    for model, depth in ((False, 4 if vlib.THOROUGH else 3), (True, 4 if vlib.THOROUGH else 3)):
        for start in ('new', 'prepared'):
            dep = depth
            r = c.model('DataMC', vlib.cfgtext(spec='Spec', constants=dict(L=L, Depth=dep, Modelled=model, Start=start), invariants=['Partition', 'SameIndex', 'UnitBox', 'ModelConsistent', 'Emit'],
                        properties=['RejectedChangesNothing', 'NothingLost'], deadlock=False), 'DataMC %s %s depth %d' % ('model' if model else 'data', start, dep), timeout=3000)
            got = set()
            for l in r.out.splitlines():
                m = re.match(r'<<"CASE", "(.*)">>$', l)
                if m:
                    got.add(json.loads('"' + m.group(1) + '"'))
            if len(got) < 100:
                raise vlib.CheckError('no sequences')
            cases += [(model, json.loads(x)) for x in sorted(got)]
    rng = random.Random(vlib.SEED)
    cases = [x for x in cases if usable(x[1])]
    if len(cases) > (20000 if vlib.THOROUGH else 3000):
        cases = rng.sample(cases, 20000 if vlib.THOROUGH else 3000)
    seqs = [generated('gen%d' % i, m, ops) for i, (m, ops) in enumerate(cases)]
    seqs += [data_sequence(rng, 'data%d' % i) for i in range(6000 if vlib.THOROUGH else 1000)]
    seqs += [model_sequence(rng, 'model%d' % i) for i in range(6000 if vlib.THOROUGH else 1000)]
    exe = vlib.harness('data')
    traces = execute(c, exe, seqs)
    bad = egocheck.batch(c, 'DataTrace', traces, dict(L=L))
    c.extra['sequences'] = len(seqs)
    c.extra['operations'] = sum(len(t['ev']) for t in traces)
    c.extra['rejected operations'] = sum(1 for t in traces for e in t['ev'] if not e['ok'])
    for i in bad[:3]:
        w = os.path.join(c.dir, 'tlc')
        f = os.path.join(w, 'one.json')
        vlib.write_json(f, [traces[i]])
        r = vlib.tlc('DataTrace', vlib.cfgtext(spec='TraceSpec', constants=dict(File=f, L=L), deadlock=False, invariants=['Progress']), os.path.join(w, 'one'), workers=1)
        at = max(((int(a), b) for a, b in re.findall(r'<<"AT", \d+, (\d+), "([^"]*)">>', r.out)), default=(0, '?'))
        t = traces[i]
        c.violation('%s: %s: not as specified at operation %d (%s)' % (t['name'], ' '.join(o['op'] for o in seqs[i].ops), at[0], at[1]), '\n'.join(seqs[i].lines(0)) + '\n' + json.dumps(t))
    c.sample(dict(script=seqs[-1].lines(0)))


def execute(c, exe, seqs):
    shards = vlib.NCPU
    parts = [seqs[i::shards] for i in range(shards)]

    def one(k):
        d = os.path.join(c.dir, 'part%d' % k)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'script'), 'w') as f:
            for i, q in enumerate(parts[k]):
                f.write('\n'.join(q.lines(i)) + '\n')
        rc, out, err = vlib.run([exe, 'script', 'trace.json'], d, timeout=800)
        if rc != 0:
            raise vlib.CheckError('harness: %s %s' % (rc, err[-500:]))
        recs, cur = [], None
        for e in vlib.read_trace(os.path.join(d, 'trace.json')):
            if 'id' in e:
                cur = []
                recs.append(cur)
            else:
                cur.append(e)
        if len(recs) != len(parts[k]):
            raise vlib.CheckError('harness: sequences are missing')
        return [q.project(r) for q, r in zip(parts[k], recs)]
    res = vlib.parallel(one, range(shards))
    out = [None] * len(seqs)
    for k in range(shards):
        out[k::shards] = res[k]
    return out


def run():
    vlib.main('P16', decide)
