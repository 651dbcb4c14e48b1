"""P14: the evolutionary optimizer."""
import json, os, random, re
import vlib, egocheck

HUGE = 1.7976931348623157e308
POOLS = [[0.0], [1.5], [-2.25, -2.25, 3.0], [1.0, 2.0, 3.0, 4.0, 5.0], [-1.0, -0.5, 0.0, 0.5, 1.0], [HUGE], [HUGE, -12.5, HUGE, 3.75],
         [1e15, -1e15, 0.25], [1e-9, 2e-9, -3e-9, 0.0], [i / 8 - 20.0 for i in range(320)], [-1e6 - i for i in range(50)],
         [100.0 + i / 1024 for i in range(100)], [7.0] * 9 + [6.0], [5.0] * 40 + [4.0, HUGE], [-0.0, 0.0, 1.0], [1e300, 1e-300, -1e-300]]


class Sequence:
    """a sequence of operations and what the code did"""
    def __init__(self, name, lines):
        self.name, self.lines = name, lines

    def script(self):
        return ['S optimizer ' + self.name] + self.lines


def box(rng, d, bad=False):
    lo = [rng.choice([0.0, -1.0, 1.0, -1e-3, 1 / 3, -1e5, 0.1]) for _ in range(d)]
    up = [a + rng.choice([1.0, 20.0, 1e-3, 1 / 7, 1e6, 0.2]) for a in lo]
    kind = rng.choice([0, 1, 1, 2])
    if bad:
        how = rng.choice(['order', 'equal', 'short'])
        if how == 'short' and kind:
            lo, up = lo[:-1] or lo + [0.0], up[:-1] or up + [1.0]
        else:
            i = 0 if kind == 0 else rng.randrange(d)
            up[i] = lo[i] - (0 if how == 'equal' else 0.5)
    return 'box %d %d %s' % (kind, len(lo), ' '.join(repr(v) for v in lo + up))


BADLINES = ['mut 0', 'mut 1', 'mut -0.5', 'mut 1.5', 'max 0']


def values(rng):
    v = rng.choice(POOLS)
    if rng.random() < .3:
        v = [rng.choice(rng.choice(POOLS)) for _ in range(rng.randint(1, 60))]
    v = list(v)
    rng.shuffle(v)
    return 'values %d %s' % (len(v), ' '.join(repr(x) for x in v))


def start(rng, d=None):
    d = d or rng.randint(1, 4)
    return ['new %d %d' % (rng.random() < .5, d), 'file a.csv'], d


def from_case(rng, case, name):
    """a sequence of the specification"""
    out, d = start(rng)
    c = case['c']
    out += [box(rng, d), 'mut %s' % rng.choice(['0.1', '0.9', '0.5']), values(rng), 'size %d' % c['size'], 'births %d' % c['births'], 'deaths %d' % c['deaths']]
    return Sequence(name, out + case['path'] + ['hist'])


def steps(rng, name):
    """a long sequence on larger populations, with changes of the settings, failing evaluations and damaged files"""
    out, d = start(rng)
    n = rng.choice([1, 2, 3, 5, 10, 20, 30])
    b = rng.choice([1, 2, 3, 7, 15])
    dd = rng.choice([b, b, b, b - 1, b + 1, 0, b // 2])
    setup = [box(rng, d), 'mut %s' % rng.choice(['0.1', '0.01', '0.99', '0.5']), values(rng), 'size %d' % n, 'births %d' % b, 'deaths %d' % dd]
    for i in reversed(range(len(setup))):
        if rng.random() < .02:
            del setup[i]
    if not any(x.startswith('births') for x in setup):
        setup.append('births 1')
    rng.shuffle(setup)
    out += setup
    saved, clean = set(), set()
    cur = 'a.csv'
    for _ in range(rng.randint(4, 16)):
        op = rng.choice('init gen gen gen gen add remove remove save load load reset file damage throw bad opt settings hist values'.split())
        if op == 'file':
            cur = rng.choice(['a.csv', 'b.csv'])
            out.append('file ' + cur)
        elif op == 'save':
            saved.add(cur); clean.add(cur)
            out.append(op)
        elif op == 'damage':
            f = rng.choice(['a.csv', 'b.csv'])
            if f in clean:
                clean.discard(f)
                out.append('damage %s %s' % (f, rng.choice(['delete', 'headless'])))
        elif op == 'throw':
            out += ['throw %d' % rng.randint(1, max(1, b)), rng.choice(['gen', 'add', 'init', 'opt'])]
        elif op == 'bad':
            out.append(rng.choice(BADLINES) if rng.random() < .5 else box(rng, d, True))
        elif op == 'opt':
            out += opt(rng)
        elif op == 'settings':
            b = rng.choice([1, 2, 3, 7])
            out += rng.choice([['births %d' % b], ['deaths %d' % rng.randint(0, b + 1)], ['size %d' % rng.randint(1, 12)], [box(rng, d)] if not saved else []])
            if out[-1].startswith('box'):
                out.append('reset')
        elif op == 'values':
            out += [values(rng), 'init']
        else:
            out.append(op)
    return Sequence(name, out + ['hist'])


def damaged(rng, name):
    """reading of damaged files of complete populations"""
    out, d = start(rng)
    out += [box(rng, d), 'mut 0.2', values(rng), 'size %d' % rng.randint(2, 9), 'births 2', 'deaths 1', 'init', 'gen', 'save', 'damage a.csv ' + rng.choice(['cut', 'extra', 'text', 'empty', 'delete', 'headless'])]
    out += rng.choice([['load', 'gen'], ['reset', 'load', 'gen'], ['warm 1', 'gens 2', 'max 100', 'opt', 'gen']])
    return Sequence(name, out)


def opt(rng):
    return ['gens %d' % rng.choice([1, 1, 2, 3, 5]), 'max %d' % rng.choice([1, 5, 20, 40, 1000]), 'opt']


def runs(rng, name):
    """complete optimizations, also warm ones, one after another"""
    out, d = start(rng)
    big = rng.random() < .15
    n = rng.choice([2, 3, 4, 6, 10, 25, 60]) if not big else rng.choice([100, 200])
    b = rng.choice([1, 2, 4, 9, 20]) if not big else 100
    dd = rng.choice([b, b, b - 1, b + 1, 0, (9 * b) // 10, n + b - 2, n + b, n + b - 1])
    out += [box(rng, d), 'mut %s' % rng.choice(['0.1', '0.5']), values(rng), 'size %d' % n, 'births %d' % b, 'deaths %d' % max(0, dd)]
    g = rng.choice([1, 2, 3, 6]) if not big else 2
    mx = rng.choice([1, n, n + b, n + b + 1, n + g * b - 1, n + g * b, 10 ** 6])
    out += ['gens %d' % g, 'max %d' % mx]
    if rng.random() < .1:
        i = rng.randrange(2, len(out))
        del out[i]
    if rng.random() < .1:
        out.append('display 1')
    if rng.random() < .1:
        out.append('throw %d' % rng.randint(1, n + 2 * b))
    out.append('opt')
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.random()
        if k < .4:
            out += ['save', 'warm 1', 'opt']
        elif k < .6:
            out += ['opt']
        elif k < .8:
            out += ['warm 0', 'opt']
        else:
            out += ['gen', 'opt']
    return Sequence(name, out + ['hist'])


def parse_rows(csv):
    """rows of a population file"""
    ls = csv.splitlines()
    out = []
    for x in ls[1:]:
        c = x.split(',')
        try:
            out.append((int(c[0]), float(c[1]), tuple(float(v) for v in c[5:])))
        except ValueError:
            return None
    return out if ls else None


def unsigned(s):
    return s[1:] if s.startswith('-') and not s.strip('-0.') else s


class Reader:
    """turns what was recorded into events of the specification"""
    def __init__(self, seq):
        self.seq, self.content, self.where, self.cur, self.files, self.file = seq, [], {}, {}, {}, None
        self.first = 1

    def rows(self, csv, first=None):
        """individuals [id, k]; k = 0 if no evaluation gave these genes this value"""
        rs = parse_rows(csv)
        if rs is None:
            return [[0, 0]]
        used, out, later = set(), [None] * len(rs), []
        for j, (i, v, x) in enumerate(rs):
            k = self.cur.get(i)
            if k and self.content[k - 1] == (x, v) and k not in used:
                used.add(k); out[j] = [i, k]
            else:
                later.append(j)
        for j in later:
            i, v, x = rs[j]
            ks = [k for k in self.where.get((x, v), ()) if k not in used]
            new = [k for k in ks if k >= self.first]
            k = (new or ks or [0])[0]
            used.add(k); out[j] = [i, k]
        self.cur = {i: k for i, k in out}
        return out

    def shown(self, r, ev):
        m = re.search(r'fmin = (\S+) fmax = (\S+)\s+fmin ID = (\d+) fmax ID = (\d+)', r['text'])
        n = re.search(r'total (\d+) ind', r['text'])
        ev['fmin'], ev['fmax'] = unsigned(m.group(1)), unsigned(m.group(2))
        ev['idmin'], ev['idmax'] = int(m.group(3)) if len(m.group(3)) < 10 else -1, int(m.group(4)) if len(m.group(4)) < 10 else -1
        ev['size'] = r['size'] if int(n.group(1)) == r['size'] else -1
        ev['sol'], ev['solok'] = [0, 0], False
        s = r['sol']
        if s:
            k = self.cur.get(s['id'], 0)
            ev['sol'] = [s['id'] if s['id'] < 10 ** 9 else -1, k]
            ev['solok'] = bool(k) and s['v'] == s['v2'] and s['same'] and self.content[k - 1] == (tuple(float(v) for v in s['x']), float(s['v']))

    def read(self, records):
        out, steps, inside, thrown = [], [], True, False
        lines = iter(self.seq.lines)
        armed = False
        for r in records:
            if r['e'] == 'eval':
                c = (tuple(float(v) for v in r['x']), float(r['v']))
                self.content.append(c)
                self.where.setdefault(c, []).append(len(self.content))
                inside = inside and r['in']
            elif r['e'] == 'thrown':
                thrown = True
            elif r['e'] == 'snap':
                steps.append(self.rows(r['csv']))
            else:
                line = next(lines).split()
                op, arg = line[0], line[1:]
                if op == 'load' and self.file in self.files:
                    self.cur = dict(self.files[self.file])
                pop = self.rows(r['csv'])
                ev = dict(op=op, ok=r['ok'], first=self.first, count=len(self.content) - self.first + 1, inside=inside, thrown=thrown, pop=pop, steps=steps + [pop],
                          n=0, name='', bad=False, hist=[], why=r.get('why', ''))
                if op in ('size', 'births', 'deaths', 'gens', 'max', 'warm'):
                    ev['n'] = int(arg[0])
                    ev['bad'] = op == 'max' and arg[0] == '0'
                elif op == 'mut':
                    ev['bad'] = not 0 < float(arg[0]) < 1
                elif op == 'box':
                    kind, n = int(arg[0]), int(arg[1])
                    a = [float(v) for v in arg[2:]]
                    lo, up = a[:n], a[n:]
                    if kind == 0:
                        lo, up = lo[:1], up[:1]
                    ev['bad'] = (kind != 0 and n != self.dim) or not all(p < q for p, q in zip(lo, up))
                elif op == 'new':
                    self.dim = int(arg[1])
                elif op in ('file', 'damage'):
                    ev['name'] = arg[0]
                    if op == 'file':
                        self.file = arg[0]
                elif op == 'save' and r['ok']:
                    self.files[self.file] = dict(self.cur)
                elif op == 'hist' and r['ok']:
                    used = set()
                    for i, v, x in parse_rows(r['hist']) or []:
                        k = ([k for k in self.where.get((x, v), ()) if k not in used] or [0])[0]
                        used.add(k); ev['hist'].append(k)
                self.shown(r, ev)
                out.append(ev)
                self.first = len(self.content) + 1
                steps, inside, thrown = [], True, False
        vs = sorted({v for x, v in self.content})
        rank = {v: i + 1 for i, v in enumerate(vs)}
        return dict(name=self.seq.name, val=[rank[v] for x, v in self.content], text=[unsigned('%.6f' % v) for v in vs], ev=out)


def execute(exe, seqs, base, tag):
    d = os.path.join(base, tag)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'script'), 'w') as f:
        for s in seqs:
            f.write('\n'.join(s.script()) + '\n')
    rc, out, err = vlib.run([exe, 'script', 'trace'], d, timeout=200, env=dict(OMP_NUM_THREADS='1'))
    recs = vlib.read_trace(os.path.join(d, 'trace'))
    parts, dead = [], None
    for r in recs:
        if r['e'] == 'start':
            parts.append([])
        else:
            parts[-1].append(r)
    traces = []
    for s, p in zip(seqs, parts):
        t = s.read(p) if isinstance(s, Group) else Reader(s).read(p)
        traces.append(t)
        if len(t['ev']) < len(s.lines) and dead is None:
            dead = (s, len(t['ev']), rc)
    vlib.shutil.rmtree(d)
    return traces, dead


class Group:
    """operations on a population by itself; values are integers"""
    def __init__(self, rng, name):
        self.name, self.lines, self.info = name, [], []
        d = rng.randint(1, 3)
        self.add('new %d' % d)
        ids, nxt = [], 1
        span = rng.choice([0, 1, 2, 5, 1000])
        val = lambda: rng.randint(-span, span)
        for _ in range(rng.randint(3, 25)):
            op = rng.choice('add add add group removeAt removeAt removeId removeId reset minmax update update largest order get repeated'.split())
            if op == 'reset' and rng.random() < .7:
                continue
            k = rng.choice(ids) if ids and rng.random() < .8 else rng.randint(0, 60)
            if op == 'add':
                dd = d if rng.random() < .93 else d + 1
                i = nxt + rng.choice([0, 0, 0, 3]); v = val()
                self.add('add %d %d %d' % (dd, i, v), new=[[i, v]], dimok=dd == d)
                if dd == d:
                    ids.append(i); nxt = i + 1
            elif op == 'group':
                new = [[nxt + j, val()] for j in range(rng.randint(0, 5))]
                rng.shuffle(new)
                nxt += len(new)
                ids += [x[0] for x in new]
                self.add('group %d %s' % (len(new), ' '.join('%d %d' % tuple(x) for x in new)), new=new)
            elif op in ('removeAt',):
                n = rng.randint(0, len(ids))
                self.add('removeAt %d' % n, k=n)
                if n < len(ids):
                    del ids[n]
            elif op in ('removeId', 'order', 'get'):
                self.add('%s %d' % (op, k), k=k)
                if op == 'removeId' and k in ids:
                    ids.remove(k)
            else:
                if op == 'reset':
                    ids = []
                self.add(op)
                if op == 'update':
                    for _ in range(rng.choice([0, 0, 3])):
                        self.add(rng.choice(['die', 'parents']))

    def add(self, line, new=(), k=0, dimok=True):
        self.lines.append(line)
        self.info.append(dict(op=line.split()[0], new=[list(x) for x in new], k=k, dimok=dimok))

    def script(self):
        return ['S population ' + self.name] + self.lines

    def read(self, recs):
        ev = []
        for i, r in zip(self.info, recs):
            m = re.search(r'fmin = (\S+) fmax = (\S+)\s+fmin ID = (\d+) fmax ID = (\d+)', r['text'])
            num = lambda s: int(float(s)) if 'inf' not in s else 0
            ev.append(dict(i, ok=r['ok'], result=r['result'], pop=r['pop'], best=r['best'], worst=r['worst'], fmin=num(m.group(1)), fmax=num(m.group(2)),
                           idmin=int(m.group(3)) % 10 ** 9, idmax=int(m.group(4)) % 10 ** 9))
        return dict(name=self.name, ev=ev)


def validate(c, module, seqs, tag):
    """runs sequences and validates what was recorded"""
    exe = vlib.harness('ea')
    base = os.path.join(c.dir, 'sc')
    n = vlib.NCPU * 2
    parts = [seqs[i::n] for i in range(n)]
    res = vlib.parallel(lambda a: execute(exe, a[1], base, tag + '%d' % a[0]), list(enumerate(parts)))
    allseqs = [s for p, (ts, d) in zip(parts, res) for s in p[:len(ts)]]
    traces = [t for ts, d in res for t in ts]
    for ts, d in res:
        if d:
            c.violation('%s: operation %d (%s) did not return: %s' % (d[0].name, d[1] + 1, d[0].lines[d[1]] if d[1] < len(d[0].lines) else '?', d[2]), '\n'.join(d[0].script()))
    bad = egocheck.batch(c, module, traces, {})
    for i in bad[:3]:
        w = os.path.join(c.dir, 'tlc')
        f = os.path.join(w, 'one.json')
        vlib.write_json(f, [traces[i]])
        r = vlib.tlc(module, vlib.cfgtext(spec='TraceSpec', constants=dict(File=f), deadlock=False, invariants=['Progress']), os.path.join(w, 'one'), workers=1)
        at = max(((int(a), b) for a, b in re.findall(r'<<"AT", \d+, (\d+), "([^"]*)">>', r.out)), default=(0, '?'))
        t, s = traces[i], allseqs[i]
        c.violation('%s: operation %d (%s): %s' % (t['name'], at[0], s.lines[at[0] - 1] if 0 < at[0] <= len(s.lines) else '?', at[1]), '\n'.join(s.script()) + '\n' + json.dumps(t))
    return traces


def decide(c):
    k = dict(MaxSize=3, MaxBirths=2, MaxDeaths=2, Values={1, 2}, Depth=4)
    inv, prop = ['UniqueIds', 'SizeLaw', 'BestEver', 'Emit'], ['Elitist', 'ValuesKept', 'GenerationsAreLegal']
    if vlib.THOROUGH:
        k = dict(MaxSize=4, MaxBirths=3, MaxDeaths=4, Values={1, 2, 3}, Depth=4)
    r = c.model('EAMC', vlib.cfgtext(spec='Spec', constants=k, invariants=inv, properties=prop, deadlock=False), 'EAMC %s' % k, timeout=3000, heap='12g')
    cases = {}
    for l in r.out.splitlines():
        m = re.match(r'<<"CASE", "(.*)">>$', l)
        if m:
            x = json.loads('"' + m.group(1) + '"')
            cases[x] = json.loads(x)
    if len(cases) < 100:
        raise vlib.CheckError('no cases')
    rng = random.Random(vlib.SEED)
    cases = [cases[x] for x in sorted(cases)]
    rng.shuffle(cases)
    f = 10 if vlib.THOROUGH else 1
    seqs = [from_case(rng, x, 'case%d' % i) for i, x in enumerate(cases[:1200 * f])]
    seqs += [steps(rng, 'steps%d' % i) for i in range(900 * f)] + [damaged(rng, 'damaged%d' % i) for i in range(100 * f)] + [runs(rng, 'run%d' % i) for i in range(900 * f)]
    rng.shuffle(seqs)
    traces = validate(c, 'EATrace', seqs, 'p')
    groups = [Group(rng, 'group%d' % i) for i in range(1500 * f)]
    more = validate(c, 'PopulationTrace', groups, 'g')
    c.extra['operations on populations'] = sum(len(t['ev']) for t in more)
    kinds = {}
    for t in traces:
        for e in t['ev']:
            q = e['op'] + (':ok' if e['ok'] else ':rejected')
            kinds[q] = kinds.get(q, 0) + 1
    c.extra['operations'] = kinds
    c.extra['evaluations'] = sum(len(t['val']) for t in traces)
    c.sample(dict(script=seqs[0].script()))


def run():
    vlib.main('P14', decide)
