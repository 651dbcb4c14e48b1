"""P20: bookkeeping operations on matrices and vectors."""
import json, os, random, re
import vlib, egocheck

EMPTY = dict(nr=0, nc=0, d=[])


def op(name, a=(), v=(), b=None, f=()):
    return dict(op=name, a=list(a), v=list(v), b=b or EMPTY, f=[[list(c) for c in l] for l in f])


def line(o):
    b = o['b']
    s = [o['op'], len(o['a'])] + o['a'] + [len(o['v'])] + o['v'] + [b['nr'], b['nc']] + [x for r in b['d'] for x in r] + [len(o.get('f', []))]
    for l in o.get('f', []):
        s.append(len(l))
        s += ['x' + ''.join('%02x' % ord(ch) for ch in c) + '.' for c in l]
    return ' '.join(map(str, s))


def initline(kind, init):
    return 'I ' + line(op('init', b=init) if kind == 'matrix' else op('init', v=init))


def execute(exe, traces, work, tag):
    """runs the operations of the traces on the code and fills in what it did"""
    os.makedirs(work, exist_ok=True)
    script = os.path.join(work, tag + '.txt')
    with open(script, 'w') as f:
        for t in traces:
            f.write('T %s\n' % t['kind'])
            f.write(initline(t['kind'], t['init']) + '\n')
            for i, o in enumerate(t['ev']):
                if t['fixed'] and i:
                    f.write(initline(t['kind'], t['init']) + '\n')
                f.write('O ' + line(o) + '\n')
    d = os.path.join(work, tag)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(work, tag + '.out')
    rc, so, se = vlib.run([exe, script, out], d, timeout=300)
    ev = vlib.read_trace(out)
    it = iter(ev)
    dead = None
    for t in traces:
        n = next(it, None)
        for i, o in enumerate(t['ev']):
            r = next(it, None)
            if r is None:
                if dead is None:
                    dead = (t, i, rc, se)
                t['ev'] = t['ev'][:i]
                break
            o.update(r)
    return dead


def minor(rng, n):
    return [rng.choice([0, 1, 2, 8, -8, 12, 20, 4, -3, 16]) for _ in range(n)]


GOOD = ['1', '-2', '+3', '0.5', '1.125', '.25', '2.', '1e1', '25e-2', '1.5E+1', ' 4', '-0.875', '00.5', '7 ', '3\r']
BAD = ['', ' ', 'x', '1x', '1 2', '1.2.3', '--1', 'e5', '1e', '2;3', '1e+', '.', '0.5f']


def matrix_ops(rng, nr, nc):
    """one random operation that makes sense for the (guessed) shape"""
    k = rng.random()
    pick = lambda n: rng.choice([n] * 6 + [n + 1, max(1, n - 1)])
    if nr == 0 or nc == 0:
        nr = nc = 0
    c = pick(nc) if nc else rng.randint(1, 4)
    r = pick(nr) if nr else rng.randint(1, 4)
    if k < .22 or nr == 0 and k < .6:
        return op('addRow', [rng.choice([-1, -1, 0, nr // 2, nr, nr + 1, -2])], minor(rng, c))
    if k < .3:
        return op('addColumn', [rng.choice([-1, 0, nc // 2, nc, nc + 1, -2])], minor(rng, r))
    name = rng.choice('deleteRow deleteRows setRow setCol getRow getCol submat concatRows concatCols resize transpose findRow hasRow fill copy move shuffle shuffle csv csv read read reset'.split())
    if name == 'deleteRow':
        return op(name, [rng.choice([-1, 0, nr // 2, nr - 1, nr, -2])])
    if name == 'deleteRows':
        return op(name, v=[rng.randint(0, max(0, nr - 1)) for _ in range(rng.randint(0, 3))] + rng.choice([[], [], [], [nr], [-1]]))
    if name == 'setRow':
        return op(name, [rng.choice([0, nr // 2, max(0, nr - 1), nr])], minor(rng, c))
    if name == 'setCol':
        return op(name, [rng.choice([0, nc // 2, max(0, nc - 1), nc])], minor(rng, r))
    if name in ('getRow', 'getCol'):
        n = nr if name == 'getRow' else nc
        return op(name, [rng.choice([-2, -1, 0, n // 2, n - 1 if n else 0, n])])
    if name == 'submat':
        a, b = sorted([rng.randint(0, nr), rng.randint(0, nr)]); x, y = sorted([rng.randint(0, nc), rng.randint(0, nc)])
        return op(name, [max(0, a), b, x, y] if rng.random() < .9 else [b + 1, a, y, x])
    if name in ('concatRows', 'concatCols'):
        bn, bc = (rng.randint(1, 3), c) if name == 'concatRows' else (r, rng.randint(1, 3))
        return op(name, b=EMPTY if rng.random() < .15 else dict(nr=bn, nc=bc, d=[minor(rng, bc) for _ in range(bn)]))
    if name == 'resize':
        return op(name, [rng.randint(1, 5), rng.randint(1, 4)])
    if name in ('findRow', 'hasRow'):
        return op(name, [rng.choice([0, 0, 1, 4])], minor(rng, c))
    if name == 'fill':
        return op(name, [rng.randint(-8, 16)])
    if name == 'csv':
        return op(name, [rng.choice([0, 1, 2, 3, 4, 6, 9, 12]), rng.choice([0, 0, 1, 1, 2]), 0])
    if name == 'read':
        rows, cols = rng.randint(1, 4), rng.randint(1, 4)
        f = [[rng.choice(GOOD) for _ in range(cols)] for _ in range(rows)]
        z = rng.random()
        if z < .2:
            f[rng.randrange(rows)][rng.randrange(cols)] = rng.choice(BAD[1:])
        elif z < .3 and cols > 1:
            f[rng.randrange(rows)].pop()
        elif z < .4:
            f[rng.randrange(rows)].append(rng.choice(GOOD))
        elif z < .45:
            f = []
        if rows == 1 and cols > 1 and f:
            f.append(list(f[0]))
        return op(name, f=f)
    return op(name)


def vector_op(rng, n):
    name = rng.choice('append append overwrite push resize head tail set get swap std copy isSorted between equal less sum min max sort sort csv appendRow appendRow'.split())
    if n > 12:
        return op('resize', [rng.randint(0, 5)] + minor(rng, 1))
    w = minor(rng, rng.choice([n, n, n, n + 1, max(0, n - 1), 0]))
    if name == 'append':
        return op(name, [rng.choice([-1, -1, 0, n // 2, n, n + 1, -2])], w)
    if name == 'overwrite':
        return op(name, [rng.choice([0, n // 2, max(0, n - 1), n, -1])], w)
    if name == 'push':
        return op(name, minor(rng, 1))
    if name == 'resize':
        return op(name, [rng.randint(0, 7)] + minor(rng, 1))
    if name in ('head', 'tail'):
        return op(name, [rng.choice([0, 1, n // 2, n, n + 1])])
    if name in ('set', 'get'):
        return op(name, [rng.choice([0, n // 2, max(0, n - 1), n])] + minor(rng, 1))
    if name in ('equal',):
        return op(name, [rng.choice([0, 1, 8])], w)
    if name == 'sort':
        return op(name, [rng.randint(0, 1)])
    if name == 'appendRow':
        k = rng.choice([n, n, n, n + 1, 0]); rows = rng.randint(1, 3) if k else 0
        return op(name, [rng.choice([3, 6, 12])], b=dict(nr=rows, nc=k if rows else 0, d=[minor(rng, k) for _ in range(rows)]))
    return op(name, v=w)


def guess(o, nr, nc):
    """shape after the operation if it is accepted (only to choose sensible next operations)"""
    n = o['op']
    if n == 'addRow' and o['a'][0] in range(-1, nr + 1) and (nr == 0 or len(o['v']) == nc):
        return nr + 1, len(o['v'])
    if n == 'addColumn' and o['a'][0] in range(-1, nc + 1) and (nc == 0 or len(o['v']) == nr):
        return len(o['v']), nc + 1
    if n == 'deleteRow' and nr and -1 <= o['a'][0] < nr:
        return (nr - 1, nc) if nr > 1 else (0, 0)
    if n == 'resize':
        return o['a'][0], o['a'][1]
    if n == 'reset':
        return 0, 0
    return nr, nc


def generate(seed, thorough):
    rng = random.Random('P20/%d' % seed)
    out = []
    for i in range(2000 if thorough else 250):
        nr, nc = rng.randint(0, 5), rng.randint(1, 4)
        init = dict(nr=nr, nc=nc, d=[minor(rng, nc) for _ in range(nr)]) if nr else EMPTY
        nr, nc = (nr, nc) if nr else (0, 0)
        ev = []
        for _ in range(30):
            o = matrix_ops(rng, nr, nc)
            nr, nc = guess(o, nr, nc)
            ev.append(o)
        out.append(dict(name='matrix %d' % i, kind='matrix', fixed=False, init=init, ev=ev))
    for i in range(1500 if thorough else 200):
        init = minor(rng, rng.randint(0, 6)); n = len(init); ev = []
        for _ in range(25):
            o = vector_op(rng, n)
            n = n + len(o['v']) if o['op'] == 'append' and -1 <= o['a'][0] <= n else n + 1 if o['op'] == 'push' else o['a'][0] if o['op'] == 'resize' else len(o['v']) if o['op'] == 'swap' else n
            if o['op'] == 'csv' and n == 0 or o['op'] == 'appendRow' and n == 0:
                continue
            ev.append(o)
        out.append(dict(name='vector %d' % i, kind='vector', fixed=False, init=init, ev=ev))
    return out


def cases(c):
    """test cases printed by TLC: every operation in every reachable state of the model"""
    vals, r, cc = ({1, 2}, 3, 2) if not vlib.THOROUGH else ({1, 2}, 3, 3)
    cfg = vlib.cfgtext(spec='Spec', constants=dict(Vals=vals, MaxR=r, MaxC=cc, Emit=True), invariants=['Shape', 'Laws', 'EmitCases'], deadlock=False)
    res = c.model('MatrixMC', cfg, 'MatrixMC values=%s up to %dx%d' % (sorted(vals), r, cc), timeout=1500)
    out = []
    for l in res.out.splitlines():
        m = re.match(r'<<"CASES", "(.*)">>$', l)
        if m:
            k = json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\'))
            out.append(dict(name='case %d' % len(out), kind='matrix', fixed=True, init=k['m'], ev=[dict(o, f=[]) for o in k['ops']]))
    if not out:
        raise vlib.CheckError('no cases')
    return out


def decide(c):
    traces = cases(c)
    c.extra['cases_generated_by_TLC'] = sum(len(t['ev']) for t in traces)
    traces += generate(vlib.SEED, vlib.THOROUGH)
    exe = vlib.harness('adt')
    work = os.path.join(c.dir, 'adt')
    parts = [traces[i::vlib.NCPU] for i in range(vlib.NCPU)]
    for dead in vlib.parallel(lambda a: execute(exe, a[1], work, 'p%d' % a[0]), list(enumerate(parts))):
        if dead:
            t, i, rc, se = dead
            full = [x for x in traces if x is t][0]
            c.violation('%s: the operation after step %d ended the program (%s)' % (t['name'], i, rc), json.dumps(full) + '\n' + se[-2000:])
    bad = egocheck.batch(c, 'MatrixTrace', traces, {})
    for i in bad[:3]:
        report(c, traces[i])
    ops = {}
    for t in traces:
        for e in t['ev']:
            k = ('%s.%s' % (t['kind'], e['op'])) + ('' if e.get('ok') else ' rejected')
            ops[k] = ops.get(k, 0) + 1
    c.extra['operations'] = ops
    c.sample(traces[0]['ev'][0]); c.sample(traces[-1]['ev'][0])


def report(c, t):
    w = os.path.join(c.dir, 'tlc')
    f = os.path.join(w, 'one.json')
    vlib.write_json(f, [t])
    cfg = vlib.cfgtext(spec='TraceSpec', constants=dict(File=f), deadlock=False, invariants=['Progress'])
    r = vlib.tlc('MatrixTrace', cfg, os.path.join(w, 'one'), workers=1)
    at = [int(x) for x in re.findall(r'<<"AT", \d+, (\d+)>>', r.out)]
    l = max(at) if at else 1
    e = t['ev'][l - 1]
    before = t['init'] if t['fixed'] or l == 1 else t['ev'][l - 2]['m']
    c.violation('%s: %s %s on %s gave ok=%s, %s, result %s' % (t['name'], t['kind'], {k: e[k] for k in ('op', 'a', 'v')}, before, e['ok'], e['m'], e['res']),
                json.dumps(dict(before=before, event=e, kind=t['kind'])))


def run():
    vlib.main('P20', decide)
