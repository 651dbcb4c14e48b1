"""Scenarios for the optimization loop: generation, execution on the real code, projection to the alphabet of spec/EGOTrace."""
import math, os, random, re, shutil
import vlib

MISS, NOREF, EPS, SCALE, BAD = 1000000001, 1000000002, 1, 1000, 999999999


def fl(x):
    return repr(float(x))


class Con:
    """A constraint.  Values are codes; table gives the number behind a code (monotone), default code * scale."""

    def __init__(self, name, op, thr, script, table=None, scale=1.0):
        self.name, self.op, self.thr, self.script, self.table, self.scale = name, op, thr, script, table, scale

    def value(self, code):
        return float(self.table[code]) if self.table else code * self.scale


class Scenario:
    def __init__(self, name, dim=1, lb=None, ub=None, init=(), cons=(), script=(), budget=3, inner=40, retrain=100000, trainiters=50,
                 threads=1, ascent=5, disc=(), names=(), scale=1.0, model='ORDINARY_KRIGING', crash='', throw=None, objname='objective',
                 candidates=False, perturb=False, seed=1, crash2='', con0=None, kill=None, noisy=False):
        self.name, self.dim = name, dim
        self.lb = list(lb) if lb else [0.0] * dim
        self.ub = list(ub) if ub else [1.0] * dim
        self.init = list(init)          # [(x, code, [code or None per constraint])]
        self.cons, self.script, self.budget, self.inner = list(cons), list(script), budget, inner
        self.retrain, self.trainiters, self.threads, self.ascent = retrain, trainiters, threads, ascent
        self.disc, self.names, self.scale, self.model = list(disc), list(names), scale, model
        self.crash, self.throw, self.objname, self.candidates, self.perturb, self.seed = crash, throw, objname, candidates, perturb, seed
        self.kill, self.noisy = kill, noisy
        self.con0 = con0                # explicit rows of the constraint files: [[(x, code)]] (default: from init)

    def conrows(self, c):
        if self.con0 is not None:
            return self.con0[c]
        return [(x, cv[c]) for x, _, cv in self.init if cv[c] is not None]

    def text(self, crash):
        o = ['dim %d' % self.dim, 'budget %d' % self.budget, 'inner %d' % self.inner, 'retrain %d' % self.retrain,
             'trainiters %d' % self.trainiters, 'threads %d' % self.threads, 'ascent %d' % self.ascent, 'scale 1', 'conscale 1',
             'lb ' + ' '.join(map(fl, self.lb)), 'ub ' + ' '.join(map(fl, self.ub)), 'objname ' + self.objname, 'model ' + self.model,
             'candidates %d' % self.candidates]
        for c in self.cons:
            o.append('con %s %s %s' % (c.name, c.op, fl(c.value(c.thr))))
        for i, c in enumerate(self.cons):
            o.append('conscript %d ' % i + ' '.join(fl(c.value(v)) for v in c.script))
        o.append('script ' + ' '.join(fl(v * self.scale) for v in self.script))
        for i, inc in self.disc:
            o.append('disc %d %s' % (i, fl(inc)))
        for n in self.names:
            o.append('name ' + n)
        if crash:
            o.append('crash ' + crash)
        if self.throw:
            o.append('throw %d %d' % self.throw)
        if self.noisy:
            o.append('noisy 1')
        for x, v, cv in self.init:
            o.append('known -1 ' + ' '.join(map(fl, list(x) + [v * self.scale])))
        for i, c in enumerate(self.cons):
            for x, v in self.conrows(i):
                o.append('known %d ' % i + ' '.join(map(fl, list(x) + [c.value(v)])))
        return '\n'.join(o) + '\n'

    def write_data(self, d):
        def save(fn, rows):
            with open(os.path.join(d, fn), 'w') as f:
                for r in rows:
                    f.write(','.join(map(fl, r)) + '\n')
        save('objective.csv', [list(x) + [v * self.scale] for x, v, _ in self.init])
        for i, c in enumerate(self.cons):
            save('con%d.csv' % i, [list(x) + [c.value(v)] for x, v in self.conrows(i)])

    def run(self, exe, base, timeout=180):
        """Runs the scenario (and, after a death, its continuation); returns the list of event lists."""
        d = os.path.join(base, self.name)
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        self.write_data(d)
        out = []
        for i, crash in enumerate([self.crash, ''] if self.crash or self.kill else ['']):
            with open(os.path.join(d, 'scenario%d' % i), 'w') as f:
                f.write(self.text(crash))
            env = {'VERIF_SEED': str(self.seed + i)}
            if self.perturb:
                env['VERIF_PERTURB'] = self.perturb
            if i == 0 and self.kill:
                env['VERIF_KILL'] = self.kill
            rc, so, se = vlib.run([exe, 'scenario%d' % i, 'trace%d.json' % i], d, timeout, env)
            ev = vlib.read_trace(os.path.join(d, 'trace%d.json' % i))
            dead = not (ev and ev[-1]['e'] == 'end')
            if dead:
                files = {'history': slurp(d, 'optimizationHistory.csv'), 'xml': slurp(d, 'globalOptimalDesign.xml'),
                         'data': [slurp(d, 'objective.csv')] + [slurp(d, 'con%d.csv' % j) for j in range(len(self.cons))]}
                if rc == 137 and (crash or (i == 0 and self.kill)):
                    ev.append({'e': 'crash', 'files': files})
                else:
                    ev.append({'e': 'end', 'status': 99, 'what': 'died: rc=%s %s' % (rc, se[-300:]), 'files': files})
            out.append(ev)
            if not (dead and rc == 137):
                break
        self.raw = out
        shutil.rmtree(d)
        return out


def slurp(d, f):
    p = os.path.join(d, f)
    if not os.path.exists(p):
        return ''
    with open(p, errors='replace') as h:
        return h.read()


def parse_row(line):
    try:
        return [float(v) for v in line.split(',')]
    except ValueError:
        return None


NAN = float('nan')


def val(v):
    return NAN if isinstance(v, str) else v


class Projector:
    def __init__(self, sc):
        self.sc, self.dim, self.nc = sc, sc.dim, len(sc.cons)
        self.tokens = []
        self.objcodes = {v for _, v, _ in sc.init}
        self.concodes = [set() for _ in sc.cons]
        for i, c in enumerate(sc.cons):
            self.concodes[i] |= {v for _, v in sc.conrows(i)}
        self.invobj, self.invcon = {}, [{} for _ in sc.cons]

    # --- tokens and codes
    def near(self, a, b, tol):
        return all(abs(x - y) <= tol * (1 + abs(x) * 1e-3) if math.isfinite(y) else False for x, y in zip(a, b))

    def token(self, x):
        for i, y in enumerate(self.tokens):
            if all(abs(a - b) <= 1e-11 * (1 + abs(a)) for a, b in zip(x, y)):
                return i + 1
        self.tokens.append(list(x))
        return len(self.tokens)

    def cands(self, x, tol):
        return [i + 1 for i, y in enumerate(self.tokens) if len(x) == self.dim and all(math.isfinite(a) and abs(a - b) <= tol + 1e-12 * abs(b) for a, b in zip(x, y))] or [0]

    def ocode(self, v):
        """code of a value produced by the harness itself"""
        return round(v / self.sc.scale)

    def ccode(self, c, v):
        con = self.sc.cons[c]
        if con.table:
            return min(con.table, key=lambda k: abs(con.table[k] - v) if con.table[k] != v else -1)
        return round(v / con.scale)

    def ocands(self, v, tol):
        return sorted(k for k in self.objcodes if abs(k * self.sc.scale - v) <= tol + 1e-13 * abs(v)) or [BAD]

    def ccands(self, c, v, tol):
        if abs(v) >= 9e14:
            return [MISS]
        con = self.sc.cons[c]
        return sorted(k for k in self.concodes[c] if abs(con.value(k) - v) <= tol + 1e-16 * abs(v)) or [BAD]

    def imp(self, v):
        if not math.isfinite(v):
            return -1
        if 0 < v < 1e-6 * self.sc.scale:
            return EPS
        r = round(v / self.sc.scale * SCALE)
        return max(-1, min(BAD, r))

    # --- rows
    def hrow(self, r, tol):
        """one row of the history"""
        n = self.dim + 1 + self.nc + 2
        if r is None or len(r) != n:
            return dict(dvs=[0], obj=[BAD], con=[[BAD]] * self.nc, ilo=0, ihi=-1, feas=False)
        iv = r[n - 2]
        if tol < 1e-9:
            lo = hi = self.imp(iv)
        else:
            lo = math.ceil((iv - tol) / self.sc.scale * SCALE) if math.isfinite(iv) else 0
            hi = math.floor((iv + tol) / self.sc.scale * SCALE) if math.isfinite(iv) else -1
            lo, hi = max(lo, -BAD), min(hi, BAD)
            if lo > hi:
                lo = hi = round(iv / self.sc.scale * SCALE)
            if abs(iv) <= tol:
                hi = max(hi, EPS)
        f = r[n - 1]
        return dict(dvs=self.cands(r[:self.dim], max(tol, 1e-11)) if f in (0.0, 1.0) else [0], obj=self.ocands(r[self.dim], tol),
                    con=[self.ccands(i, r[self.dim + 1 + i], tol) for i in range(self.nc)],
                    ilo=lo, ihi=hi, feas=f == 1.0)

    def drow(self, r, f, tol):
        if r is None or len(r) != self.dim + 1:
            return dict(dvs=[0], val=[BAD])
        return dict(dvs=self.cands(r[:self.dim], tol), val=self.ocands(r[-1], tol) if f == 0 else self.ccands(f - 1, r[-1], tol))

    # --- snapshots: only what changed since the previous one is listed
    def reset_same(self):
        self.prev = {}

    def delta(self, key, rows):
        old = self.prev.get(key, [])
        n = 0
        while n < len(old) and n < len(rows) and old[n] == rows[n]:
            n += 1
        self.prev[key] = rows
        return n

    def hist_file(self, text):
        lines = text.split('\n')
        ok = bool(lines) and lines[-1] == ''
        lines = lines[:-1] if ok else lines
        names = list(self.sc.names) or ['x%d' % (i + 1) for i in range(self.dim)]
        head = names + ['Objective'] + [c.name for c in self.sc.cons] + ['Improvement', 'Feasibility']
        got = [h.strip().strip('"') for h in lines[0].split(',')] if lines else []
        ok = ok and got == head
        body = lines[1:]
        n = self.delta('histfile', body)
        return dict(ok=ok, same=n, rows=[self.hrow(parse_row(l), 6e-7) for l in body[n:]])

    def data_file(self, f, text):
        lines = text.split('\n')
        ok = text == '' or lines[-1] == ''
        body = lines[:-1] if ok else lines
        n = self.delta('data%d' % f, body)
        return dict(ok=ok, same=n, rows=[self.drow(parse_row(l), f, 1e-9) for l in body[n:]])

    def xml(self, text):
        bad = dict(ok=False, id=-1, obj=[BAD], dvs=[0], con=[], feas=False)
        m = re.fullmatch(r'\s*<GlobalOptimalDesign>(.*)</GlobalOptimalDesign>\s*', text, re.S)
        if not m:
            return bad
        b = m.group(1)

        def one(tag):
            x = re.findall(r'<%s>(.*?)</%s>' % (tag, tag), b, re.S)
            return x[0].strip() if len(x) == 1 else None
        try:
            items = lambda s: [float(x) for x in re.findall(r'<item>(.*?)</item>', s or '', re.S)]
            dv = items(one('DesignParameters'))
            con = items(one('ConstraintValues'))
            if self.nc and len(con) != self.nc:
                return bad
            return dict(ok=one('Feasibility') in ('YES', 'NO'), id=int(one('DesignID')), obj=self.ocands(float(one('ObjectiveFunction')), 6e-7),
                        dvs=self.cands(dv, 6e-7), con=[self.ccands(i, con[i], 6e-7) for i in range(self.nc)], feas=one('Feasibility') == 'YES')
        except (TypeError, ValueError):
            return bad

    def files(self, f):
        return dict(hist=self.hist_file(f['history']), xml=self.xml(f['xml']), data=[self.data_file(i, x) for i, x in enumerate(f['data'])])

    def mem_rows(self, flat, cols):
        flat = [val(v) for v in flat]
        return [flat[i:i + cols] for i in range(0, len(flat), cols)]

    def norm(self, x):
        out = []
        for v, a, b in zip(x, self.sc.lb, self.sc.ub):
            n = (v - a) / (b - a) * 1e8
            out.append(int(max(-1e9, min(1e9, round(n)))) if math.isfinite(n) else -10**9)
        return out

    def unit(self, xs):
        return [int(max(-1e9, min(1e9, round(val(v) * self.dim * 1e8)))) if math.isfinite(val(v)) else -10**9 for v in xs]

    def disc(self, dvn, dv):
        out = []
        for i, inc in self.sc.disc:
            a, b = self.sc.lb[i], self.sc.ub[i]
            x = a + dvn[i] * self.dim * (b - a)
            k = (dv[i] - a) / inc
            out.append(dict(p=round((x - a) / inc * 1000), k=round(k) if abs(k - round(k)) < 1e-6 else -1, last=math.floor((b - a) / inc + 1e-9)))
        return out

    def project(self, runs, have):
        sc = self.sc
        # all designs and codes first, so that candidates are complete
        for x, v, _ in sc.init:
            self.token(x)
        for c in range(self.nc):
            for x, v in sc.conrows(c):
                self.token(x)
        ninit = len(self.tokens)
        for ev in runs:
            for e in ev:
                if e['e'] == 'call':
                    x = [val(v) for v in e['x']]
                    e['_dv'] = self.token(x)
                    f = int(e['f'])
                    if f < 0:
                        self.objcodes.add(self.ocode(e['v'])); e['_c'] = self.ocode(e['v'])
                    else:
                        e['_c'] = self.ccode(f, e['v']); self.concodes[f].add(e['_c'])
                elif e['e'] == 'proposal':
                    e['_dv'] = self.token([val(v) for v in e['dv']])
        out = []
        self.reset_same()
        nrun = 0
        for ev in runs:
            if nrun:
                self.prev.pop('histfile', None); self.prev.pop('histmem', None)
            nrun += 1
            initpos = None
            pending = None
            for i, e in enumerate(ev):
                k = e['e']
                if k == 'call':
                    o = dict(e='call', f=int(e['f']) + 1, dv=e['_dv'], val=e['_c'], thrown=bool(sc.throw and sc.throw[0] == int(e['f']) and self.count(ev, i) == sc.throw[1]))
                    if o['f'] == 0:
                        o['files'] = self.files(e['files'])
                    out.append(o)
                elif k in ('crash', 'end'):
                    o = dict(e=k, files=self.files(e['files']))
                    if k == 'end':
                        o['status'] = int(e['status'])
                    else:
                        o['d'], o['c'] = self.samples_of(e['files'])
                    out.append(o)
                elif k == 'initialized':
                    r = val(e['reference'][0])
                    rows = self.mem_rows(e['history'], self.dim + 1 + self.nc + 2)
                    ref = NOREF if r < -1e300 else self.ocands(r, 1e-12)[0]
                    n = self.delta('histmem', [tuple(x) for x in rows])
                    o = dict(e=k, ref=ref, hist=dict(ok=True, same=0, rows=[self.hrow(x, 1e-12) for x in rows]), files=self.files(e['files']))
                    # reported together with the first search for the incumbent; put before it
                    j = len(out)
                    while j and out[j - 1]['e'] == 'best':
                        j -= 1
                    out.insert(j, o)
                elif k == 'best':
                    cv = [val(v) for v in e['constraints']]
                    out.append(dict(e=k, ok=True, id=int(val(e['id'][0])), obj=self.ocands(val(e['objective'][0]), 1e-12), dvs=self.cands([val(v) for v in e['dv']], 1e-11),
                                    con=[self.ccands(c, cv[c], 1e-12) for c in range(self.nc)] if len(cv) == self.nc else [[BAD]] * self.nc,
                                    feas=e['feasible'] == [1]))
                elif k == 'iteration':
                    out.append(dict(e=k, iter=int(e['iter'][0])))
                elif k in ('trained', 'model_trained'):
                    if not (out and out[-1]['e'] == 'trained' and pending == 'train'):
                        out.append(dict(e='trained', n=[]))
                    if k == 'model_trained':
                        out[-1]['n'] = sorted(out[-1]['n'] + [int(e['samples'][0])])
                elif k == 'thread_trained':
                    pass
                elif k == 'window':
                    out.append(dict(e=k, length=round(val(e['length'][0]) * 1e9), center=self.unit(e['center']), lb=self.unit(e['lb']), ub=self.unit(e['ub'])))
                elif k == 'proposal':
                    out.append(dict(e=k, dv=e['_dv'], norm=self.unit(e['dvNormalized']), disc=self.disc([val(v) for v in e['dvNormalized']], [val(v) for v in e['dv']])))
                elif k == 'samples':
                    f = int(e['function'][0]) + 1
                    rows = [tuple(x) for x in self.mem_rows(e['data'], self.dim + 1)]
                    n = self.delta('mem%d' % f, rows)
                    out.append(dict(e=k, f=f, ok=True, same=n, rows=[self.drow(list(x), f, 1e-9) for x in rows[n:]]))
                elif k == 'evaluated':
                    r = val(e['reference'][0])
                    cv = [val(v) for v in e['constraints']]
                    out.append(dict(e=k, dv=self.cands([val(v) for v in e['dv']], 1e-11), obj=self.ocands(val(e['objective'][0]), 0),
                                    con=[self.ccands(c, cv[c], 0) for c in range(self.nc)] if len(cv) == self.nc else [[BAD]] * self.nc,
                                    feas=e['feasible'] == [1], imp=self.imp(val(e['improvement'][0])),
                                    ref=NOREF if r < -1e300 else self.ocands(r, 1e-12)[0]))
                elif k == 'recorded':
                    rows = [tuple(x) for x in self.mem_rows(e['history'], self.dim + 1 + self.nc + 2)]
                    n = self.delta('histmem', rows)
                    out.append(dict(e=k, hist=dict(ok=True, same=n, rows=[self.hrow(list(x), 1e-12) for x in rows[n:]]), files=self.files(e['files'])))
                elif k == 'region':
                    m = val(e['multiplier'][0]); g = -1
                    if math.isfinite(m) and m > 0:
                        kk = round(math.log(m) / math.log(1.01))
                        g = kk if abs(1.01 ** kk - m) <= 1e-6 * m else -1
                    s = val(e['sigma'][0])
                    out.append(dict(e=k, length=round(val(e['length'][0]) * 1e9), success=int(e['success'][0]), failure=int(e['failure'][0]), grow=g,
                                    sigma=-1 if not math.isfinite(s) else max(-1, min(10**9, round(s * 1000)))))
                pending = 'train' if k in ('trained', 'model_trained', 'thread_trained') else k
        inbox = [all(a <= v <= b for v, a, b in zip(x, sc.lb, sc.ub)) for x in self.tokens]
        grid = []
        for x in self.tokens:
            g = True
            for i, inc in sc.disc:
                kk = (x[i] - sc.lb[i]) / inc
                g = g and abs(kk - round(kk)) < 1e-9 * max(1, abs(kk)) and 0 <= round(kk) <= math.floor((sc.ub[i] - sc.lb[i]) / inc + 1e-9)
            grid.append(g)
        near = [self.cands(x, 2e-4) for x in self.tokens]
        twin = [self.cands(x, 3e-8) for x in self.tokens]
        return dict(name=sc.name, have=have,
                    cfg=dict(nc=self.nc, budget=sc.budget, retrain=sc.retrain, op=[c.op for c in sc.cons], thr=[c.thr for c in sc.cons], stol=3, ftol=15),
                    d0=[[self.token(x), v] for x, v, _ in sc.init],
                    c0=[[[self.token(x), v] for x, v in sc.conrows(c)] for c in range(self.nc)],
                    inbox=inbox, grid=grid, near=near, twin=twin, norm=[self.norm(x) for x in self.tokens], ev=out)

    def samples_of(self, files):
        d = []
        for f, text in enumerate(files['data']):
            rows = []
            for l in text.split('\n'):
                r = parse_row(l) if l else None
                if r and len(r) == self.dim + 1:
                    x = self.drow(r, f, 1e-9)
                    rows.append([x['dvs'][0], x['val'][0]])
            d.append(rows)
        return d[0], d[1:]

    @staticmethod
    def count(ev, i):
        return sum(1 for e in ev[:i] if e['e'] == 'call' and e['f'] == ev[i]['f'])
