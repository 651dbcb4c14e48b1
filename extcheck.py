"""P09: evaluations by executables."""
import json, math, os, random, re
import vlib, egolib, egoscen, egocheck, extlib
from egolib import BAD

KINDS = ['exit', 'killed', 'nofile', 'empty', 'garbage', 'garbage', 'nox', 'gone']
GARBAGE = ['abc\n', 'nan\n', 'NaN', '-nan\n', 'x1\n', ',5\n', '--5\n', ' \n \n', 'value = 3\n', '#1.0', 'e5', '.\n', '-\n']


def scenario(rng, name, fault=None, **kw):
    kw.setdefault('retrain', 100000)
    kw.setdefault('inner', 10)
    s = egoscen.random_scenario(rng, name, missing=0, outside=0, trainiters=20, **kw)
    s.__class__ = extlib.ExtScenario
    s.style = rng.randint(0, 10 ** 6)
    s.shared = rng.random() < .3
    s.started = {}
    s.scale = rng.choice([1.0, 1.0, 2.0 ** -6, 2.0 ** 10])
    # distinct values, so that it is seen which run a value comes from
    used = {v for _, v, _ in s.init}
    s.script = rng.sample([k for k in range(-40, 40) if k not in used], s.budget + 2)
    for i, c in enumerate(s.cons):
        used = {cv[i] for _, _, cv in s.init}
        c.script = rng.sample([k for k in range(-30, 30) if k not in used], s.budget + 2)
    if fault:
        f, n, k = fault
        text = rng.choice(GARBAGE) if k == 'garbage' else '' if k == 'empty' else '%d\n' % rng.randint(-40, 40)
        s.fault = (f, n, k, text)
    s.disc = [(j, min(inc, (s.ub[j] - s.lb[j]) / 2)) for j, inc in s.disc]
    s.leftover = rng.random() < .3
    return s


def family(seed, thorough):
    rng = random.Random('P09/%d' % seed)
    out = []

    def add(fault=None, **kw):
        out.append(scenario(rng, 'P09_%03d' % len(out), fault, **kw))
    # every fault kind at the first, a middle and the last evaluation, of the objective and of the first and last constraint
    for kind in dict.fromkeys(KINDS):
        for nc, f in ((0, -1), (1, -1), (1, 0), (2, 1)) + (((3, 1), (3, 0), (2, -1)) if thorough else ()):
            b = 3
            for n in range(b) if thorough else [rng.choice([0, 1, 2])] + ([2] if f < 0 else [0] if f == nc - 1 else []):
                add((f, n, kind), nc=nc, budget=b, disc=[], dim=rng.choice([1, 2]))
    for _ in range(120 if thorough else 40):
        nc = rng.choice([0, 1, 2, 3]); b = rng.randint(1, 6)
        add((rng.randint(-1, nc - 1), rng.randrange(b), rng.choice(KINDS)), nc=nc, budget=b)
    for _ in range(120 if thorough else 40):
        add(budget=rng.randint(1, 5))
    return out


class P(egolib.Projector):
    def values(self, f, v, tol):
        return self.ocands(v, tol) if f == 0 else self.ccands(f - 1, v, tol)

    def rows9(self, text, kind, skip, f=0):
        lines = text.split('\n')
        ok = text == '' or lines[-1] == ''
        body = (lines[1:] if kind == 'hist' else lines)
        body = body[:-1] if ok and body else body
        out = []
        for l in body[skip:]:
            r = egolib.parse_row(l)
            n = self.dim + 1 + (self.nc + 2 if kind == 'hist' else 0)
            if r is None or len(r) != n:
                ok = False; continue
            tol = 6e-7 if kind == 'hist' else 1e-11
            if kind == 'hist':
                vals = [self.values(0, r[self.dim], tol)] + [self.values(1 + c, r[self.dim + 1 + c], tol) for c in range(self.nc)]
            else:
                vals = [self.values(f, r[-1], tol)]
            out.append(dict(dvs=self.cands(r[:self.dim], tol), vals=vals))
        return dict(ok=ok, col=0 if kind == 'hist' else f, rows=out)

    def files9(self, fs):
        n = len(self.sc.init)
        return dict(hist=self.rows9(fs['history'], 'hist', n), data=[self.rows9(x, 'data', n, i) for i, x in enumerate(fs['data'])])

    def project9(self, ev):
        sc = self.sc
        exact = []          # exact designs seen
        for x, _, _ in sc.init:
            self.token(x)
        cur = None
        for e in ev:
            if e['e'] == 'call':
                x = [egolib.val(v) for v in e['x']]
                e['_dv'] = self.token(x) if len(x) == self.dim else 0
                if e['kind'] == 'ok':
                    v = egolib.val(e['v'])
                    if e['f'] < 0:
                        e['_c'] = self.ocode(v); self.objcodes.add(e['_c'])
                    else:
                        e['_c'] = self.ccode(int(e['f']), v); self.concodes[int(e['f'])].add(e['_c'])
        out, tokens = [], [self.token(x) for x, _, _ in sc.init]
        for e in ev:
            if e['e'] == 'call':
                x = [egolib.val(v) for v in e['x']]
                if e['f'] < 0:
                    cur = x
                    tokens.append(e['_dv'])
                o = dict(e='call', f=int(e['f']) + 2, dv=e['_dv'], clean=e['clean'], exact=x == cur, n=int(e['n']), kind=e['kind'], val=e.get('_c', 0))
                if o['f'] == 1:
                    o['files'] = self.files9(e['files'])
                out.append(o)
            elif e['e'] == 'evaluated':
                x = [egolib.val(v) for v in e['dv']]
                cv = [egolib.val(v) for v in e['constraints']]
                out.append(dict(e='evaluated', exact=x == cur, dvs=self.cands(x, 1e-11),
                                vals=[self.ocands(egolib.val(e['objective'][0]), 0)] + ([self.ccands(c, cv[c], 0) for c in range(self.nc)] if len(cv) == self.nc else [[BAD]] * self.nc)))
            elif e['e'] == 'end':
                out.append(dict(e='end', status=int(e['status']), files=self.files9(e['files'])))
        near = [x for x in self.tokens]
        coincide = any(max(abs(a - b) for a, b in zip(near[i], near[j])) < 2e-4 for i in range(len(near)) for j in range(i)) or len(set(tokens)) < len(tokens)
        kinds = [['ok'] * (sc.budget + 1) for _ in range(self.nc + 1)]
        if sc.fault:
            kinds[sc.fault[0] + 1][sc.fault[1]] = sc.fault[2]
        return dict(name=sc.name, nf=self.nc + 1, budget=sc.budget, shared=bool(sc.shared), coincide=coincide, plan=kinds, ev=out)


def explore(c):
    f, b = (3, 3) if vlib.THOROUGH else (2, 3)
    inv = ['DesignWritten', 'ExactlyOnce', 'OwnValues', 'FailStop', 'NothingSkipped']
    const = dict(MaxF=f, MaxB=b, Clear=True, Old={1000000007, 7})
    const['Old'] = vlib.Raw('{1000000007, 7}')
    c.model('ExternalMC', vlib.cfgtext(spec='Spec', constants=const, invariants=inv, deadlock=True), 'ExternalMC functions<=%d budget<=%d all fault sequences' % (f, b))
    # the removal of left-over output is needed: without it the specification itself is wrong
    const = dict(const, Clear=False, MaxF=1)
    r = vlib.tlc('ExternalMC', vlib.cfgtext(spec='Spec', constants=const, invariants=['OwnValues']), os.path.join(c.dir, 'tlc'))
    if r.ok:
        raise vlib.CheckError('the model does not see stale output')


def decide(c):
    explore(c)
    exe, stub = vlib.harness('drv'), extlib.stub_exe()
    scs = family(vlib.SEED, vlib.THOROUGH)
    base = os.path.join(c.dir, 'sc')
    os.makedirs(base, exist_ok=True)

    def one(s):
        return P(s).project9(s.run_study(exe, stub, base)[0])
    traces = vlib.parallel(one, scs)
    bad = egocheck.batch(c, 'ExternalTrace', traces, {})
    for i in bad[:3]:
        s, t = scs[i], traces[i]
        w = os.path.join(c.dir, 'tlc'); f = os.path.join(w, 'one.json')
        vlib.write_json(f, [t])
        r = vlib.tlc('ExternalTrace', vlib.cfgtext(spec='TraceSpec', constants=dict(File=f), deadlock=False, invariants=['Progress']), os.path.join(w, 'one'), workers=1)
        at = re.findall(r'<<"AT", (\d+), (\d+), "(\w*)", (-?\d+)>>', r.out)
        l = max(int(x[1]) for x in at)
        pc = [x for x in at if int(x[1]) == l][-1][2:]
        e = t['ev'][l - 1] if l <= len(t['ev']) else None
        c.violation('%s: fault %s: not explained at event %d %s in state %s of iteration %s' % (s.name, s.fault, l, json.dumps({k: v for k, v in (e or {}).items() if k != 'files'}), *pc),
                    s.xmltext + '\n' + json.dumps(t) + '\n\n' + json.dumps(s.raw))
    kinds = {}
    for s in scs:
        k = s.fault[2] if s.fault else 'no fault'
        kinds[k] = kinds.get(k, 0) + 1
    c.extra['faults'] = kinds
    c.extra['evaluations'] = sum(1 for t in traces for e in t['ev'] if e['e'] == 'call')
    c.sample({k: v for k, v in traces[0].items() if k != 'ev'})
    c.assumptions += ['the executables are stand-ins that do what the scenario says', 'a number followed by other text counts as readable']


def run():
    vlib.main('P09', decide)
