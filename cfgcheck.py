"""P12: configuration files."""
import json, math, os, random, re
import vlib, egocheck, egolib, extlib
from egolib import fl


def node(tag, text='', items=()):
    return dict(tag=tag, closed=True, text=list(text), items=list(items))


def block(tag, pairs):
    return node(tag, '', [node(k, v) for k, v in pairs])


def bases():
    """complete documents"""
    def function(name, key, iters, extra=()):
        return [('name', name), ('executable_filename', 'run_' + key), ('output_filename', 'out_%s.dat' % key), ('training_data_filename', key + '.csv'),
                ('design_vector_filename', 'dv_%s.dat' % key)] + ([('number_of_training_iterations', iters)] if iters else []) + list(extra)

    def par(name, ty, lb, ub, inc=None):
        return block('parameter', [('name', name), ('type', ty), ('lower_bound', lb), ('upper_bound', ub)] + ([('increment', inc)] if inc else []))

    def general(dim, budget, inner, threads, name='Study'):
        return block('general_settings', [('name', name), ('dimension', str(dim)), ('type', 'optimization'), ('number_of_function_evaluations', str(budget)),
                                          ('max_number_of_inner_iterations', str(inner)), ('number_of_threads', str(threads))])
    con = lambda n, key, ty, v, it, *x: block('constraint_function', function(n, key, it, [('constraint_type', ty), ('constraint_value', v)] + list(x)))
    a = node('doc', '', [general(2, 2, 7, 1), node('optimization_parameters', '', [par('x1', 'continuous', '-2', '3'), par('x2', 'discrete', '0', '4', '0.5')]),
                         block('objective_function', function('f', 'obj', '21')), con('g', 'con1', 'lt', '1.5', '22'), con('h', 'con2', 'gt', '-0.25', '23')])
    b = node('doc', '', [con('mass', 'con1', 'GT', '1e-3', '24', ('surrogate_model_type', 'kriging')), block('objective_function', function('cost', 'obj', '25', [('surrogate_model_type', 'universal_kriging')])),
                         node('optimization_parameters', '', [par('width', 'REAL', '0.5', '1.75')]), general(1, 3, 9, 2, ' My Study ')])
    c = node('doc', '', [node('optimization_parameters', '', [par('p', 'real', '-10', '-4'), par('q', 'Int', '1', '9', '2'), par('r', 'continuous', '100', '120.5')]),
                         general(3, 1, 12, 3, 'n'), block('objective_function', function('f', 'obj', '26', [('surrogate_model_type', 'ordinary_kriging')]))])
    return [a, b, c]


ALTS = {
    'name': ['other', ' re named\t', ''],
    'dimension': ['1', '2', '3', ' 2 ', '0', '-1', '2.5', '2x', '', 'two'],
    'type': ['OPTIMIZATION', 'real', 'Continuous', 'discrete', 'INT', 'doe', '', 'categorical'],
    'number_of_function_evaluations': ['1', '4', '\n2\n', '0', '-3', '2.0', '3x', ''],
    'max_number_of_inner_iterations': ['1', '17', ' 5', '0', '-1', 'many', '4.5', ''],
    'number_of_threads': ['1', '2', '4', '0', '-2', '1.5', 'all', ''],
    'lower_bound': ['2x', '-11.5', ' -3 ', '0.25', '-1e1', '1000', '0', 'low', '1,5', '-', ''],
    'upper_bound': ['0', '6;', '130.25', '15e1', '5.75', ' +8 ', '-1000', 'high', '4..5', ''],
    'increment': ['8.5', '8', '1', '0.25', '0', '-1', '1000', 'step', ''],
    'executable_filename': ['run_alt', ' run_two\n', ''],
    'output_filename': ['alt.out', ' b.out ', ''],
    'training_data_filename': ['alt.csv', '\tdata two.csv', ''],
    'design_vector_filename': ['alt.dv', ' d v.dat', ''],
    'number_of_training_iterations': ['1', '31', ' 12 ', '0', '-5', '1e2', 'x', ''],
    'surrogate_model_type': ['UNIVERSAL_KRIGING', 'Ordinary_Kriging', 'default', 'DEFAULT', 'gradient_enhanced', 'TANGENT_ENHANCED', 'neural', ''],
    'constraint_type': ['LT', 'gT', 'lt', 'gt', 'le', '<', 'eq', ''],
    'constraint_value': ['7', '-2.5e1', ' +.5 ', '1e-12', '0', '1.5x', 'none', '', '3;'],
}


def text(chars):
    return ''.join(chars)


def render(doc, rng):
    """the document as a text; the layout is random"""
    pad = lambda: rng.choice(['', '', '\n', ' ', '\n\t', '\n\n  '])

    def r(n):
        s = '<%s>' % n['tag']
        if n['items'] or n['tag'] in ('parameter', 'optimization_parameters', 'general_settings'):
            s += pad() + ''.join(r(x) + pad() for x in n['items'])
        else:
            s += text(n['text'])
        return s + ('</%s>' % n['tag'] if n['closed'] else '')
    return rng.choice(['', '<?xml version="1.0"?>\n']) + '<optimization_study>\n' + ''.join(r(x) + rng.choice(['\n', '\n\n', ' ']) for x in doc['items']) + '</optimization_study>\n'


def squeeze(s):
    return re.sub(r'\s', '', s)


def first(n, tag, default):
    for x in n['items']:
        if x['tag'] == tag and squeeze(text(x['text'])):
            return squeeze(text(x['text']))
    return default


def number(s, default):
    try:
        return float(s)
    except ValueError:
        return default


class Case:
    """A document with the surroundings in which the program finds it: data files, executables."""

    def __init__(self, name, case, seed):
        self.name, self.doc, self.devs, self.seed = name, case['doc'], case['devs'], seed
        rng = self.rng = random.Random('%s/%d' % (name, seed))
        d = self.doc['items']
        self.xml = render(self.doc, rng)
        fb = [x for x in d if x['tag'] == 'objective_function'][:1] + [x for x in d if x['tag'] == 'constraint_function']
        self.blocks = fb
        ps = [p for x in d if x['tag'] == 'optimization_parameters' for p in x['items'] if p['tag'] == 'parameter']
        # the surroundings fit to the stated dimension, so that a program that overlooks a mismatch would run
        g = [x for x in d if x['tag'] == 'general_settings']
        self.dim = int(number(first(g[0], 'dimension', '0'), 0)) if g else 0
        if not 1 <= self.dim <= 5:
            self.dim = max(1, len(ps))
        self.lb = [number(first(p, 'lower_bound', '0'), 0.0) for p in ps] or [0.0]
        self.ub = [number(first(p, 'upper_bound', '1'), 1.0) for p in ps] or [1.0]
        self.lb = (self.lb + [0.0] * self.dim)[:self.dim]
        self.ub = (self.ub + [1.0] * self.dim)[:self.dim]
        self.thr = [number(first(f, 'constraint_value', '1.5'), 1.5) for f in fb if f['tag'] == 'constraint_function']
        self.nc = len(self.thr)
        # a constraint without an executable gets its value from the executable of the objective
        files = [[first(f, t, '' if i and t == 'executable_filename' else '%s_%d' % (t, i)) for t in ('executable_filename', 'design_vector_filename', 'output_filename', 'training_data_filename')] for i, f in enumerate(fb)]
        self.files = files
        cols = list(zip(*files)) if files else []
        # two functions that share an executable, an output or a data file are no sensible study
        self.usable = bool(files) and all(len(set(cols[k])) == len(files) for k in (2, 3)) and len(set(x for x in cols[0] if x)) == sum(bool(x) for x in cols[0])
        self.sides = []

    def run(self, exe, stub, base):
        rng = self.rng
        n = self.dim + 3
        fr = [[(i + 0.5 + 0.2 * rng.random()) / n for i in range(n)] for _ in range(self.dim)]
        for f in fr:
            rng.shuffle(f)
        xs = [[round(self.lb[j] + fr[j][i] * (self.ub[j] - self.lb[j]), 6) for j in range(self.dim)] for i in range(n)]
        self.sides = [[rng.choice([-1, 1, 1, 0] if i else [1, -1]) for _ in range(self.nc)] for i in range(n)]
        if self.nc:
            for c in range(self.nc):            # every side of every threshold occurs
                for k, s in enumerate((-1, 0, 1)):
                    self.sides[k][c] = s
        rows = {}
        for i, f in enumerate(self.files):
            rows[f[3]] = [x + [float(k * k - 3 * k) if i == 0 else self.side(i - 1, self.sides[k][i - 1])] for k, x in enumerate(xs)]
        fns = []
        for i, f in enumerate(self.files):
            outcomes = [('ok', '%r\n' % (rng.randint(-50, 50) / 4)) for _ in range(6)]
            fns.append(extlib.Function(i - 1, f[0], f[1], f[2], f[3], outcomes))
        fns[0].also = [(f[2], '%r\n' % (rng.randint(-50, 50) / 4)) for f in self.files if not f[0]]
        st = extlib.Study(self.name, self.xml, fns, rows, self.dim, self.seed)
        st.keep = ['optimization.log']
        ev = st.run(exe, stub, base)
        return self.observe(ev, st, n)

    def side(self, c, s):
        v = self.thr[c]
        return v if s == 0 else 1e-300 * s if v == 0 else math.nextafter(v, math.inf * s)

    def observe(self, ev, st, n):
        end = ev[-1]
        self.end = {k: end.get(k) for k in ('status', 'rc', 'err')}
        calls = [dict(exe=list(self.files[int(e['f']) + 1][0]), clean=bool(e['clean'])) for e in ev if e['e'] == 'call']
        hist = end['files']['history']
        lines = hist.strip().split('\n') if hist.strip() else []
        head = [list(h.strip().strip('"')) for h in lines[0].split(',')][:-2] if lines else []
        rec = sum(e['e'] == 'recorded' for e in ev)
        initial = []
        for k in range(n):
            if len(lines) > k + 1:
                initial.append(dict(feasible=float(lines[k + 1].split(',')[-1]) == 1.0, sides=self.sides[k]))
        before = [''.join(','.join(map(fl, r)) + '\n' for r in st.rows[f[3]]) for f in self.files]
        data = end['files']['data']
        appended = []
        for b, a in zip(before, data):
            appended.append(len(a[len(b):].strip().split('\n')) if a.startswith(b) and a[len(b):].strip() else 0 if a == b else 99)
        designs, xs = [], [r[:self.dim] for r in st.rows[self.files[0][3]]]
        prop = None
        for e in ev:
            if e['e'] == 'proposal':
                prop = [egolib.val(v) for v in e['dvNormalized']]
            elif e['e'] == 'evaluated':
                x = [egolib.val(v) for v in e['dv']]
                xs.append(x)
                if prop is not None and len(x) == len(prop):
                    designs.append([dict(x=round(1000 * v) if abs(v) < 1e6 else 10 ** 9, t=round(p * len(x) * 10000)) for v, p in zip(x, prop)])
        coincide = any(max(abs(a - b) for a, b in zip(xs[i], xs[j])) < 2e-4 for i in range(len(xs)) for j in range(i))
        models = [dict(iterations=int(e['iterations'][0]), threads=int(e['threads'][0]), linear=bool(e.get('linear', [0])[0])) for e in ev if e['e'] == 'model_trained']
        searched = [dict(inner=int(e['inner'][0]), first=int(e['phase'][0]), second=int(e['phase'][1]), team=int(e['team'])) for e in ev if e['e'] == 'searched']
        m = re.search(r'Problem name\s*:\s*(\S.*)', st.kept.get('optimization.log', ''))
        return dict(name=self.name, doc=self.doc, obs=dict(
            failed=end['status'] != 0 and end['rc'] in (1, 2, 255), calls=calls, untouched=not hist and all(a == b for a, b in zip(before, data)) and rec == 0,
            header=head, problem=list(squeeze(m.group(1))) if m else [], recorded=rec, appended=appended, coincide=coincide, models=models, searched=searched,
            designs=designs, initial=initial))


def documents(c):
    w = os.path.join(c.dir, 'tlc')
    os.makedirs(w, exist_ok=True)
    f = os.path.join(w, 'documents.json')
    vlib.write_json(f, dict(bases=bases(), alts={k: [list(t) for t in v] for k, v in ALTS.items()}))
    every = 150 if vlib.THOROUGH else 1500
    r = c.model('ConfigMC', vlib.cfgtext(spec='Spec', constants=dict(File=f, MaxDev=2, Every=every, Seed=vlib.SEED, OrderDepth=1 if vlib.THOROUGH else 0),
                invariants=['BasesValid', 'OrderFree', 'Mandatory', 'Local', 'EmitDocs'], deadlock=False), 'ConfigMC all single deviations of %d documents, one of %d pairs' % (len(bases()), every), timeout=3000)
    out = []
    for l in r.out.splitlines():
        m = re.match(r'<<"DOC", "(.*)">>$', l)
        if m:
            out.append(json.loads(json.loads('"' + m.group(1) + '"')))
    if len(out) < 100:
        raise vlib.CheckError('no documents')
    return out


def decide(c):
    docs = documents(c)
    exe, stub = vlib.harness('drv'), extlib.stub_exe()
    base = os.path.join(c.dir, 'sc')
    os.makedirs(base, exist_ok=True)
    cases = [Case('doc%d' % i, d, vlib.SEED) for i, d in enumerate(docs)]
    cases = [x for x in cases if x.usable]
    traces = vlib.parallel(lambda x: x.run(exe, stub, base), cases)
    bad = egocheck.batch(c, 'ConfigTrace', traces, {})
    c.extra['documents'] = len(traces)
    c.extra['accepted'] = sum(1 for t in traces if not t['obs']['failed'])
    for i in bad[:3]:
        report(c, traces[i], cases[i])
    c.sample(dict(xml=cases[0].xml[:400]))


def report(c, t, case):
    w = os.path.join(c.dir, 'tlc')
    f = os.path.join(w, 'one.json')
    vlib.write_json(f, [t])
    r = vlib.tlc('ConfigTrace', vlib.cfgtext(spec='TraceSpec', constants=dict(File=f), deadlock=False, invariants=['Progress']), os.path.join(w, 'one'), workers=1)
    at = re.findall(r'<<"AT", \d+, (\d+), "([^"]*)">>', r.out)
    what = max(at, key=lambda x: int(x[0]))[1]
    c.violation('%s with %s: %s is not as written; status %s calls %d' % (t['name'], json.dumps(case.devs), what, case.end, len(t['obs']['calls'])),
                case.xml + '\n' + json.dumps(t['obs']))


def run():
    vlib.main('P12', decide)
