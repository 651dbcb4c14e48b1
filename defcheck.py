"""P18: constraint definitions."""
import json, math, os, random, re, shutil
from decimal import Decimal
import vlib, egocheck, extlib
from egolib import fl

WS = [' ', '\t', '  ', ' \t ', '']


def chars(s):
    return list(s)


def canon(x):
    """mantissa and power of ten of a double"""
    if isinstance(x, str):
        return 0, 777
    d = Decimal(repr(float(x))).normalize()
    if d == 0:
        return 0, 0
    s, dig, e = d.as_tuple()
    m = int(''.join(map(str, dig)))
    if abs(m) >= 2 ** 31:
        return 0, 778
    return (-m if s else m), e


def definition(o):
    m, e = canon(o['v'])
    return dict(name=chars(o['name']), op=o['op'], m=m, e=e)


def number(rng):
    """a number with at most nine digits in any valid format"""
    sign = rng.choice(['', '', '', '-', '+'])
    a = ''.join(rng.choice('0123456789') for _ in range(rng.choice([0, 1, 1, 2, 3, 4])))
    b = ''.join(rng.choice('0123456789') for _ in range(rng.choice([0, 1, 2, 3, 5])))
    if not a and not b:
        a = '7'
    s = sign + a + ('.' + b if b or rng.random() < .3 else '')
    if rng.random() < .35:
        s += rng.choice('eE') + rng.choice(['', '+', '-']) + str(rng.choice([0, 1, 2, 3, 7, 10, 12]))
    return s


def name(rng):
    return ''.join(rng.choice('abcXYZ019_-+.#()/*') for _ in range(rng.choice([1, 1, 2, 3, 6, 12])))


def text(rng):
    while True:
        s = text1(rng)
        # numbers beyond the range of the specification's integers are left out
        if not re.search(r'[eE][+-]?\d{3}', s) and not re.search(r'\d{10}', s.replace('.', '')) and not re.search('(?i)inf|nan|0x', s):
            return s


def text1(rng):
    s = rng.choice(WS) + name(rng) + rng.choice(WS) + rng.choice('<>') + rng.choice(WS) + number(rng) + rng.choice(WS)
    z = rng.random()
    if z < .55:
        return s
    if z < .6:
        return s.replace('<', '<=').replace('>', '>=')
    if z < .64:
        return s.replace('<', '=').replace('>', '=')
    if z < .68:
        return rng.choice(WS) + s[re.search('[<>]', s).start():]
    if z < .72:
        return s[:re.search('[<>]', s).end()] + rng.choice(WS)
    if z < .76:
        return s[:re.search('[<>]', s).end()] + rng.choice(['abc', 'x1', '1 2', '1x', '1e', '--1', '1.2.3', '.', '-', '+', 'e5', '1,5', '1;', '1e+'])
    if z < .8:
        return rng.choice(['<', '>']) + s
    if z < .84:
        return s + rng.choice(['<', '>', '<5', '> 5'])
    if z < .92:
        i = rng.randrange(len(s))
        return s[:i] + rng.choice(' .e-+<>1x') + s[i:]
    i = rng.randrange(len(s))
    return s[:i] + s[i + 1:]


def unescape(s):
    return json.loads(s.replace('\\"', '"').replace('\\\\', '\\'))


def scripts(c):
    """sequences of texts: those emitted by TLC and random ones"""
    n = 5 if vlib.THOROUGH else 4
    r = c.model('ConstraintMC', vlib.cfgtext(spec='Spec', constants=dict(Alphabet={'c', '<', '>', '1', '-', '.', 'e', ' '}, MaxLen=3, EmitLen=n + 1),
                invariants=['Sound', 'Laws', 'RejectedKeeps', 'EmitTexts'], deadlock=False), 'ConstraintMC all texts up to 3 characters, emitted up to %d' % (n + 1), timeout=3000)
    texts = []
    for l in r.out.splitlines():
        m = re.match(r'<<"TEXT", "(.*)">>$', l)
        if m:
            texts.append(''.join(unescape(m.group(1))))
    if len(texts) < 1000:
        raise vlib.CheckError('no texts')
    c.extra['texts_from_TLC'] = len(texts)
    rng = random.Random('P18/%d' % vlib.SEED)
    rng.shuffle(texts)
    out = [texts[i:i + 40] for i in range(0, len(texts), 40)]
    for _ in range(1500 if vlib.THOROUGH else 250):
        out.append([text(rng) for _ in range(25)])
    return out


def execute(exe, part, work, tag):
    os.makedirs(work, exist_ok=True)
    f, o = os.path.join(work, tag + '.txt'), os.path.join(work, tag + '.out')
    plan = []
    with open(f, 'w') as h:
        for i, seq in part:
            h.write('S %d\n' % i)
            rng = random.Random(i * 7 + vlib.SEED)
            ev = []
            for t in seq:
                k = 'api' if rng.random() < .4 else 'set'
                ev.append((k, t)); h.write('%s %s\n' % (k, extlib.hexs(t)))
                if rng.random() < .3:
                    ev.append(('feasible', '')); h.write('feasible\n')
            plan.append((i, ev))
    rc, so, se = vlib.run([exe, f, o], work, 300)
    out = iter(vlib.read_trace(o))
    traces = []
    for i, ev in plan:
        t = dict(name='sequence %d' % i, ev=[])
        for k, s in ev:
            r = next(out, None)
            if r is None:
                return traces, (s, rc, se)
            if k == 'feasible':
                if any(e['k'] == 'set' and e['ok'] for e in t['ev']):
                    t['ev'].append(dict(k=k, res=r['res']))
            else:
                t['ev'].append(dict(k=k, text=chars(s), ok=r['ok'], **({'def': definition(r['def'])} if k == 'set' or r['ok'] else {'def': dict(name=[], op='', m=0, e=0)})))
        traces.append(t)
    return traces, None


# -------------------------------------------------- the same definitions in a configuration file and through the API

NAMES = ['c', 'con', 'Mass', 'drag_1', 'C2']
STRANGE = ['1x', '--1', '1.2.3', 'e5', '', '.', '-', '<5', '1e+', 'abc', '0x', '5,']


def threshold(v):
    try:
        return float(v)
    except ValueError:
        return 1.5


def around(v):
    t = threshold(v)
    return [math.nextafter(t, -math.inf), t, math.nextafter(t, math.inf)]


def initial(vals):
    xs = [0.1, 0.4, 0.9]
    return [[x, float(10 * i)] for i, x in enumerate(xs)], [[x, v] for x, v in zip(xs, vals)]


def outcome(hist):
    """constraint name and feasibility of the three initial samples"""
    lines = hist.strip().split('\n')
    if len(lines) < 4:
        return None
    head = [h.strip().strip('"') for h in lines[0].split(',')]
    cells = [l.split(',') for l in lines[1:4]]
    return head[2] if len(head) > 2 else '', [float(x[-1]) == 1.0 for x in cells]


def config_case(c, exe, stub, base, n, nm, ty, va):
    con = ['<name>%s</name>' % nm, '<constraint_type>%s</constraint_type>' % ty, '<constraint_value>%s</constraint_value>' % va,
           '<executable_filename>run_c</executable_filename>', '<output_filename>out_c.dat</output_filename>', '<training_data_filename>c.csv</training_data_filename>',
           '<design_vector_filename>dv_c.dat</design_vector_filename>', '<number_of_training_iterations>20</number_of_training_iterations>']
    random.Random(n).shuffle(con)
    xml = ('<general_settings><name>P</name><dimension>1</dimension><number_of_function_evaluations>1</number_of_function_evaluations>'
           '<type>optimization</type>' '<max_number_of_inner_iterations>10</max_number_of_inner_iterations></general_settings>\n'
           '<optimization_parameters><parameter><name>x</name><type>continuous</type><lower_bound>0</lower_bound><upper_bound>1</upper_bound></parameter></optimization_parameters>\n'
           '<objective_function><name>f</name><executable_filename>run_f</executable_filename><output_filename>out_f.dat</output_filename>'
           '<training_data_filename>f.csv</training_data_filename><design_vector_filename>dv_f.dat</design_vector_filename><number_of_training_iterations>20</number_of_training_iterations></objective_function>\n'
           '<constraint_function>' + '\n'.join(con) + '</constraint_function>\n')
    fo, co = initial(around(va))
    fns = [extlib.Function(-1, 'run_f', 'dv_f.dat', 'out_f.dat', 'f.csv', [('ok', '3\n')]), extlib.Function(0, 'run_c', 'dv_c.dat', 'out_c.dat', 'c.csv', [('ok', '3\n')])]
    st = extlib.Study('cfg%d' % n, xml, fns, {'f.csv': fo, 'c.csv': co}, 1)
    ev = st.run(exe, stub, base)
    end = ev[-1]
    calls = sum(e['e'] == 'call' for e in ev)
    r = outcome(end['files']['history'])
    ok = end['status'] == 0
    if not ok and calls:
        r, ok = ('?', []), True        # rejected too late: neither outcome of the specification
    if ok and r is None:
        r = ('?', [])
    return dict(name='configuration %d' % n, xml=xml, ev=[dict(k='config', name=chars(nm), type=ty, value=chars(va), ok=ok,
                **{'def': dict(name=chars(r[0]) if r and ok else [], op='', m=0, e=0)}, res=r[1] if r and ok else [])])


def api_case(exe, base, n, tx):
    d = os.path.join(base, 'api%d' % n)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    m = re.search('[<>]', tx)
    fo, co = initial(around(tx[m.end():].strip() if m else '1'))
    for f, rows in (('f.csv', fo), ('c.csv', co)):
        with open(os.path.join(d, f), 'w') as h:
            for r in rows:
                h.write(','.join(map(fl, r)) + '\n')
    h = extlib.hexs
    with open(os.path.join(d, 'script'), 'w') as s:
        s.write('dim 1\nobj 0 %s %s\ncon 1 %s %s\nbox 1 0 1\nbudget 1\nrun\n' % (h('f'), h('f.csv'), h(tx), h('c.csv')))
    vlib.run([exe, 'script', 'trace.json'], d, 200)
    ev = [e for e in vlib.read_trace(os.path.join(d, 'trace.json')) if e['e'] == 'did']
    shutil.rmtree(d)
    con = [e for e in ev if e['op'] == 'con']
    end = [e for e in ev if e['op'] == 'run']
    ok = bool(con) and con[0]['ok']
    r = None
    if ok and end and end[0]['ok']:
        r = outcome(end[0]['files'].get('optimizationHistory.csv', ''))
    if ok and r is None:
        r = ('?', [])
    return dict(name='API %d' % n, xml='', ev=[dict(k='run', text=chars(tx), ok=ok, **{'def': dict(name=chars(r[0]) if r else [], op='', m=0, e=0)}, res=r[1] if r else [])])


def decide(c):
    seqs = list(enumerate(scripts(c)))
    exe = vlib.harness('condef')
    work = os.path.join(c.dir, 'def')
    parts = [seqs[i::vlib.NCPU] for i in range(vlib.NCPU)]
    traces = []
    for tr, dead in vlib.parallel(lambda a: execute(exe, a[1], work, 'p%d' % a[0]), list(enumerate(parts))):
        traces += tr
        if dead:
            c.violation('the definition %r ended the program (%s)' % (dead[0], dead[1]), dead[2][-2000:])
    rng = random.Random('P18c/%d' % vlib.SEED)
    cases, api = [], []
    for _ in range(150 if vlib.THOROUGH else 50):
        nm = rng.choice(NAMES) if rng.random() < .93 else ''
        ty = rng.choice(['lt', 'gt', 'LT', 'GT', 'Lt', 'gT']) if rng.random() < .85 else rng.choice(['', 'le', '<', '>', 'l', 'eq', 'lower', 'gtt'])
        va = number(rng) if rng.random() < .8 else rng.choice(STRANGE)
        w = lambda s: rng.choice(WS + ['\n']) + s + rng.choice(WS + ['\n'])
        cases.append((w(nm), ty, w(va)))
    for _ in range(80 if vlib.THOROUGH else 24):
        api.append(text(rng))
    drv, stub, apiexe = vlib.harness('drv'), extlib.stub_exe(), vlib.harness('api')
    base = os.path.join(c.dir, 'cfg')
    os.makedirs(base, exist_ok=True)
    jobs = [lambda i=i, x=x: config_case(c, drv, stub, base, i, *x) for i, x in enumerate(cases)] + [lambda i=i, x=x: api_case(apiexe, base, i, x) for i, x in enumerate(api)]
    traces += vlib.parallel(lambda j: j(), jobs)
    # names with inner white space are not compared letter by letter in the history header
    bad = egocheck.batch(c, 'ConstraintTrace', [dict(name=t['name'], ev=t['ev']) for t in traces], {})
    for i in bad[:3]:
        report(c, traces[i])
    kinds = {}
    for t in traces:
        for e in t['ev']:
            k = e['k'] + ('' if e['k'] == 'feasible' else ' accepted' if e['ok'] else ' rejected')
            kinds[k] = kinds.get(k, 0) + 1
    c.extra['outcomes'] = kinds
    c.sample(dict(text=''.join(traces[0]['ev'][0]['text']), ok=traces[0]['ev'][0]['ok']))


def report(c, t):
    w = os.path.join(c.dir, 'tlc')
    f = os.path.join(w, 'one.json')
    vlib.write_json(f, [dict(name=t['name'], ev=t['ev'])])
    r = vlib.tlc('ConstraintTrace', vlib.cfgtext(spec='TraceSpec', constants=dict(File=f), deadlock=False, invariants=['Progress']), os.path.join(w, 'one'), workers=1)
    at = [int(x) for x in re.findall(r'<<"AT", \d+, (\d+)>>', r.out)]
    l = max(at) if at else 1
    e = t['ev'][l - 1]
    show = {k: ''.join(v) if k in ('text', 'name', 'value') else v for k, v in e.items()}
    c.violation('%s step %d: %s' % (t['name'], l, json.dumps(show)), json.dumps(t))


def run():
    vlib.main('P18', decide)
