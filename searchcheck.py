"""P08: the inner search.  Exhaustive interleavings of the model, then recorded searches of the real code."""
import json, math, os, random
import vlib, egocheck, egoscen


def f(v):
    return float('nan') if v == 'nan' else float('inf') if v == 'inf' else float('-inf') if v == '-inf' else float(v)


def searches(sc, ev):
    """one trace per search of the run"""
    out, cur, box = [], None, True
    for e in ev:
        k = e['e']
        if k == 'best':
            x = [f(v) for v in e['dv']]
            box = all(a <= v <= b for v, a, b in zip(x, sc.lb, sc.ub))
        elif k == 'window':
            cur = dict(win=([f(v) for v in e['lb']], [f(v) for v in e['ub']]), cands=[], searched=None, ascent=None, proposal=None, local=box)
        elif cur is None:
            continue
        elif k == 'candidate':
            cur['cands'].append(e)
        elif k in ('searched', 'ascent'):
            cur[k] = e
        elif k == 'proposal':
            cur['proposal'] = e
            out.append(project(sc, cur, len(out)))
            cur = None
    return out


def project(sc, s, n):
    vals = set()
    one = lambda e, k: f(e[k][0])
    for c in s['cands']:
        vals.add(one(c, 'value'))
    if s['searched']:
        vals.add(one(s['searched'], 'value'))
    if s['ascent']:
        vals |= {one(s['ascent'], 'before'), one(s['ascent'], 'after')}
    rank = {v: i + 1 for i, v in enumerate(sorted(v for v in vals if not math.isnan(v)))}
    r = lambda v: rank.get(v, 0)
    toks = {}

    def tok(x):
        return toks.setdefault(tuple(f(v) for v in x), len(toks) + 1)
    lo, hi = s['win']

    def inwin(x):
        return len(x) == sc.dim and all(a - 1e-12 <= f(v) <= b + 1e-12 for v, a, b in zip(x, lo, hi))
    t = dict(name='%s search %d' % (sc.name, n + 1), inner=sc.inner, local=s['local'],
             cands=[dict(phase=int(one(c, 'phase')), val=r(one(c, 'value')), dv=tok(c['dv']), inwin=inwin(c['dv']), thread=c['thread']) for c in s['cands']],
             searched=dict(val=-1, dv=0), ascent=dict(start=0, before=0, after=-1, dv=0, inwin=False), proposal=0)
    if s['searched']:
        t['searched'] = dict(val=r(one(s['searched'], 'value')), dv=tok(s['searched']['dv']))
    if s['ascent']:
        a = s['ascent']
        t['ascent'] = dict(start=tok(a['dvBefore']), before=r(one(a, 'before')), after=r(one(a, 'after')), dv=tok(a['dvAfter']), inwin=inwin(a['dvAfter']))
    if s['proposal']:
        t['proposal'] = tok(s['proposal']['dvNormalized'])
    return t


def scenarios(seed, thorough):
    rng = random.Random('P08/%d' % seed)
    out = []
    for i in range(240 if thorough else 40):
        th = [1, 2, 3, 4, 8, 4, 16][i % 7]
        per = ['d', 'm', 'm', ''][(i // 7) % 4] if th > 1 else ''
        s = egoscen.random_scenario(rng, 'P08_%03d' % i, threads=th, inner=rng.choice([th, 2 * th, 8, 24, 60, 100] if i % 3 == 0 else [th, th, 2 * th, 8]), budget=rng.choice([2, 3, 4]) if i % 3 == 0 else 10, candidates=True, perturb=per,
                                    nc=rng.choice([0, 0, 1, 2]), kind=rng.choice(['down', 'rand', 'ties', 'up']), ascent=rng.choice([1, 5, 100]), disc=[])
        out.append(s)
    return out


def decide(c):
    T = {1, 2, 3}
    for th, vals, inner in ([({1, 2}, {1, 2, 3}, {1, 2, 3}), (T, {1, 2}, {2, 3}), (T, {0, 1, 2}, {3})] + ([(T, {1, 2, 3}, {4}), ({1, 2, 3, 4}, {1, 2}, {4})] if vlib.THOROUGH else [])):
        cfg = vlib.cfgtext(spec='Spec', constants=dict(Threads=th, Vals=vals, Inner=inner, ), invariants=['BestIsMax', 'ResultNotWorse', 'ArgSound'], properties=['Terminates'] if len(th) < 3 else [])
        c.model('InnerSearchMC', cfg, 'InnerSearch threads=%s values=%s candidates=%s' % (len(th), sorted(vals), sorted(inner)), timeout=1500, heap='16g')
    exe = vlib.harness('ego')
    scs = scenarios(vlib.SEED, vlib.THOROUGH)
    base = os.path.join(c.dir, 'sc')

    def one(s):
        runs = s.run(exe, base)
        ev = [e for r in runs for e in r]
        end = ev[-1]
        return searches(s, ev), end
    res = vlib.parallel(one, scs, 4)
    traces, origin = [], []
    for s, (ts, end) in zip(scs, res):
        if end['e'] == 'end' and end['status'] != 0:
            c.violation('%s: the search did not finish: %s' % (s.name, end['what']), s.text(''))
        traces += ts
        origin += [s] * len(ts)
    if not traces:
        raise vlib.CheckError('no searches recorded')
    bad = egocheck.batch(c, 'InnerSearchTrace', traces, {})
    for i in bad[:3]:
        t, s = traces[i], origin[i]
        best = max(x['val'] for x in t['cands']) if t['cands'] else 0
        n1 = sum(x['phase'] == 1 for x in t['cands']); n2 = len(t['cands']) - n1
        what = '%s (%d threads, schedule %r): %d+%d candidates of %d, best value rank %d, chosen rank %d, ascent %s, outside window %d' % (
            t['name'], s.threads, s.perturb, n1, n2, t['inner'], best, t['searched']['val'], t['ascent'], sum(not x['inwin'] for x in t['cands']))
        c.violation(what, s.text('') + '\n' + json.dumps(t))
    c.extra['candidates'] = sum(len(t['cands']) for t in traces)
    c.extra['threads'] = sorted({s.threads for s in scs})
    c.extra['two_phase_searches'] = sum(t['local'] for t in traces)
    c.sample({k: v for k, v in traces[0].items() if k != 'cands'})
    c.assumptions.append('interleavings of the real code are sampled (delays before critical sections, simultaneous release); all interleavings of the model are explored')


def run():
    vlib.main('P08', decide)
