"""Decides a property of the optimization loop: model of the design, then conformance of recorded runs."""
import json, os, re
import vlib, egolib, egoscen
from egolib import Projector

HOOKS = ['trained', 'model_trained']
EGO_INV = 'BudgetRespected FeasibilityStrict BestIsBest ImprovementSound RegionBounded HistoryIsStored TrainedOnSchedule CrashLag RestartFaithful'.split()
EGO_PROP = 'IncumbentMonotone HistoryAppendOnly DataAppendOnly'.split()


def explore(c):
    """exhaustive exploration of the specification"""
    if vlib.THOROUGH:
        runs = [({2, 3}, {0, 1, 2}, {2}, 1, {1, 2}), ({2, 3}, {0, 1}, {3}, 1, {1})]
    else:
        runs = [({2, 3}, {0, 1}, {2}, 1, {1, 2})]
    for tok, val, bud, crash, init in runs:
        cfg = vlib.cfgtext(spec='Spec', constants={'Tok': tok, 'Val': val, 'Budgets': bud, 'MaxCrash': crash, 'Init0Len': init},
                           invariants=EGO_INV, properties=EGO_PROP, deadlock=True)
        c.model('EGOMC', cfg, 'EGOMC Tok=%s Val=%s Budget=%s crashes<=%d' % (sorted(tok), sorted(val), sorted(bud), crash), timeout=3000, heap='16g')


def available(exe):
    data = open(exe, 'rb').read()
    return [h for h in HOOKS if (h + '\0').encode() in data]


def validate(c, scenarios, module='EGOTrace', focus=None, limit=3):
    """Runs the scenarios on the code and validates the recorded traces against the specification."""
    focus = focus or {c.prop}
    exe = vlib.harness('ego')
    have = available(exe)
    base = os.path.join(c.dir, 'sc')
    os.makedirs(base, exist_ok=True)

    def one(s):
        runs = s.run(exe, base)
        return Projector(s).project(runs, have)
    traces = vlib.parallel(one, scenarios)
    bad = batch(c, module, traces, {'Focus': focus})
    for i in bad[:limit]:
        diagnose(c, module, traces[i], scenarios[i], {'Focus': focus})
    if traces:
        e = traces[0]['ev']
        c.sample({'scenario': scenarios[0].name, 'text': scenarios[0].text(scenarios[0].crash).split('\n')[:12], 'events': len(e), 'last': {k: v for k, v in e[-1].items() if k != 'files'}})
    ends = {}
    for t in traces:
        for e in t['ev']:
            k = e['e'] if e['e'] != 'end' else 'end%s' % e['status']
            ends[k] = ends.get(k, 0) + 1
    old = c.extra.setdefault('events', {})
    for k, v in ends.items():
        old[k] = old.get(k, 0) + v
    return traces


def batch(c, module, traces, constants, shards=None):
    """indices of the rejected traces"""
    if not traces:
        return []
    w = os.path.join(c.dir, 'tlc')
    os.makedirs(w, exist_ok=True)
    k = min(shards or vlib.NCPU, max(1, len(traces) // 2))
    parts = [list(range(i, len(traces), k)) for i in range(k)]

    def go(a):
        n, idx = a
        f = os.path.join(w, '%s_%d.json' % (module, n))
        vlib.write_json(f, [traces[i] for i in idx])
        cfg = vlib.cfgtext(spec='TraceSpec', constants=dict(constants, File=f), deadlock=False)
        r = vlib.tlc(module, cfg, os.path.join(w, 'w%d' % n), workers=1, heap='3g')
        if not r.ok:
            raise vlib.CheckError('trace validation failed to run:\n' + r.out[max(0, r.out.find('Error:')):][:3000])
        acc = {int(x) for x in re.findall(r'<<"ACCEPTED", (\d+)>>', r.out)}
        return r, [i for j, i in enumerate(idx) if j + 1 not in acc]
    bad = []
    for r, b in vlib.parallel(go, list(enumerate(parts)), len(parts)):
        c.states += r.distinct; c.transitions += r.generated
        bad += b
    c.traces += len(traces) - len(bad)
    return sorted(bad)


def diagnose(c, module, trace, scenario, constants):
    w = os.path.join(c.dir, 'tlc')
    f = os.path.join(w, 'one.json')
    vlib.write_json(f, [trace])
    cfg = vlib.cfgtext(spec='TraceSpec', constants=dict(constants, File=f), deadlock=False, invariants=['Progress'])
    r = vlib.tlc(module, cfg, os.path.join(w, 'one'), workers=1)
    if '"ACCEPTED"' in r.out:
        raise vlib.CheckError('rejection not reproducible')
    at = re.findall(r'<<"AT", (\d+), (\d+), "(\w*)", (-?\d+)>>', r.out)
    l = max(int(x[1]) for x in at) if at else 0
    pc = [x for x in at if int(x[1]) == l][-1][2:] if at else ('?', '?')
    ev = trace['ev']
    what = '%s: rejected at event %d of %d (%s) at step %s of iteration %s' % (trace['name'], l, len(ev), ev[l - 1]['e'] if 0 < l <= len(ev) else 'none', pc[0], pc[1])
    detail = 'scenario:\n%s\nevents around the rejection:\n' % scenario.text(scenario.crash)
    for i in range(max(0, l - 6), min(len(ev), l + 2)):
        detail += '%s%d %s\n' % ('>>' if i == l - 1 else '  ', i + 1, json.dumps(ev[i]))
    detail += '\ntrace:\n' + json.dumps(trace)
    c.violation(what, detail)


def decide(prop):
    def fn(c):
        explore(c)
        validate(c, egoscen.family(prop, vlib.SEED, vlib.THOROUGH))
        c.assumptions += ['evaluations are scripted; runs use the real surrogate models with small inner budgets',
                          'values in files are compared to their printed precision']
    vlib.main(prop, fn)
