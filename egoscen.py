"""Scenario families for the optimization loop, per property."""
import math, random
from egolib import Con, Scenario

NAMES = ['alpha', 'beta', 'gamma', 'delta']


def grid_points(rng, dim, lb, ub, n):
    """n distinct designs, exactly representable in 12 decimals, pairwise far apart"""
    pts = []
    while len(pts) < n:
        x = [round(a + (b - a) * rng.randint(1, 63) / 64, 9) for a, b in zip(lb, ub)]
        if all(max(abs(p - q) for p, q in zip(x, y)) > 5e-3 for y in pts):
            pts.append(x)
    return pts


def codes(rng, kind, n):
    """objective codes along a run"""
    if kind == 'down':
        v, out = rng.randint(5, 30), []
        for _ in range(n):
            out.append(v); v -= rng.choice([1, 1, 2, 5])
        return out
    if kind == 'flat':
        v = rng.randint(-3, 3)
        return [v] * n
    if kind == 'ties':
        return [rng.randint(-1, 2) for _ in range(n)]
    if kind == 'up':
        v, out = rng.randint(-5, 5), []
        for _ in range(n):
            out.append(v); v += rng.choice([0, 1, 2])
        return out
    if kind == 'steps':      # rare large improvements between many small ones
        v, out = 60, []
        for i in range(n):
            v -= rng.choice([0, 1, 1, 2, 20 if rng.random() < .3 else 1]); out.append(v)
        return out
    return [rng.randint(-20, 20) for _ in range(n)]


def random_scenario(rng, name, **kw):
    dim = kw.pop('dim', rng.choice([1, 1, 2, 2, 3]))
    lb = [rng.choice([0, -1, -5, 2, 0.5, -0.25]) for _ in range(dim)]
    ub = [a + rng.choice([1, 2, 4, 0.5, 10]) for a in lb]
    nc = kw.pop('nc', rng.choice([0, 1, 1, 2, 3]))
    budget = kw.pop('budget', rng.randint(2, 7))
    ninit = kw.pop('ninit', rng.choice([2, 3, 4, 5]))
    kind = kw.pop('kind', rng.choice(['down', 'flat', 'ties', 'up', 'rand', 'steps']))
    missing = kw.pop('missing', .15)
    outside = kw.pop('outside', .15)
    feas = kw.pop('feas', rng.choice([.3, .6, .9]))     # chance that a constraint holds
    near = kw.pop('near', False)
    close = kw.pop('close', False)
    cons = []
    for c in range(nc):
        op = rng.choice('<>'); thr = rng.randint(-2, 3)
        good = lambda op=op, thr=thr: thr - rng.randint(1, 2) if op == '<' else thr + rng.randint(1, 2)
        bad = lambda op=op, thr=thr: thr + rng.choice([0, 0, 1, 2]) if op == '<' else thr - rng.choice([0, 0, 1, 2])
        con = Con('g%d' % c if rng.random() < .5 else 'con_%s' % 'xyzw'[c], op, thr, [good() if rng.random() < feas else bad() for _ in range(budget + 2)])
        con.draw = lambda g=good, b=bad: g() if rng.random() < feas else b()
        if near:
            t = rng.choice([0.25, 3.0, -7.5, 1e-3, 1234.5])
            con.table = {}
            for k in range(-4, 5):
                x = t
                for _ in range(abs(k)):
                    x = math.nextafter(x, math.inf if k > 0 else -math.inf)
                con.table[thr + k] = x
        cons.append(con)
    pts = grid_points(rng, dim, lb, ub, ninit)
    if nc and outside and rng.random() < outside * 3:
        i = rng.randrange(ninit); j = rng.randrange(dim)
        pts[i][j] = round(rng.choice([lb[j] - .25, ub[j] + .25]), 9)
    if close:                                            # pairs of samples that are close to each other but not the same
        for i in range(0, ninit - 1, 2):
            j = rng.randrange(dim)
            pts[i + 1] = list(pts[i]); pts[i + 1][j] = round(pts[i][j] + rng.choice([-1, 1]) * rng.choice([1e-3, 5e-4, 3e-4, 2e-5]), 9)
    v0 = codes(rng, kind, ninit)
    if len(set(v0)) == 1 and rng.random() < .8:
        v0[0] += 3
    init = [(x, v, [None if rng.random() < missing and i > 0 else c.draw() for c in cons]) for i, (x, v) in enumerate(zip(pts, v0))]
    for c in range(nc):                                  # a surrogate needs at least two samples
        have = [i for i in range(ninit) if init[i][2][c] is not None]
        for i in range(ninit):
            if len(have) >= 2:
                break
            if i not in have:
                init[i][2][c] = cons[c].draw(); have.append(i)
    kw.setdefault('retrain', rng.choice([1, 2, 3, 100000]))
    kw.setdefault('names', NAMES[:dim] if rng.random() < .4 else [])
    kw.setdefault('scale', rng.choice([1.0, 1.0, 2.0 ** -6, 2.0 ** 20]))
    kw.setdefault('seed', rng.randint(1, 10 ** 6))
    kw.setdefault('inner', 20)
    kw.setdefault('trainiters', 30)
    kw.setdefault('model', rng.choice(['ORDINARY_KRIGING'] * 4 + ['UNIVERSAL_KRIGING']))
    if 'disc' not in kw and rng.random() < .3:
        j = rng.randrange(dim)
        kw['disc'] = [(j, rng.choice([.25, .5, .1, 1, 0.3]))]
    script = kw.pop('script', None) or codes(rng, kind, budget + 1)
    return Scenario(name, dim=dim, lb=lb, ub=ub, init=init, cons=cons, script=script, budget=budget, **kw)


def family(prop, seed, thorough):
    rng = random.Random('%s/%d' % (prop, seed))
    n = 160 if thorough else 36
    out = []

    def add(**kw):
        out.append(random_scenario(rng, '%s_%03d' % (prop, len(out)), **kw))
    if prop == 'P01':
        for i in range(n):
            if i % 4 == 0:
                nc = rng.choice([0, 1, 2, 3]); f = rng.randint(-1, nc - 1); b = rng.randint(1, 5)
                add(nc=nc, budget=b, throw=(f, rng.randrange(b)))
            elif i % 4 == 1:
                add(budget=rng.choice([1, 1, 2, 9]), disc=[(0, 1.0)], dim=1)
            else:
                add(budget=rng.randint(1, 9))
        for i in range(n // 6):
            add(noisy=True, dim=1, disc=[(0, rng.choice([10.0, .5]))], nc=rng.choice([0, 1, 2]))
        for nc in (0, 4):
            add(nc=nc, budget=25 if thorough else 12, retrain=5)
    elif prop == 'P02':
        for i in range(n):
            add(dim=rng.choice([1, 2, 3, 4]), nc=rng.choice([0, 1, 2, 4]), names=None or [] if i % 2 else NAMES, scale=rng.choice([1.0, 1.0, 2.0 ** -6]))
        for i in range(4):
            add(nc=2, throw=(rng.choice([-1, 0, 1]), rng.randint(1, 3)), budget=5)
        for i in range(n // 6):
            add(noisy=True, dim=1, disc=[(0, rng.choice([10.0, .5]))], nc=rng.choice([0, 1, 2]), close=i % 2 == 0)
        add(nc=1, budget=40, dim=2, retrain=100000)
        for s in out:
            s.names = s.names[:s.dim]
    elif prop == 'P03':
        for i in range(n):
            add(nc=rng.choice([1, 2, 3, 4]), near=i % 2 == 0, missing=.3, outside=.3, feas=rng.choice([.5, .8]))
        for i in range(n // 4):
            add(nc=rng.choice([1, 2, 3]), ninit=rng.choice([4, 6]), missing=.5, outside=0, feas=.8, close=True, budget=2)
    elif prop == 'P04':
        for i in range(n):
            add(budget=rng.randint(3, 10), kind=rng.choice(['ties', 'ties', 'flat', 'down', 'rand', 'up']), feas=rng.choice([.1, .5, .9]),
                scale=rng.choice([1.0, 2.0 ** -6, 2.0 ** -16, 2.0 ** 40]), outside=.3)
        for i in range(n // 6):
            add(noisy=True, dim=1, disc=[(0, rng.choice([10.0, .5]))], nc=rng.choice([0, 1, 2]), close=i % 2 == 0, kind='ties')
    elif prop == 'P05':
        for i in range(n // 6):
            add(noisy=True, dim=1, disc=[(0, rng.choice([10.0, .5]))], nc=rng.choice([0, 1, 2]), close=i % 2 == 0, kind=rng.choice(['down', 'ties']), budget=6)
        for i in range(n):
            add(budget=rng.randint(3, 9), kind=rng.choice(['ties', 'down', 'rand', 'steps', 'up']), feas=rng.choice([.15, .5, .8]),
                scale=rng.choice([1.0, 2.0 ** -6, 2.0 ** -16, 2.0 ** 40]), nc=rng.choice([0, 1, 1, 2]))
    elif prop == 'P06':
        for i in range(n // 2):
            add(budget=rng.randint(5, 14), kind=rng.choice(['down', 'steps', 'down', 'rand']), scale=rng.choice([1.0, 2.0 ** -6, 2.0 ** 20]))
        for i in range(10 if thorough else 3):        # long runs: failures until the length changes, successes in between
            script, v = [], 0
            for _ in range(rng.choice([2, 3])):
                script += [50] * rng.choice([14, 15, 16, 15])
                for _ in range(rng.choice([2, 3, 4, 7])):
                    v -= rng.choice([1, 3, 40]); script.append(v)
            add(dim=rng.choice([1, 2, 3]), nc=rng.choice([0, 1]), feas=1.0, missing=0, script=script, budget=len(script), retrain=100000)
        for d in ([1, 2] if thorough else [2]):       # down to the smallest length
            s = [50] * 125 + [-1, -2, -3, -4]
            add(dim=d, nc=0, script=s, budget=len(s), retrain=100000)
    elif prop == 'P07':
        for i in range(n):
            dim = rng.choice([1, 2, 3])
            add(dim=dim, budget=rng.randint(4, 10), disc=[(j, rng.choice([.1, .3, .25, .07, .5, 1 / 3, .7])) for j in range(dim) if rng.random() < .6])
        for i in range(6):      # decimal increments that divide the range
            add(dim=1, budget=8, disc=[(0, rng.choice([.1, .05, .2]))], inner=30)
        for i in range(8):      # bounds whose normalization rounds
            s = random_scenario(rng, '%s_%03d' % (prop, len(out)), dim=rng.choice([1, 2, 3]), nc=0, budget=8, disc=[], kind='down', ninit=3)
            s.lb = [rng.choice([-.1, .1, -1.1, .7, -.3]) for _ in range(s.dim)]
            s.ub = [a + rng.choice([.2, .7, 1.3, 2.9]) for a in s.lb]
            pts = grid_points(rng, s.dim, s.lb, s.ub, 3)
            # the incumbent sits in a corner so that the window touches it
            s.init = [(p, v, []) for p, (_, v, _) in zip(pts, s.init)]
            s.init[-1] = ([round(b, 9) for b in s.ub], -50, [])
            out.append(s)
    elif prop == 'P10':
        for i in range(n):
            if i % 3 == 0:      # coincidences: few admissible designs
                add(dim=1, disc=[(0, 10.0 if i % 2 else 1.0)], budget=rng.randint(4, 8), kind='ties')
            else:
                add(nc=rng.choice([0, 1, 2, 3]), throw=(rng.choice([-1, 0]), rng.randint(0, 2)) if rng.random() < .2 else None)
        for i in range(n // 3):      # a function that gives another value when a design is evaluated again
            add(dim=rng.choice([1, 1, 2]), disc=[(0, rng.choice([10.0, .5, 1.0]))], budget=rng.randint(4, 8), nc=rng.choice([0, 1, 1]), noisy=True, kind=rng.choice(['ties', 'up', 'down', 'rand']))
        for i in range(n // 6):
            add(close=True, ninit=4, nc=rng.choice([0, 1, 2]), budget=4)
        for s in out:
            if s.throw and s.throw[0] >= len(s.cons):
                s.throw = (-1, s.throw[1])
        add(budget=40, nc=1, retrain=100000)
    elif prop == 'P11':
        ev = ['trained', 'window', 'searched', 'ascent', 'proposal', 'samples', 'evaluated', 'recorded', 'region', 'best', 'iteration', 'initialized']
        for i in range(n):
            nc = rng.choice([0, 1, 2, 2]); b = rng.randint(2, 4)
            if i % 3 == 0:
                c = 'call:%d:%d' % (rng.randint(-1, nc - 1), rng.randrange(b))
            else:
                c = 'event:%s:%d' % (rng.choice(ev), rng.randrange(1, b + 1))
            k = None
            if i % 3 == 2:
                k, c = 'write:%d' % rng.randint(1, 40 * b), ''
            add(nc=nc, budget=b, crash=c, kill=k, retrain=rng.choice([1, 2, 100000]), disc=[] if i % 5 else [(0, 1.0)])
        for i in range(n // 6):
            add(close=True, ninit=4, nc=rng.choice([1, 2]), missing=.4, outside=0, budget=2, crash='event:recorded:1' if i % 2 else 'call:0:1')
    elif prop == 'P19':
        for i in range(n):
            add(retrain=rng.choice([1, 2, 3, 4, 5]), budget=rng.randint(3, 9), nc=rng.choice([0, 1, 2, 3]), threads=rng.choice([1, 1, 2, 4]))
    return out
