"""Studies as a user runs them: configuration file, training data files, executables (stubs)."""
import os, random, shutil, stat
import vlib
from egolib import Scenario, fl, slurp


def stub_exe():
    d = vlib.build_repo(True)
    src = os.path.join(vlib.VERIF, 'harness', 'stub.cpp')
    exe = os.path.join(d, 'h_stub')
    h = vlib.tree_hash([src, os.path.join(vlib.VERIF, 'harness', 'common.hpp')])
    with vlib._Lock():
        if not (os.path.exists(exe) and os.path.exists(exe + '.stamp') and open(exe + '.stamp').read() == h):
            vlib.sh(['g++', '-O1', '-I' + os.path.join(vlib.VERIF, 'harness'), src, '-o', exe, '-lpthread'])
            open(exe + '.stamp', 'w').write(h)
    return exe


def hexs(s):
    return 'x' + ''.join('%02x' % ord(c) for c in s) + '.'


def el(tag, text):
    return '<%s>%s</%s>' % (tag, text, tag)


class Function:
    """files of one function of a study; outcomes: [(kind, text, after)] per call"""

    def __init__(self, f, exe, design, out, data, outcomes, known=()):
        self.f, self.exe, self.design, self.out, self.data, self.outcomes, self.known = f, exe, design, out, data, outcomes, known


class Study:
    """A run directory with stubs; xml is the text of the configuration file."""

    def __init__(self, name, xml, functions, rows, dim, seed=1, start=(), extra=()):
        self.extra = dict(extra)
        self.name, self.xml, self.functions, self.rows, self.dim, self.seed = name, xml, functions, rows, dim, seed
        self.start = start      # kinds of executables that cannot be started from the beginning: {f: 'nox' / 'gone'}

    def run(self, exe, stub, base, timeout=120):
        d = os.path.join(base, self.name)
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        with open(os.path.join(d, 'study.xml'), 'w') as f:
            f.write(self.xml)
        for fn, rows in self.rows.items():
            with open(os.path.join(d, fn), 'w') as f:
                for r in rows:
                    f.write(','.join(map(fl, r)) + '\n')
        for fn, text in self.extra.items():
            with open(os.path.join(d, fn), 'w') as f:
                f.write(text)
        data = [x.data for x in self.functions]
        for x in self.functions:
            if not x.exe:
                continue
            e = os.path.join(d, x.exe)
            shutil.copy(stub, e)
            os.chmod(e, 0o755)
            with open(e + '.stub', 'w') as f:
                f.write('f %d\nin %s\nout %s\ntrace trace.json\ndim %d\nsnap %d\ndata %s\n' % (x.f, x.design, x.out, self.dim, x.f < 0, ' '.join(data)))
                for o, t in getattr(x, 'also', ()):
                    f.write('also %s %s\n' % (o, hexs(t)))
                for k in x.known:
                    f.write('known ' + ' '.join(map(fl, k)) + '\n')
                for o in x.outcomes:
                    f.write('o %s %s %s\n' % (o[0], hexs(o[1]), o[2] if len(o) > 2 else ''))
            if x.f in dict(self.start):
                k = dict(self.start)[x.f]
                os.chmod(e, 0o644) if k == 'nox' else os.unlink(e)
        rc, so, se = vlib.run([exe, 'study.xml', 'trace.json'] + data, d, timeout, {'VERIF_SEED': str(self.seed)})
        ev = vlib.read_trace(os.path.join(d, 'trace.json'))
        if not (ev and ev[-1]['e'] == 'end'):
            files = {'history': slurp(d, 'optimizationHistory.csv'), 'xml': slurp(d, 'globalOptimalDesign.xml'), 'data': [slurp(d, x) for x in data]}
            ev.append({'e': 'end', 'status': 99 if rc in (0, 'timeout') else 98, 'what': 'died: rc=%s %s' % (rc, se[-300:]), 'files': files})
        ev[-1]['rc'] = rc
        ev[-1]['err'] = (so + se)[-300:]
        self.left = sorted(os.listdir(d))
        self.kept = {f: slurp(d, f) for f in getattr(self, 'keep', [])}
        shutil.rmtree(d)
        return ev


class ExtScenario(Scenario):
    """A scenario run by the program with executables."""
    style = 0
    fault = None        # (f, n, kind, text)
    shared = False

    def functions(self):
        out = []
        for f in range(-1, len(self.cons)):
            c = self.cons[f] if f >= 0 else None
            vals = [v * self.scale for v in self.script] if f < 0 else [c.value(v) for v in c.script]
            oc = [('ok', self.render(v, f, n)) for n, v in enumerate(vals[:self.budget + 2])]
            while len(oc) < self.budget + 1:
                oc.append(oc[len(oc) % len(vals)])
            name = 'objective' if f < 0 else 'con%d' % f
            fn = Function(f, 'run_' + name, 'shared.dat' if self.shared else 'dv_' + name + '.dat', 'out_' + name + '.dat', name + '.csv', oc)
            rows = [(x, v * self.scale) for x, v, _ in self.init] if f < 0 else [(x, c.value(v)) for x, v in self.conrows(f)]
            fn.known = [list(x) + [v] for x, v in rows]
            out.append(fn)
        self.started = {}
        if self.fault:
            f, n, kind, text = self.fault
            oc = out[f + 1].outcomes
            if kind in ('nox', 'gone'):
                if n == 0:
                    self.started = {f: kind}
                else:
                    oc[n - 1] = (oc[n - 1][0], oc[n - 1][1], kind)
            else:
                oc[n] = (kind, text)
        return out

    def render(self, v, f, n):
        k = (self.style + f + n) % 4
        s = repr(float(v))
        return s + '\n' if k == 0 else s if k == 1 else '  ' + s + '\n' if k == 2 else '%.17e\n' % v

    def xml(self):
        rng = random.Random(self.style)
        nl = lambda: rng.choice(['\n', '\n', '\n\t', '\n\n', ''])
        sp = lambda t: rng.choice(['', '', '', ' ', '\n\t']) + str(t) + rng.choice(['', '', '', ' '])
        def block(tag, els, shuffle=True):
            els = list(els)
            if shuffle:
                rng.shuffle(els)
            return '<%s>%s' % (tag, nl()) + ''.join(el(k, sp(v)) + nl() for k, v in els) + '</%s>' % tag
        g = [('name', 'study'), ('type', rng.choice(['optimization', 'Optimization', 'OPTIMIZATION'])), ('dimension', self.dim), ('number_of_function_evaluations', self.budget),
             ('max_number_of_inner_iterations', self.inner), ('number_of_threads', self.threads)]
        ps = []
        disc = dict(self.disc)
        for i in range(self.dim):
            p = [('name', self.names[i] if self.names else 'x%d' % (i + 1)), ('lower_bound', fl(self.lb[i])), ('upper_bound', fl(self.ub[i]))]
            p += [('type', rng.choice(['discrete', 'int', 'Discrete'])), ('increment', fl(disc[i]))] if i in disc else [('type', rng.choice(['continuous', 'real', 'Real']))]
            ps.append(block('parameter', p))
        secs = [block('general_settings', g), '<optimization_parameters>' + nl() + nl().join(ps) + nl() + '</optimization_parameters>']
        fns = self.functions()
        cs = []
        for x in fns:
            e = [('executable_filename', x.exe), ('output_filename', x.out), ('training_data_filename', x.data), ('design_vector_filename', x.design),
                 ('number_of_training_iterations', self.trainiters), ('name', self.objname if x.f < 0 else self.cons[x.f].name)]
            if self.model != 'ORDINARY_KRIGING':
                e.append(('surrogate_model_type', 'universal_kriging'))
            if x.f >= 0:
                c = self.cons[x.f]
                e += [('constraint_type', rng.choice(['lt', 'LT'] if c.op == '<' else ['gt', 'GT'])), ('constraint_value', fl(c.value(c.thr)))]
                cs.append(block('constraint_function', e))
            else:
                secs.append(block('objective_function', e))
        # constraints keep their order, everything else may stand anywhere
        rng.shuffle(secs)
        pos = sorted(rng.randint(0, len(secs)) for _ in cs)
        for p, c in reversed(list(zip(pos, cs))):
            secs.insert(p, c)
        return '<?xml version="1.0"?>\n<optimization_study>\n' + '\n'.join(secs) + '\n</optimization_study>\n'

    def run_study(self, exe, stub, base):
        fns = self.functions()
        rows = {'objective.csv': [list(x) + [v * self.scale] for x, v, _ in self.init]}
        for i, c in enumerate(self.cons):
            rows['con%d.csv' % i] = [list(x) + [c.value(v)] for x, v in self.conrows(i)]
        st = Study(self.name, self.xml(), fns, rows, self.dim, self.seed, self.started, {x.out: '-17.0\n' for x in fns} if getattr(self, 'leftover', False) else {})
        ev = st.run(exe, stub, base)
        self.raw = [ev]
        self.xmltext = st.xml
        return [ev]
