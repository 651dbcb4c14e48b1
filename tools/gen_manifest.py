#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
EGO = ('TLA+ model (EGO.tla) explored exhaustively by TLC; traces of real optimization runs with scripted evaluations validated against it by TLC (EGOTrace.tla)',
       'Every behaviour of the model within the stated constants satisfies the property; every recorded run of the code (generated scenarios: dimensions, constraints, initial data, ties, infeasibility, %s) is a behaviour of the model. Trusts the projection of floats to tokens (egolib.py) and the hooks; code paths no scenario reaches are not judged.')
T = {
    'P01': (EGO[0], EGO[1] % 'failing evaluations, budgets'),
    'P02': (EGO[0], EGO[1] % 'file snapshots at every evaluation'),
    'P03': (EGO[0], EGO[1] % 'values one unit in the last place around the threshold'),
    'P04': (EGO[0], EGO[1] % 'tied and tiny objective differences'),
    'P05': (EGO[0], EGO[1] % 'late first feasible design'),
    'P06': (EGO[0], EGO[1] % 'long success and failure sequences'),
    'P07': (EGO[0], EGO[1] % 'discrete grids, corner incumbents'),
    'P08': ('TLA+ model of the parallel inner search (InnerSearch.tla), all interleavings explored by TLC; recorded searches of the real code under perturbed schedules validated against it by TLC (InnerSearchTrace.tla)',
            'All interleavings of the model within the stated constants; interleavings of the code are sampled (delays before critical sections, simultaneous release of the threads, 1 to 16 threads).'),
    'P09': ('TLA+ model of evaluations by executables and files (External.tla), all fault sequences explored by TLC; runs of the real program with stand-in executables validated against it by TLC (ExternalTrace.tla)',
            'All fault sequences of the model within the constants; on the code every fault kind at the first, middle and last evaluation of the objective and of constraints. Executables are stand-ins; a hung executable is not covered.'),
    'P10': (EGO[0], EGO[1] % 'coinciding samples, long runs'),
    'P11': (EGO[0] + '; deaths at evaluations, at steps of the loop and at file operations, each followed by a continuation', EGO[1] % 'deaths and continuations'),
    'P12': ('TLA+ specification of the configuration file as a tree and of its meaning (Config.tla); TLC enumerates deviations of complete documents (ConfigMC.tla), checks the laws of reading on them and emits them; what the real program does with each is validated by TLC (ConfigTrace.tla)',
            'Every single deviation (element or block removed, repeated, left open, exchanged with its neighbour, other text) of three documents and selected pairs. Number of threads is judged for the inner search only; defaults of absent settings and the printed name of the objective are not judged.'),
    'P13': ('TLA+ specification of the interface as a state machine of settings (Api.tla); TLC enumerates call sequences (ApiMC.tla: calls left out, exchanged, repeated, put in), checks its laws on them and emits them; what the real interface and its runs do is validated by TLC (ApiTrace.tla)',
            'Sequences with up to two deviations from three complete ones, partly sampled; second runs on the same object included. Sequences in which two functions share a file or a constraint name are not judged.'),
    'P17': ('TLA+ model of a design of experiments (DoE.tla), explored exhaustively by TLC, which also emits the cases (size, functions, strategy, failing evaluation); recorded experiments through the API and directly filled matrices validated by TLC (DoETrace.tla)',
            'All cases within the model bounds (every position of a failing evaluation) and random larger ones (up to 64 samples, 6 parameters, 5 functions), previous content of the files varied. Rows are compared to their twelve printed decimals.'),
    'P18': ('TLA+ specification of constraint definitions on the level of characters (ConstraintDef.tla, Number.tla); TLC explores sequences of texts and emits test cases; outcomes of the code (definition, configuration file, API) validated by TLC (ConstraintTrace.tla)',
            'Every text up to the emitted length over an alphabet of eight characters and random longer definitions. Numbers with more than nine digits, huge exponents, inf/nan and hexadecimal numbers are left out.'),
    'P20': ('TLA+ specification of the matrix and vector operations (Matrix.tla, Vector.tla); TLC explores it and emits test cases in every reachable state; outcomes of the real classes validated by TLC (MatrixTrace.tla)',
            'Every operation in every model state (two values, up to 3x2) and random operation sequences: shape, contents, result and acceptance must be those of the specification. Values outside the generated ones are sampled only.'),
    'P14': ('TLA+ specification of a population and of an evolutionary search (Population.tla, EA.tla), explored by TLC (EAMC.tla), which also emits operation sequences; recorded operations on real populations and recorded searches validated by TLC (PopulationTrace.tla, EATrace.tla)',
            'Every operation sequence of the model within the constants (size, births, deaths, ranks of values with ties and failures) and random larger ones with 1 to 16 parameters; searches observed at every birth and death. Random draws are free choices of the model: their distribution is not judged.'),
    'P15': ('TLA+ model of training on several threads (Training.tla), all completion orders and values explored by TLC and emitted; real trainings with forced completion orders and values, and free ones, validated by TLC (TrainingTrace.tla)',
            'Every completion order and ranking of the model within the constants is replayed into the code (the harness holds back threads and replaces what a thread has reached); random lives of a model (add, reinitialize, warm start, validation samples). The likelihood is compared to an own factorization where that is well-conditioned. Outputs without variance are not judged.'),
    'P16': ('TLA+ specification of the life of sample data (Data.tla: read, normalize, split, append, test, restore), explored by TLC (DataMC.tla), which emits operation sequences; what the real classes do with each is validated by TLC (DataTrace.tla)',
            'Every operation sequence up to the depth from three prepared states and random longer ones, on data objects and on Kriging, universal Kriging and linear models, with files of wrong shape. Samples are compared to their printed digits.'),
    'P19': (EGO[0], EGO[1] % 'retraining periods, several threads'),
}
NA = {'P21': 'Numerical accuracy of real-valued formulas (interpolation, variance, expected improvement): TLA+ has no real arithmetic, a specification could only restate the formula; no state, order or history is involved.'}


def main():
    import importlib.util
    f = os.path.join(V, 'tools', 'manifest_extra.py')
    if os.path.exists(f):
        spec = importlib.util.spec_from_file_location('x', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        T.update(m.T); NA.update(m.NA)
    hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep', 'observation hooks', '-i'], capture_output=True, text=True).stdout.split()
    props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    checks = []
    for p in props:
        if p in T and os.path.exists(os.path.join(V, 'check', p)):
            checks.append(dict(property=p, quick_cmd='check/' + p, thorough_cmd='VERIF_TIER=thorough check/' + p, evidence_file='evidence/%s.json' % p,
                               technique=T[p][0], level='model_checking', level_note=T[p][1]))
    done = {c['property'] for c in checks}
    for p in props:
        if p not in done and p not in NA:
            NA[p] = 'check not built yet'
    m = dict(version=1, setup_cmd='python3 tools/setup.py',
             hooks=dict(guard='RODEO_VERIF', enable='CMAKE_CXX_FLAGS=-DRODEO_VERIF (vlib.build_repo)', source_commits=hook),
             checks=checks, not_applicable=[dict(property=p, reason=NA[p]) for p in props if p not in done],
             notes='Specifications in spec/, harness programs in harness/, see DESIGN.md.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')


main()
