"""Writes MANIFEST.json from the property modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    'C01': 'Seeded search over prediction histories (bags, order, reuse of buffers, routes, injected failures) of every quantifier; '
           'oracle: the same request as the first prediction of an identical fitted object in a forked process.',
    'C02': 'Seeded search over histories of fits on several datasets, failed fits and predictions; oracle: a new object fitted once '
           'in a clean process with estimators trained as in the history.',
    'C03': 'Seeded interleavings, at line granularity, of operations on objects sharing estimators, templates, generators and default '
           'arguments; oracle: each object operated alone.',
    'C04': 'Seeded histories of quantifiers sharing estimators, with failures while training; oracles: training events of the '
           'estimators and the route where the same predictions are passed explicitly.',
    'C05': 'joblib behind a simulated backend that decides worker interleavings, completion order, memory sharing and failures; '
           'oracle: the sequential fit.',
    'C06': 'Global generator states, interference at every seam, histories and hash seeds chosen by the seed; oracle: the same '
           'operations in a clean process.',
    'C07': 'Invariants of generated bags checked after seeded histories of calls, failures, reuse and interleaved callers.',
    'C08': 'Seeded injection of failures at every seam the operations call; oracle: the fault-free result.',
    'C09': 'Invariant checked on every prediction of seeded histories over degenerate bags, training sets and failures.',
    'C10': 'Instrumented fold models report which models predicted each example; oracle: out-of-fold assignment of the splitter.',
    'C11': 'Copies, pickles and restarts in fresh processes at seeded points of histories; oracle: the original, not copied.',
    'C12': 'Digests of everything handed to the library, checked after every history, with read-only delivery and failures.',
    'C13': 'load_data on a simulated file system: chunking, short reads, errors, torn files, several readers; oracle: the rows written.',
    'C14': 'Same histories at several verbosity levels and with a failing output stream; oracle: silent run.',
    'C15': 'Step budget (library lines) on every operation of histories with odd parameters, data and failures.',
}
NA = {
    'C20': 'A metric is a pure function of its two arguments: no schedule, history, fault, clock or I/O can change it, so there is nothing to simulate.',
    'C21': 'Optimality of the returned prevalences is a pure numerical relation between arguments and result; no interleaving, fault or history takes part in it.',
    'C22': 'Consistency under prior shift is a pure statistical relation between training distribution, bag and result; nothing to schedule or inject.',
    'C23': 'The combination rule is a pure function of the binary models\' probabilities; nothing to schedule or inject.',
    'C24': 'The aggregation rule is a pure function of the members\' results; nothing to schedule or inject.',
    'C25': 'Parameter inspection and cloning are pure functions of constructor arguments; nothing to schedule or inject.',
    'C26': 'Histogram edges and counts are a pure function of data and parameters; nothing to schedule or inject.',
}


def main():
    checks = []
    na = [{'property': k, 'reason': v} for k, v in NA.items()]
    for p in ['C%02d' % i for i in range(1, 16)]:
        if os.path.exists(os.path.join(HERE, 'simq', 'props', p.lower() + '.py')):
            checks.append({'property': p, 'quick_cmd': 'python3 run.py %s --tier quick' % p,
                           'thorough_cmd': 'python3 run.py %s --tier thorough' % p,
                           'evidence_file': 'evidence/%s.json' % p,
                           'technique': 'deterministic simulation with fault injection (seeded search over schedules, histories and faults)',
                           'level': 'exploration', 'level_note': NOTES[p]})
        else:
            na.append({'property': p, 'reason': 'Its simulation check is still being built.'})
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
