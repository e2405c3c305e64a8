"""Seeded search for one property: cases are generated from VERIF_SEED, executed in simulated runs by several worker
processes, and every violation is minimised, confirmed twice and written as a replay file."""
import argparse
import collections
import copy
import hashlib
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('SIMQ_WORKERS', '8'))
# number of cases and wall-clock cap in seconds of each tier
QUICK = {}
CAP = {'quick': 240.0, 'thorough': 780.0}
LATEST = {'quick': 540.0, 'thorough': 1200.0}     # no minimisation after that
THOROUGH_FACTOR = 12
RUN_TIMEOUT = 60.0
REPEATED = 2      # cases per worker that are executed twice, to compare the runs


class HarnessError(Exception):
    pass


class RefHang(Exception):
    """ A reference run does not end: nothing to compare with """


class MainHang(Exception):
    pass


class Stopped(Exception):
    """ another worker found a violation """


STOP = None      # set in workers


class Ctx:
    """ run(scn) for one check of one case; keeps statistics """

    def __init__(self):
        self.runs = 0
        self.lines = 0
        self.steps = 0
        self.digests = None     # of every run, when asked for

    def run(self, scn, hashseed=0, timeout=RUN_TIMEOUT):
        from simq import procs
        self.runs += 1
        o = procs.run_in_zygote(hashseed, 'simq.engine', 'execute', (scn,), timeout)
        if o.kind == 'ok':
            self.lines += o.value['lines']
            self.steps += o.value['steps']
            if self.digests is not None:
                self.digests.append(info_digest(o.value))
            return o.value
        if o.kind == 'timeout':
            raise MainHang(scn)
        if o.kind == 'died':
            raise HarnessError('run died: %s' % o.value)
        raise HarnessError(str(o.value)[-3000:])


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return o.item()
    return o


def info_digest(info):
    """ everything a run did that must come out the same when it is repeated """
    h = hashlib.sha256()

    def feed(o):
        import numpy as np
        if isinstance(o, dict):
            for k in sorted(o, key=str):
                h.update(str(k).encode())
                feed(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b'[')
            for v in o:
                feed(v)
            h.update(b']')
        elif isinstance(o, np.ndarray):
            h.update(str(o.dtype).encode() + str(o.shape).encode())
            h.update(repr(o.tolist()).encode())
        else:
            h.update(repr(o).encode())
    for k in ('order', 'res', 'events', 'trace', 'steps', 'fired', 'counts', 'mutated', 'aliased'):
        feed(info.get(k))
    return h.hexdigest()[:24]


def check_case(P, case, timeout=RUN_TIMEOUT, digests=False, retries=2):
    """ -> violations, meta, ctx """
    ctx = Ctx()
    if digests:
        ctx.digests = []
    scn = case['scn']

    def run(s, hashseed=0, timeout=timeout):
        try:
            return ctx.run(s, hashseed, timeout)
        except MainHang:
            # confirmed twice more; a run that ends after all was only slow
            for _ in range(retries):
                if STOP is not None and STOP.value:
                    raise Stopped()
                try:
                    return ctx.run(s, hashseed, timeout)
                except MainHang:
                    pass
            raise
    try:
        v, meta = P.check(case, run)
    except MainHang as e:
        ids = [o['id'] for t in e.args[0]['tasks'] for o in t]
        if not e.args[0].get('faults') and e.args[0] is not scn and P.PROP != 'C15':
            return [], {'nontrivial': False, 'info': None, 'skipped': 'reference run does not end'}, ctx
        return [{'kind': 'hang', 'detail': 'a run of operations %s does not end (killed after %d s, %d times)' % (ids, timeout, 1 + retries),
                 'op': None}], {'nontrivial': True, 'info': None}, ctx
    return v, meta, ctx


# ---- workers ---------------------------------------------------------------------------------------------------------
def worker(w, P, base, n, prop, path, stop, deadline):
    st = {'cases': 0, 'nontrivial': 0, 'runs': 0, 'lines': 0, 'steps': 0, 'kinds': collections.Counter(), 'fired': collections.Counter(),
          'firedsites': set(), 'traces': set(), 'sites': set(), 'digests': set(), 'cls': collections.Counter(), 'viol': [],
          'harness': [], 'skipped': 0, 'samples': [], 'preempt': 0, 'res': collections.Counter(), 'est': collections.Counter(),
          'capped': False, 'repeated': 0, 'repeated_same': 0, 'repeated_seeds': [], 'flaky': [], 'joblib': collections.Counter()}
    global STOP
    STOP = stop
    i = w
    while i < n:
        if stop.value:
            break
        if time.monotonic() > deadline:
            st['capped'] = True
            break
        seed = base + i
        case = P.gen(seed)
        case['seed'] = seed
        case = json.loads(json.dumps(jsonable(case)))      # exactly what a replay file would hold
        again = copy.deepcopy(case) if st['cases'] < REPEATED else None
        try:
            v, meta, ctx = check_case(P, case, digests=again is not None)
            if again is not None and not v and ctx.digests:
                # the same seed once more: every run must come out the same
                st['repeated'] += 1
                same = check_case(P, again, digests=True)[2].digests == ctx.digests
                st['repeated_same'] += same
                if not same:
                    st['repeated_seeds'].append(seed)
        except Stopped:
            break
        except Exception:
            st['harness'].append([seed, traceback.format_exc()[-2500:]])
            st['cases'] += 1
            i += WORKERS
            continue
        info = meta.get('info')
        st['cases'] += 1
        st['runs'] += ctx.runs
        st['lines'] += ctx.lines
        st['steps'] += ctx.steps
        if meta.get('skipped'):
            st['skipped'] += 1
        for info in meta.get('infos') or ([info] if info is not None else []):
            for f in info['fired']:
                st['fired'][f['point'] + ':' + f['exc']] += 1
                st['firedsites'].add((f['point'], f['at'], f['exc']))
            st['preempt'] += len(info['trace'])
            if info['trace']:
                st['traces'].add(hashlib.sha1(repr(info['trace']).encode()).hexdigest()[:16])
                for s in info['sites']:
                    st['sites'].add(repr(s))
            for r in info['res'].values():
                st['res'][r['kind']] += 1
            if info.get('joblib'):
                for k, x in info['joblib'].items():
                    if isinstance(x, int):
                        st['joblib'][k] += x
        for q in case['scn'].get('objs', []):
            st['cls'][q['cls']] += 1
        for e in case['scn'].get('ests', []):
            st['est'][e['kind']] += 1
        if meta['nontrivial']:
            st['nontrivial'] += 1
            st['digests'].add(hashlib.sha1(json.dumps({k: x for k, x in case.items() if k != 'seed'}, sort_keys=True,
                                                      default=str).encode()).hexdigest()[:16])
            if len(st['samples']) < 1:
                st['samples'].append(sample_of(case, info))
        if v:
            if v[0]['kind'] == 'hang' or check_case(P, copy.deepcopy(case))[0]:
                st['viol'].append([i, seed, case, v])
                stop.value = 1
            else:
                st['flaky'].append([i, seed, v])
        i += WORKERS
    with open(path, 'wb') as f:
        pickle.dump(st, f)


def sample_of(case, info):
    s = case['scn']
    return {'seed': case['seed'], 'objects': [[q['cls'], q.get('params')] for q in s.get('objs', [])],
            'estimators': s.get('ests'), 'data': s.get('data'), 'setup': s.get('setup'), 'tasks': s.get('tasks'),
            'faults': s.get('faults'), 'sched': s.get('sched'), 'knobs': s.get('knobs'),
            'faults_fired': info['fired'] if info else None, 'preemptions': len(info['trace']) if info else None,
            'outcomes': {k: r['kind'] for k, r in info['res'].items()} if info else None}


def search(P, base, n, cap):
    import multiprocessing as mp
    import tempfile
    import shutil
    tmp = tempfile.mkdtemp(prefix='simq_')
    stop = mp.get_context('fork').Value('i', 0)
    t0 = time.monotonic()
    pids = []
    try:
        for w in range(WORKERS):
            path = os.path.join(tmp, 'w%d' % w)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    worker(w, P, base, n, P.PROP, path, stop, t0 + cap)
                except BaseException:
                    traceback.print_exc()
                    code = 1
                finally:
                    sys.stderr.flush()
                    from simq import procs
                    for z in procs._others.values():
                        z.p.kill()
                    os._exit(code)
            pids.append(pid)
        bad = 0
        for pid in pids:
            _, status = os.waitpid(pid, 0)
            bad += status != 0
        if bad:
            raise HarnessError('%d workers failed' % bad)
        sts = []
        for w in range(WORKERS):
            with open(os.path.join(tmp, 'w%d' % w), 'rb') as f:
                sts.append(pickle.load(f))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return sts


# ---- minimisation ----------------------------------------------------------------------------------------------------
class Minimiser:
    def __init__(self, P, case, kind, budget=100.0):
        self.P, self.kind = P, kind
        self.case = case
        self.deadline = time.monotonic() + budget
        self.tries = 0

    def fails(self, case):
        if time.monotonic() > self.deadline:
            return None
        self.tries += 1
        c = copy.deepcopy(case)
        try:
            v, meta, _ = check_case(self.P, c, timeout=20, retries=0)
        except Exception:
            return None
        for x in v:
            if x['kind'] == self.kind:
                return c, v, meta
        return None

    def lists(self, case):
        """ the lists of operations of a case """
        return [case['scn'].get('setup') or []] + case['scn']['tasks'] + [case[n] for n in getattr(self.P, 'LISTS', ())]

    def sched(self, case):
        return case.get(self.P.SCHED) if hasattr(self.P, 'SCHED') else case['scn'].get('sched')

    def adopt(self, case):
        r = self.fails(case)
        if r:
            self.case = r[0]
            return True
        return False

    def minimise(self):
        r = self.fails(self.case)
        if not r or self.kind == 'hang':
            return
        self.case, _, meta = r
        info = meta.get('info')
        # the schedule actually followed, as an explicit list of preemptions
        if info is not None and (self.sched(self.case) or {}).get('mode') in ('rate', 'rare'):
            c = copy.deepcopy(self.case)
            self.sched(c).clear()
            self.sched(c).update({'mode': 'list', 'at': info['trace']})
            self.adopt(c)
        changed = True
        while changed and time.monotonic() < self.deadline:
            changed = False
            # faults that are not needed
            for j in reversed(range(len(self.case['scn']['faults']))):
                c = copy.deepcopy(self.case)
                del c['scn']['faults'][j]
                changed |= self.adopt(c)
            # operations that are not needed
            for i in range(len(self.lists(self.case))):
                for j in reversed(range(len(self.lists(self.case)[i]))):
                    c = copy.deepcopy(self.case)
                    del self.lists(c)[i][j]
                    changed |= self.adopt(c)
            # preemptions that are not needed
            if (self.sched(self.case) or {}).get('mode') == 'list':
                at = self.sched(self.case)['at']
                size = max(1, len(at) // 2)
                while size >= 1 and time.monotonic() < self.deadline:
                    j = 0
                    while j < len(self.sched(self.case)['at']):
                        c = copy.deepcopy(self.case)
                        self.sched(c)['at'] = at[:j] + at[j + size:]
                        if self.adopt(c):
                            at = self.sched(self.case)['at']
                            changed = True
                        else:
                            j += size
                    size //= 2
            for k in list(self.case['scn'].get('knobs', {})):
                if k in ('estat', 'joblib', 'disk'):
                    continue
                c = copy.deepcopy(self.case)
                del c['scn']['knobs'][k]
                changed |= self.adopt(c)


def write_replay(P, case, v, meta, dirname):
    os.makedirs(dirname, exist_ok=True)
    info = meta.get('info')
    rec = {'property': P.PROP, 'seed': case.get('seed'), 'violation': jsonable(v), 'case': jsonable(case),
           'trace': jsonable(info['trace']) if info else None, 'fired': jsonable(info['fired']) if info else None,
           'digest': info_digest(info) if info else None,
           'how': 'python run.py %s --replay <this file>' % P.PROP}
    name = '%s-%s.json' % (P.PROP, hashlib.sha1(json.dumps(rec['case'], sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(dirname, name)
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
    return path


def replay(P, path, quiet=False):
    """ Executes the case of a replay file. -> (reproduced, exactly, violations) """
    with open(path) as f:
        rec = json.load(f)
    case = rec['case']
    v, meta, _ = check_case(P, copy.deepcopy(case))
    info = meta.get('info')
    exact = info is None or rec.get('digest') is None or info_digest(info) == rec['digest']
    return v, exact, rec


# ---- known findings --------------------------------------------------------------------------------------------------
def known_findings(prop):
    out = []
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line[len('known: property=%s ' % prop):]
                rp, what = rest.split(' ', 1)
                assert rp.startswith('replay=')
                out.append((os.path.join(HERE, rp[7:]), what))
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or '1'))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    from simq import engine
    engine.preload()
    P = importlib.import_module('simq.props.' + a.prop.lower())
    if a.replay:
        v, exact, rec = replay(P, a.replay)
        for x in v:
            print('%s: %s' % (x['kind'], x['detail']))
        print('replay %s' % ('repeats the recorded run exactly' if exact else 'differs from the recorded run'))
        if v:
            print('VIOLATION property=%s replay=%s' % (P.PROP, a.replay))
            return 1
        return 0
    n = a.cases or (P.CASES if a.tier == 'quick' else P.CASES * THOROUGH_FACTOR)
    base = a.seed * 1000003
    rc = 0
    known = 0
    for path, what in known_findings(P.PROP):
        v, exact, rec = replay(P, path)
        if v:
            known += 1
            print('KNOWN-FINDING: property=%s %s' % (P.PROP, what))
    # regression corpus: cases that once showed a violation
    cdir = os.path.join(HERE, 'corpus')
    corpus = sorted(f for f in os.listdir(cdir) if f.startswith(P.PROP + '-')) if os.path.isdir(cdir) else []
    viol = []
    ncorpus = 0
    for f in corpus:
        with open(os.path.join(cdir, f)) as fh:
            case = json.load(fh)['case']
        try:
            v, meta, _ = check_case(P, copy.deepcopy(case))
        except HarnessError as e:
            print('corpus case %s cannot be executed: %s' % (f, str(e)[-400:]), file=sys.stderr)
            continue
        ncorpus += 1
        if v:
            viol.append([-1, case.get('seed'), case, v])
            break
    sts = [] if viol else search(P, base, n, CAP[a.tier])
    flaky = []
    for st in sts:
        viol += st['viol']
        flaky += st['flaky']
    for i, seed, v in sorted(flaky)[:3]:
        print('seed %s: %s is not repeated, taken as a failure of the harness' % (seed, v[0]['detail'][:400]), file=sys.stderr)
        rc = 2
    viol.sort(key=lambda x: x[0])
    out = []
    for i, seed, case, v in viol[:1]:
        if v[0]['kind'] == 'hang':
            # killed three times by the worker: executing it again tells nothing more
            c, v2, meta2 = case, v, {'info': None}
        else:
            budget = (100.0 if a.tier == 'quick' else 240.0) / (2 if v[0]['kind'] == 'no-end' else 1)
            left = LATEST[a.tier] - (time.monotonic() - t0)
            m = Minimiser(P, case, v[0]['kind'], budget=min(budget, max(left, 0.0)))
            m.minimise()
            c = copy.deepcopy(m.case)
            v2, meta2, _ = check_case(P, c, retries=0)
            if not v2:
                c = copy.deepcopy(case)
                v2, meta2, _ = check_case(P, c, retries=0)
        if not v2:
            print('seed %s: %s is not repeated, taken as a failure of the harness' % (seed, v[0]['detail'][:400]), file=sys.stderr)
            rc = 2
            continue
        path = write_replay(P, c, v2, meta2, os.path.join(HERE, 'replays'))
        out.append((path, v2, seed))
        print('seed %s, %s: %s' % (seed, v2[0]['kind'], v2[0]['detail'][:1500]))
        print('VIOLATION property=%s replay=%s' % (P.PROP, path))
        rc = 1
    wall = time.monotonic() - t0
    ev = evidence(P, a, sts, n, wall, out, known, ncorpus)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', P.PROP + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    harness = [h for st in sts for h in st['harness']]
    for seed, h in harness[:3]:
        print('seed %s cannot be executed: %s' % (seed, h[-1200:]), file=sys.stderr)
    tot = sum(st['cases'] for st in sts)
    if rc == 0 and harness and len(harness) > 0.03 * tot:
        rc = 2
    c = ev['coverage']
    print('%s: %d cases (%d non-trivial), %d simulated runs, %d faults injected, %d preemptions, %.0f s%s' % (
        P.PROP, c['evaluations'], c['distinct_nontrivial'], c['simulated_runs'], c['faults_injected'], c['preemptions'], wall,
        ', %d cases could not be executed' % len(harness) if harness else ''))
    return rc


def evidence(P, a, sts, n, wall, out, known, ncorpus):
    def tot(k):
        return sum(st[k] for st in sts)

    def cnt(k):
        c = collections.Counter()
        for st in sts:
            c.update(st[k])
        return dict(sorted(c.items(), key=lambda x: (-x[1], str(x[0]))))

    def union(k):
        s = set()
        for st in sts:
            s |= st[k]
        return s
    fired = cnt('fired')
    cov = {
        'evaluations': tot('cases'),
        'distinct_nontrivial': len(union('digests')),
        'rule': P.RULE,
        'samples': [s for st in sts for s in st['samples']][:2] or [{'none': 'the search did not start: a corpus case failed'}],
        'simulated_runs': tot('runs'),
        'runs_per_hour': int(tot('runs') * 3600 / max(wall, 1e-9)),
        'seeds_per_hour': int(tot('cases') * 3600 / max(wall, 1e-9)),
        'simulated_time': 'the library reads no clock; time is counted in executed lines of the library',
        'library_lines_executed': tot('lines'),
        'scheduling_points': tot('steps'),
        'faults_injected': sum(fired.values()),
        'faults_by_kind': fired,
        'distinct_fault_sites': len(union('firedsites')),
        'preemptions': tot('preempt'),
        'distinct_interleavings': len(union('traces')),
        'distinct_preemption_sites': len(union('sites')),
        'measure': 'interleavings: distinct sequences of (scheduling point, task chosen); sites: distinct library lines or calls at '
                   'which a task was preempted or a fault fired',
        'outcomes': cnt('res'),
        'quantifiers_exercised': cnt('cls'),
        'estimators_exercised': cnt('est'),
        'simulated_workers': cnt('joblib'),
        'cases_executed_twice': tot('repeated'),
        'of_which_identical_in_every_run': tot('repeated_same'),
        'not_identical': [x for st in sts for x in st['repeated_seeds']],
        'harness_errors': sum(len(st['harness']) for st in sts),
        'skipped': tot('skipped'),
        'stopped_by_wall_clock': any(st['capped'] for st in sts),
        'corpus_cases': ncorpus,
        'known_findings_still_failing': known,
        'real_components': 'all of quantificationlib, numpy, scipy, scikit-learn, cvxpy, quadprog',
        'stub_components': getattr(P, 'STUBS', 'estimators, regressors, user distances and RandomState objects of simq.stubs; sys.stdout'),
    }
    return {'property': P.PROP, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': a.seed,
            'level': 'exploration', 'coverage': cov,
            'assumptions': getattr(P, 'ASSUMPTIONS', [
                'preemption at line granularity of library code and at intercepted calls',
                'numerical libraries are deterministic for equal inputs (BLAS on one thread)']),
            'wall_s': round(wall, 2), 'violations': len(out)}


if __name__ == '__main__':
    sys.exit(main())
