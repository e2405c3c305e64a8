"""What the properties share: comparison of results, histories, reference runs."""
import copy

import numpy as np

from simq.gen import G, resolve_faults, WITHOUT, CRISP  # noqa

TOL = 1e-6


class Hang(Exception):
    """ A run does not end """
    def __init__(self, scn, what='hang'):
        super().__init__(what)
        self.scn = scn


def show(r):
    if r is None:
        return 'nothing'
    if r['kind'] == 'ok':
        return 'ok ' + ' '.join('%s=%s' % (k, np.array2string(v, precision=6, threshold=12).replace('\n', ' '))
                                for k, v in list(r['val'].items())[:3])
    if r['kind'] == 'exc':
        return 'raised %s: %s' % (r['type'], r['msg'][:160])
    return r['kind']


def equal_values(a, b, tol=TOL):
    if set(a) != set(b):
        return False
    for k in a:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.shape != y.shape:
            return False
        if x.dtype.kind in 'OUS' or y.dtype.kind in 'OUS':
            if x.tolist() != y.tolist():
                return False
        elif not np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True):
            return False
    return True


def same(a, b, tol=TOL):
    """ two outcomes a caller cannot tell apart """
    if a is None or b is None:
        return a is b
    if a['kind'] != b['kind']:
        return False
    if a['kind'] == 'ok':
        return equal_values(a['val'], b['val'], tol)
    return True


def ops_of(scn):
    out = list(scn.get('setup') or [])
    for t in scn['tasks']:
        out += t
    return out


def derive(scn, tasks=None, setup=None, **kw):
    """ a reference scenario: same world, fewer operations, no faults, no preemptions """
    d = {k: scn[k] for k in ('data', 'bags', 'ests', 'gens', 'regs', 'templates', 'objs', 'vars', 'files') if k in scn}
    d = copy.deepcopy(d)
    d['tasks'] = tasks if tasks is not None else []
    if setup:
        d['setup'] = setup
    d['sched'] = {'mode': 'none'}
    d['faults'] = []
    d['knobs'] = copy.deepcopy(scn.get('knobs', {}))
    d.update(kw)
    return d


def probing(scn, lines=False):
    """ the run also reports where the library makes the calls that can fail """
    return dict(scn, knobs=dict(scn.get('knobs') or {}, places=True, lines=lines))


def main_run(case, run):
    """ resolves the faults (first time only) and runs the scenario """
    scn = case['scn']
    if any('nth' not in f for f in scn['faults']):
        probe = run(probing(dict(scn, faults=[]), lines=any(f['point'] == 'line' for f in scn['faults'])))
        scn['faults'] = resolve_faults(scn['faults'], probe['counts'], probe['callsites'])
    return run(scn)


def faulted(info):
    return {f['op'] for f in info['fired']}


def violation(kind, detail, op=None):
    return {'kind': kind, 'detail': detail, 'op': op}


def distribution_errors(v, n_classes):
    """ what is wrong with a result as a distribution """
    if not v:
        return 'nothing'
    for k, a in v.items():
        a = np.asarray(a)
        if a.dtype.kind not in 'fiu':
            return 'not numeric'
        if a.size != n_classes or a.ndim > 1:
            return 'shape %s for %d classes' % (a.shape, n_classes)
        if not np.all(np.isfinite(a)):
            return 'not finite'
        if np.any(a < -1e-6):
            return 'negative'
        if abs(float(a.sum()) - 1) > 1e-5:
            return 'sum %.8f' % float(a.sum())
    return None
