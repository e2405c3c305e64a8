"""C07: generated bags are complete and say what they contain."""
import json

from simq import world
from simq.props.common import *

PROP = 'C07'
CASES = 2600
RULE = ('a run counts as non-trivial when at least two calls of generate_bags returned after a history (an earlier call, a failure, a '
        'change of parameters, another dataset or another caller) and their bags were checked')


def gen(seed):
    g = G(seed)
    r = g.r
    k = g.much(r.choice((2, 2, 3, 3, 4, 5, 6)), 6, 7, 8, p=0.015)
    datas = [g.data(k, n=r.choice((20, 30, 45, 80)))]
    for _ in range(r.choice((0, 1, 2))):
        datas.append(g.data(k if g.flip(0.6) else r.choice((2, 3, 4, 5)), like=0, n=r.choice((20, 33, 50)), lab=g.s['data'][0]['lab']))
    if g.flip(0.12):
        # many examples
        g.s['data'][0]['n'] = r.choice((130, 300, 300, 700, 40000, 70000))
    for d in g.s['data']:
        if g.flip(0.12):
            d[g.pick('samex', 'const', 'dup')] = True
    ng = r.choice((1, 1, 2))
    conc = g.flip(0.3)
    for _ in range(ng):
        kind = g.weighted([('int', 4), ('rs', 2), ('nprs', 1)]) if not conc else 'int'
        e = g.gen(k, seedkind=kind, n_bags=r.choice((1, 2, 5, 12, 30)))
        p = g.s['gens'][e]['params']
        if g.flip(0.3):
            p['bag_size'] = r.choice((1, 2, 3, 7, 50, 120))
        if g.flip(0.05):
            p['bag_size'], p['n_bags'] = r.choice(((300, 3), (1000, 2), (10, 300), (40000, 1)))
        if p.get('bag_size') is None and g.s['gens'][e]['kind'] != 'prior':
            p['bag_size'] = 20
        if g.s['gens'][e]['kind'] != 'cov' and g.flip(0.25):
            # requests at the limit of what can be satisfied
            p['method'] = 'Uniform'
            p.pop('alphas', None)
            m = r.choice((1.0, 0.99, 0.9)) / k
            p['min_prevalence'] = g.choice((round(m, 4), [round(m, 4)] * k, {'$arr': [1.0] + [0.0] * (k - 1)}, [0.5] + [0.5 / (k - 1)] * (k - 1)))
    if g.flip(0.15) and ng < 3:
        # another class, equal parameters
        s = json.loads(json.dumps(g.s['gens'][0]))
        if s['kind'] != 'cov' and s['params'].get('bag_size'):
            s['kind'] = 'both' if s['kind'] == 'prior' else 'prior'
        if not (conc and isinstance(s['params']['random_state'], dict)):
            g.s['gens'].append(s)
            ng += 1
    ops, faults = [], []

    def call(e=None):
        o = g.op('gen', gen=r.randrange(ng) if e is None else e, data=r.choice(datas))
        if g.flip(0.08):
            o['drop'] = g.pick('lenmismatch', 'empty', 'oneclass')
        ops.append(o)
        if g.flip(0.2):
            faults.append(g.fault(o['id'], points=('rng', 'rng', 'np', 'line')))
    n = r.choice((2, 3, 4, 6))
    for _ in range(n):
        call()
        if not conc and g.flip(0.3):
            e = r.randrange(ng)
            name = g.pick('n_bags', 'bag_size', 'random_state', 'min_prevalence')
            if name == 'min_prevalence' and g.s['gens'][e]['kind'] == 'cov':
                name = 'n_bags'
            val = {'n_bags': r.choice((1, 4, 9)), 'bag_size': r.choice((5, 16, 25)), 'random_state': r.randrange(99),
                   'min_prevalence': g.choice((None, 0.0, round(0.5 / k, 3)))}[name]
            ops.append(g.op('setgen', gen=e, name=name, val=val))
        if g.flip(0.1):
            ops.append(g.op('copy', what='gen', obj=r.randrange(ng), how=g.pick('deepcopy', 'pickle')))
    if conc:
        h = max(1, len(ops) // 2)
        g.s['tasks'] = [ops[:h], ops[h:]]
        g.s['sched'] = g.rate()
    else:
        g.s['tasks'] = [ops]
    g.s['faults'] = faults
    if any(f['point'] == 'np' for f in faults):
        g.s['knobs']['np'] = True
    return {'scn': g.s}


def check(case, run):
    scn = case['scn']
    info = main_run(case, run)
    out = []
    params = [dict(s['params']) for s in scn['gens']]
    data = [world.make_data(s) for s in scn['data']]
    n = 0
    bad = faulted(info)
    byid = {o['id']: o for o in ops_of(scn)}
    for oid in info['order']:
        o = byid[oid]
        if o['op'] == 'setgen':
            params[o['gen']][o['name']] = o['val']
            continue
        if o['op'] != 'gen':
            continue
        got = info['res'][oid]
        X, y = data[o['data']]
        p = params[o['gen']]
        if got['kind'] != 'ok':
            # legal requests are answered
            if oid not in bad and not o.get('drop') and legal(scn['gens'][o['gen']]['kind'], p, y):
                out.append(violation('refused', '%s of %s: %s' % (o, p, show(got)), oid))
            continue
        if o.get('drop') == 'lenmismatch':
            y = y[:-1]
        elif o.get('drop') == 'oneclass':
            y = y[y == y[0]]
        elif o.get('drop') == 'empty':
            y = y[:0]
        n += 1
        e = bags_errors(scn['gens'][o['gen']]['kind'], p, y, got['val']['prev'], got['val']['idx'])
        if e:
            out.append(violation('bags', '%s of a %s generator with %s after %s: %s' %
                                 (o, scn['gens'][o['gen']]['kind'], p, info['order'][:info['order'].index(oid)], e), oid))
    for oid in info['aliased']:
        out.append(violation('changed-later', 'the bags returned by %s were changed by a later call' % oid, oid))
    return out, {'nontrivial': n > 1, 'info': info}


def legal(kind, p, y):
    k = len(np.unique(y))
    b = p.get('bag_size') or len(y)
    if kind == 'cov':
        return True
    if p.get('method') == 'Dirichlet':
        al = world.resolve(p.get('alphas'))
        return np.ndim(al) == 0 or len(al) == k
    mp = world.resolve(p.get('min_prevalence'))
    if mp is None:
        return True
    if np.ndim(mp) == 1 and len(mp) != k:
        return False
    if np.sum(np.ones(k) * np.asarray(mp, dtype=float)) > 1:
        return False
    need = np.round(np.ones(k) * np.asarray(mp, dtype=float) * b)
    return need.sum() < b - 1


def bags_errors(kind, p, y, prev, idx):
    classes = np.unique(y)
    k = len(classes)
    b = p.get('bag_size') or len(y)
    if idx.shape != (b, p['n_bags']):
        return 'indexes have shape %s, not %s' % (idx.shape, (b, p['n_bags']))
    if idx.dtype.kind not in 'iu':
        return 'indexes are not integers (%s)' % idx.dtype
    if idx.size and (idx.min() < 0 or idx.max() >= len(y)):
        return 'indexes out of range: %d..%d of %d examples' % (idx.min(), idx.max(), len(y))
    if prev.shape != (k, p['n_bags']):
        return 'prevalences have shape %s, not %s' % (prev.shape, (k, p['n_bags']))
    mp = world.resolve(p.get('min_prevalence')) if kind != 'cov' and p.get('method', 'Uniform') == 'Uniform' else None
    if np.ndim(mp) == 1 and len(mp) != k:
        mp = None
    below = []
    for j in range(p['n_bags']):
        cnt = np.array([np.sum(y[idx[:, j]] == c) for c in classes])
        if not np.allclose(cnt / float(b), prev[:, j], atol=1e-9, rtol=0):
            return 'bag %d contains %s of each class, its prevalences are %s' % (j, cnt.tolist(), prev[:, j].tolist())
        if abs(prev[:, j].sum() - 1) > 1e-9:
            return 'the prevalences of bag %d sum to %r' % (j, prev[:, j].sum())
        if mp is not None:
            low = np.ones(k) * np.asarray(mp, dtype=float) * b - 0.5 - 1e-9
            if np.any(cnt < low):
                below.append('bag %d contains %s of each class, minimum prevalences are %s of %d' % (j, cnt.tolist(), mp, b))
    # half of the bags of a generator of both kinds simulate covariate shift, without minimum prevalences
    if len(below) > ((p['n_bags'] + 1) // 2 if kind == 'both' else 0):
        return below[0]
    return None
