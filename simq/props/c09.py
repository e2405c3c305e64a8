"""C09: every prediction is a distribution over the training classes."""
from simq import world
from simq.props.common import *

PROP = 'C09'
CASES = 2400
RULE = ('a run counts as non-trivial when at least one prediction returned for a degenerate bag, a degenerate training set or '
        'estimator, or after a failure or refit, and the distribution was checked')


def gen(seed):
    g = G(seed)
    r = g.r
    k = g.much(r.choice((2, 2, 3, 3, 4, 5)), 6, 7, 8, p=0.015)
    special = None
    if g.rl.random() < 0.2:
        # options and models that leave nothing to answer with
        special = g.rl.choice(('strategy', 'unknown', 'regression', 'distance', 'singular', 'lacking'))
        if special in ('distance', 'lacking'):
            k = 2
        elif special in ('unknown', 'singular'):
            k = max(k, 3)
    tiny = g.flip(0.4)
    over = {}
    if tiny:
        over['minper'] = r.choice((1, 1, 2, 3))
    d0 = g.data(k, n=r.choice((4, 8, 12)) if tiny else r.choice((20, 40)), **over)
    s0 = g.s['data'][d0]
    if g.flip(0.12):
        s0['const'] = True
    if g.flip(0.1):
        s0['sep'] = r.choice((0.0, 50.0))
    datas = [d0]
    for _ in range(r.choice((0, 0, 1, 2))):
        datas.append(g.data(k, like=d0, n=r.choice((6, 20, 30)), minper=r.choice((1, 2, 5))))
    pure = g.flip(0.7)
    only = None
    if g.flip(0.15):
        only = ('EoQ', 'EoQ') + (('OneVsRestQuantifier', 'FrankAndHallQuantifier') if k > 2 else ())
    only = {'strategy': ('EoQ',), 'unknown': ('PDFOrdinaly',), 'regression': ('REGX', 'REGy'), 'distance': ('QUANTy', 'DFy', 'DFX', 'FriedmanME'),
            'singular': ('DFy', 'DFX', 'MMy', 'FriedmanME', 'AC', 'PAC', 'EDy', 'EDX', 'CvMy'), 'lacking': ('PCC', 'PAC', 'EM', 'HDy', 'EDy')}.get(special, only)
    if special == 'unknown' and s0['lab'] == 'str':
        only = None
    q = g.quant(k, pure=pure, template=0.1, default_gen=0.03, est_kw={}, only=only)
    spec = g.s['objs'][q]
    if special:
        strange(g, special, spec, s0, datas)
    elif k > 2 and g.flip(0.05):
        # an ensemble whose members disagree on everything
        s0.update(sep=r.choice((0.0, 0.4)))
        spec = dissent(g, k)
    # folds that lack a class
    for e in g.s['ests']:
        if e['kind'] == 'cv' and g.flip(0.4):
            e['cv'] = {'kind': 'kfold', 'n': r.choice((2, 3, 5))}
            if g.flip(0.5):
                for d in g.s['data']:
                    d['order'] = 'sorted'
    # degenerate estimators more often
    for e in g.s['ests']:
        b = e
        while isinstance(b.get('base'), dict):
            b = b['base']
        if b['kind'] == 'stub' and g.flip(0.5):
            b['mode'] = g.pick('hard', 'tied', 'const', 'skew', 'swap')
            b['temp'] = r.choice((0.3, 1.0, 10.0))
    if world.is_without(spec) and spec['cls'] != 'REGX' and g.flip(0.3):
        datas.append(g.data(r.choice((2, 3, 4)) if spec['cls'] not in ('EoQ',) else k, like=d0, n=r.choice((10, 20)), minper=r.choice((1, 2, 5))))
    for _ in range(r.choice((3, 4, 5))):
        g.bag(d0, kind=g.weighted([('rand', 2), ('single', 3), ('oneclass', 2), ('far', 1.5), ('same', 1.5), ('train', 1),
                                   ('trainpart', 0.5)]))
        if g.flip(0.1):
            g.s['bags'][-1]['n'] = r.choice((2, 3))
        if 'lo' in g.s['bags'][-1]:
            g.s['bags'][-1]['lo'] = 0      # never empty
    nb = len(g.s['bags'])
    ops, faults = [], []
    for i in range(r.choice((1, 1, 2, 3))):
        f = g.op('fit', obj=q, data=r.choice(datas))
        if g.flip(0.1):
            f['drop'] = 'oneclass' if world.is_without(spec) and g.flip(0.4) else 'single'
        if g.flip(0.15):
            f['route'] = 'explicit'
        ops.append(f)
        if i and g.flip(0.2):
            faults.append(g.fault(f['id']))
        for b in r.sample(range(nb), min(nb, r.choice((1, 3, 5)))):
            p = g.op('predict', obj=q, bag=b)
            if g.flip(0.1):
                p['route'] = 'explicit'
            ops.append(p)
            if g.flip(0.15):
                faults.append(g.fault(p['id'], points=('solver', 'solver', 'dist', 'np', 'est', 'line')))
    if any(o.get('route') == 'explicit' and o['op'] == 'fit' for o in ops) or spec['cls'] in ('OneVsRestQuantifier', 'FrankAndHallQuantifier'):
        g.s['setup'] = [g.op('efit', est=i, data=d0) for i, e in enumerate(g.s['ests']) if e['kind'] != 'eoc']
        if spec['cls'] == 'OrdinalQuantificationTree':
            g.s['setup'] = []
            for o in ops:
                o.pop('route', None)
    g.s['tasks'] = [ops]
    g.s['faults'] = faults
    if any(f['point'] == 'np' for f in faults):
        g.s['knobs']['np'] = True
    return {'scn': g.s}


def strange(g, special, spec, s0, datas):
    r = g.rl
    p = spec['params']
    if special == 'strategy':
        p['combination_strategy'] = 'unknown'
    elif special == 'unknown' and spec['cls'] == 'PDFOrdinaly':
        p['distance'] = 'unknown'
    elif special == 'regression':
        g.s['regs'] = [{'kind': 'stub', 'uid': 'r%d' % i, 'below': r.choice((0.3, 1.0, 5.0))} for i in range(len(g.s['regs']))]
        if not g.s['regs']:
            g.s['regs'] = [{'kind': 'stub', 'uid': 'r0', 'below': r.choice((0.3, 1.0, 5.0))}]
            spec['reg'] = 0
    elif special == 'distance':
        p['distance'] = {'$dist': r.choice(('vec_nan', 'vec_inf', 'vec_negative', 'vec_const', 'vec_noise', 'vec_zero', 'vec_partly', 'vec_later', 'vec_later'))}
    elif special == 'singular':
        if spec['cls'] in ('DFy', 'DFX', 'MMy', 'FriedmanME', 'AC', 'PAC'):
            p['distance'] = 'L2'
            if spec['cls'] == 'MMy':
                p.pop('distance')
        for d in datas:
            if r.random() < 0.6:
                g.s['data'][d].update({r.choice(('samex', 'const')): True})
            g.s['data'][d]['sep'] = r.choice((0.0, 0.0, 0.4))
            if r.random() < 0.5:
                g.s['data'][d]['round'] = 0
        for e in g.s['ests']:
            b = e
            while isinstance(b.get('base'), dict):
                b = b['base']
            if b['kind'] == 'stub':
                b['mode'] = r.choice(('const', 'tied', 'blind', 'hard'))
    elif special == 'lacking':
        for e in g.s['ests']:
            if e['kind'] != 'cv':
                base = dict(e) if e['kind'] == 'stub' else {'kind': 'stub', 'uid': e.get('uid', 'e')}
                e.clear()
                e.update({'kind': 'cv', 'base': base, 'avg': r.random() < 0.75, 'voting': r.choice(('hard', 'soft'))})
            e['cv'] = {'kind': 'kfold', 'n': r.choice((2, 3, 5))}
            if r.random() < 0.3:
                e['base'] = {'kind': r.choice(('nb', 'tree', 'knn'))}
        for d in datas:
            g.s['data'][d]['order'] = 'sorted'


def dissent(g, k):
    r = g.r
    g.s['objs'].pop()
    e = len(g.s['ests'])
    g.s['ests'].append({'kind': 'eoc', 'base': {'kind': 'tree'} if g.flip(0.5) else g.stub(mode=g.pick('hard', 'soft'), temp=0.3)})
    n = r.choice((3, 4, 5, 6))
    g.s['gens'].append({'kind': 'prior', 'params': {'n_bags': 5, 'bag_size': r.choice((8, 12, 20)), 'random_state': r.randrange(999), 'min_prevalence': 0.12}})
    g.s['objs'].append({'cls': 'EoQ', 'et': e, 'es': e, 'base': {'cls': 'PCC', 'params': {}}, 'gen': len(g.s['gens']) - 1,
                        'params': {'n_quantifiers': n, 'combination_strategy': g.pick('median', 'median', 'prevalence_similarity', 'mean')}})
    return g.s['objs'][-1]


def check(case, run):
    scn = case['scn']
    info = main_run(case, run)
    out = []
    data = [world.make_data(s)[1] for s in scn['data']]
    allowed = {}
    settled = {}
    n = 0
    for o in ops_of(scn):
        if o['op'] == 'fit':
            y = data[o['data']]
            kk = 1 if o.get('drop') == 'oneclass' else len(np.unique(y))
            q = o['obj']
            if info['res'][o['id']]['kind'] == 'ok':
                allowed[q] = {kk}
                settled[q] = True
            else:
                allowed.setdefault(q, set()).add(kk)
                settled[q] = False
        elif o['op'] == 'predict' and info['res'][o['id']]['kind'] == 'ok':
            n += 1
            q = o['obj']
            v = info['res'][o['id']]['val']
            errs = [distribution_errors(v, kk) for kk in sorted(allowed.get(q, ()))]
            if not errs or all(errs):
                out.append(violation('not-a-distribution', '%s: %s (%s) %s %s' %
                                     (o, show(info['res'][o['id']]), errs, scn['objs'][q]['cls'], scn['objs'][q]['params']), o['id']))
    return out, {'nontrivial': n > 0, 'info': info}
