"""C12: the caller's data is never modified."""
from simq.props.common import *

PROP = 'C12'
CASES = 1500
RULE = ('a run counts as non-trivial when at least two operations completed (or failed half-way by an injected failure), every '
        'object handed in was compared with its contents before, and the same history was run with read-only objects')
DISTS = ('l1', 'l2', 'hd', 'topsoe', 'jensenshannon', 'probsymmetric', 'mean_absolute_error', 'mean_squared_error', 'kld',
         'bray_curtis')


def gen(seed):
    g = G(seed)
    g.seeded_cv = True
    r = g.r
    g.s['vars'] = []
    x = r.random()
    if x < 0.24:
        gen_calls(g)
    elif x < 0.36:
        gen_gens(g)
    elif x < 0.5:
        gen_ests(g)
    else:
        gen_quants(g)
    for e in g.s['ests']:
        caching(g, e)
    ro = g.weighted([(True, 2), ('memmap', 1)])
    if any(f['point'] == 'np' for f in g.s['faults']):
        g.s['knobs']['np'] = True
    return {'scn': g.s, 'ro': ro}


def caching(g, e):
    """ half of the estimators return the same array again for the same examples """
    if e['kind'] == 'stub' and g.flip(0.4):
        e['out'] = 'cached'
    if isinstance(e.get('base'), dict):
        caching(g, e['base'])


def gen_quants(g):
    r = g.r
    k = r.choice((2, 2, 3, 3, 4))
    d0 = g.data(k, n=r.choice((20, 30, 45)))
    nq = r.choice((1, 1, 2))
    only = None
    if g.flip(0.12):
        only = ('EoQ',)
    for _ in range(nq):
        g.quant(k, share=0.5, template=0.3, default_gen=0.05, pure=g.flip(0.85), only=only)
    for _ in range(3):
        g.bag(d0)
    ops = []
    shared = g.flip(0.3)
    for t in range(nq):
        q = g.s['objs'][t]
        route = {}
        if g.flip(0.35) and explicit_ok(g, q):
            route = {'route': 'explicit'}
            g.s.setdefault('setup', [])
            for e in {q.get('et'), q.get('es')} - {None}:
                if not any(o['est'] == e for o in g.s['setup']):
                    g.s['setup'].append(g.op('efit', est=e, data=d0))
        for _ in range(r.choice((1, 1, 2))):
            o = g.op('fit', obj=t, data=d0, **route)
            if q['cls'] == 'EoQ' and g.flip(0.4) and not (route and g.s['ests'][q.get('et') or 0]['kind'] == 'eoc'):
                o.update(given=q['params']['n_quantifiers'], iseed=r.randrange(99))
            ops.append(o)
            for _ in range(r.choice((1, 2))):
                p = g.op('predict', obj=t, bag=r.randrange(3), **route)
                if shared:
                    p['buf'] = 0
                ops.append(p)
    g.s['tasks'] = [ops]
    if g.flip(0.45):
        for _ in range(r.choice((1, 2))):
            o = r.choice(ops)
            g.s['faults'].append(g.fault(o['id'], points=('est', 'np', 'np', 'np', 'reg', 'solver', 'dist', 'rng', 'line')))
    g.s['setup'] = g.s.get('setup', []) + [g.op('efit', est=i, data=d0) for i, s in enumerate(g.s['ests']) if s['kind'] == 'ovr' and
                                         not any(o['est'] == i for o in g.s.get('setup', []))]


def explicit_ok(g, q):
    if q['cls'] in WITHOUT or q['cls'] == 'OrdinalQuantificationTree':
        return False
    if q['cls'] in ('OneVsRestQuantifier', 'FrankAndHallQuantifier', 'EoQ') and q['base'].get('cls') in WITHOUT if isinstance(
            q.get('base'), dict) else False:
        return False
    if isinstance(q.get('base'), int):
        return False
    es = [g.s['ests'][q[x]] for x in ('et', 'es') if q.get(x) is not None]
    if not es or any(e['kind'] == 'eoc' for e in es):
        return False
    return True


def gen_ests(g):
    r = g.r
    k = r.choice((2, 3, 3, 4))
    d0 = g.data(k, n=r.choice((20, 30, 45)))
    n = 5
    kinds = [('cv', 2), ('eoc', 1.5), ('pwk', 0.6)] + ([('fh', 1), ('fhm', 1), ('fht', 1), ('ddag', 1), ('cvfh', 1)] if k > 2 else [])
    e = g.est(k, kinds=kinds, data=d0, pure=g.flip(0.85))
    s = g.s['ests'][e]
    size = data_size(g.s['data'][d0])
    if s['kind'] == 'cv' and g.flip(0.3):
        s['cv'] = g.choice(({'kind': 'group', 'n': 2}, {'kind': 'logo'}, {'kind': 'sgroup', 'n': 2}, {'kind': 'lpo'}))
        s['groups'] = [i % 3 for i in range(size)]
    elif s['kind'] == 'cv' and g.flip(0.3):
        # the caller's splits
        m = r.choice((2, 3))
        fold = [i % m for i in range(size)]
        r.shuffle(fold)
        s['cv'] = g.choice(({'kind': 'list', 'fold': fold, 'order': list(range(m))},
                            {'kind': 'list', 'fold': fold, 'order': list(range(m)), 'perm': r.randrange(99)},
                            {'kind': 'predef', 'fold': fold}))
    if s['kind'] == 'cv' and g.flip(0.3) and s['base']['kind'] == 'stub':
        s['sw'] = [0.5 + r.random() for _ in range(size)]
    if s['kind'] in ('fh', 'fhm', 'fht') and g.flip(0.5) and s['base']['kind'] == 'stub':
        s['params_fit'] = [{'temp': r.choice((0.5, 1.0, 2.0))} for _ in range(k - 1)]
    for _ in range(3):
        g.bag(d0)
    ops = []
    for _ in range(r.choice((1, 2))):
        ops.append(g.op('efit', est=e, data=d0, iseed=r.randrange(99), nest=r.choice((2, 3, 4))))
        for _ in range(r.choice((2, 3))):
            ops.append(g.op(g.pick('epred', 'eproba'), est=e, bag=r.randrange(3)))
    g.s['tasks'] = [ops]
    if g.flip(0.35):
        g.s['faults'].append(g.fault(r.choice(ops)['id'], points=('est', 'np', 'np', 'line')))


def data_size(s):
    from simq import world
    return len(world.make_data(s)[1])


def gen_gens(g):
    r = g.r
    k = r.choice((2, 3, 3, 4, 5))
    d0 = g.data(k, n=r.choice((20, 30, 60)))
    datas = [d0] + ([g.data(k, like=d0)] if g.flip(0.4) else [])
    e = g.gen(k, seedkind=g.pick('int', 'rs', 'rs', 'nprs'))
    p = g.s['gens'][e]['params']
    for name in ('alphas', 'min_prevalence'):
        if isinstance(p.get(name), list) and g.flip(0.5):
            p[name] = {'$arr': p[name]}
    ops = []
    for _ in range(r.choice((1, 2, 3))):
        ops.append(g.op('gen', gen=e, data=r.choice(datas)))
        if g.flip(0.3):
            ops.append(g.op('setgen', gen=e, name='n_bags', val=r.choice((2, 4, 9))))
    g.s['tasks'] = [ops]
    if g.flip(0.4):
        g.s['faults'].append(g.fault(r.choice(ops)['id'], points=('rng', 'np', 'np', 'line')))


def gen_calls(g):
    r = g.r
    V = g.s['vars']

    def var(kind, **kw):
        s = dict(kw, kind=kind, seed=r.randrange(1 << 30))
        if g.flip(0.3):
            s['mem'] = r.choice(('F', 'view', 'f32'))
        V.append(s)
        return {'v': len(V) - 1}
    n = r.choice((2, 2, 3, 5))
    rows = r.choice((1, 3, 6))
    ops = []
    p, q = var('prev', shape=[n], zeros=g.flip(0.4)), var('prev', shape=[n], zeros=g.flip(0.4))
    P, Q = var('prev', shape=[rows, n], zeros=g.flip(0.3)), var('prev', shape=[rows, n], zeros=g.flip(0.3))
    L = {'$lib': 'metrics.multiclass.%s' % r.choice(DISTS[:6])}
    family = g.pick('multi', 'ordinal', 'binary', 'plot', 'data', 'search', 'sord', 'quant', 'opt', 'ed', 'pd', 'asc', 'bins')

    def call(fn, *args, **kw):
        ops.append(g.op('call', fn=fn, args=list(args), kw=kw))
    if family == 'multi':
        for _ in range(4):
            f = r.choice(DISTS + ('brier_multi',))
            call('metrics.multiclass.' + f, *((P, Q) if f == 'brier_multi' or g.flip(0.4) else (p, q)))
        yt, yp = (var('labels', shape=[12], classes=g.choice(([0, 1, 2], [-1, 1], [3, 7, 9, 20]))) for _ in range(2))
        V[yp['v']]['classes'] = V[yt['v']]['classes'][:r.choice((1, 2, 3))]
        call('metrics.multiclass.geometric_mean', yt, yp, **({'correction': 0.01} if g.flip(0.5) else {}))
    elif family == 'ordinal':
        call('metrics.ordinal.emd', p, q)
        call('metrics.ordinal.emd_score', p, q)
        call('metrics.ordinal.emd_distances', P, Q)
        call('metrics.ordinal.emd_distances', P, P)
        call('metrics.ordinal.emd', P, Q)
    elif family == 'binary':
        a, b = var('uniform', shape=[]), var('uniform', shape=[])
        V[a['v']].pop('mem', None), V[b['v']].pop('mem', None)
        A, B = var('uniform', shape=[4]), var('uniform', shape=[4])
        for f in ('binary_kld', 'bias', 'absolute_error', 'squared_error', 'relative_absolute_error',
                  'symmetric_absolute_percentage_error', 'normalized_absolute_score', 'normalized_squared_score'):
            call('metrics.binary.' + f, *((A, B) if f in ('bias', 'absolute_error', 'squared_error') and g.flip(0.5) else (a, b)))
    elif family == 'plot':
        m = var('prev', shape=[r.choice((3, 8)), n])
        cols = r.sample(range(n), r.choice((1, min(2, n))))
        V.append({'kind': 'list', 'val': cols})
        c = {'v': len(V) - 1}
        V.append({'kind': 'list', 'val': ['red', 'green', 'blue', 'gold', 'navy'][:n]})
        colors = {'v': len(V) - 1}
        V.append({'kind': 'list', 'val': ['m%d' % i for i in range(n)]})
        labels = {'v': len(V) - 1}
        for _ in range(2):
            call('plot.qlplot._sort_rows_bycolumns', m, c, order=g.pick('ascending', 'descending'))
            call('plot.qlplot.plot_line_prevalences', m, order=g.pick(None, 'ascending', 'descending'),
                 **({'colors': colors} if g.flip(0.6) else {}))
        err = g.choice((m, var('uniform', shape=[7, n])))
        call('plot.qlplot.plot_boxes', err, labels=labels, y_title='y', **({'colors': colors} if g.flip(0.6) else {}))
    elif family == 'asc':
        for _ in range(3):
            call('decomposition.ordinal.FrankAndHallQuantifier.check_and_correct_prevalences_asc',
                 var('uniform', shape=[r.choice((2, 3, 5, 7))], sort=g.flip(0.3)))
    elif family == 'bins':
        m = r.choice((8, 20))
        kk = r.choice((2, 3))
        x = var('normal', shape=[m, r.choice((1, 2, 3))])
        y = var('labels', shape=[m], classes=list(range(kk)))
        V.append({'kind': 'value', 'val': list(range(kk))})
        cl = {'v': len(V) - 1}
        for st in r.sample(['equal_width', 'equal_count', 'normal'] + (['binormal'] if kk == 2 else []), 3):
            ar = {}
            if g.flip(0.5):
                V.append({'kind': 'value', 'val': [[-3.0, 3.0]]})
                ar['att_range'] = {'v': len(V) - 1}
            call('multiclass.df.compute_bincuts', x, y, cl, r.choice((2, 3, 8)), st, **ar)
    elif family == 'data':
        A, B = var('normal', shape=[10, n]), var('normal', shape=[6, n])
        call('data_utils.normalize', A, B)
        call('data_utils.normalize', A, A)
        call('data_utils.normalize', A, B)
    elif family == 'search':
        m = r.choice((2, 4, 6))
        pos, neg, test = (var('prev', shape=[m]) for _ in range(3))
        if g.flip(0.5):
            L = {'$dist': g.pick('user_l1', 'user_l2', 'user_wiggly')}
        mix = {'$lib': 'search.mixture_of_pdfs'}
        call('search.mixture_of_pdfs', prevalence=0.3, pos_distrib=pos, neg_distrib=neg)
        call('search.global_search', L, mix, test, 0.01, None, True, pos_distrib=pos, neg_distrib=neg)
        call('search.global_search', L, mix, test, 0.01, None, False, pos_distrib=pos, neg_distrib=neg)
        M = var('prev', shape=[101, m])
        call('search.global_search', L, mix, test, 0.01, M, True, pos_distrib=pos, neg_distrib=neg)
        call('search.golden_section_search', L, mix, test, 0.01, 0.0, 1.0, pos_distrib=pos, neg_distrib=neg)
    elif family == 'sord':
        m = r.choice((6, 12))
        lab = var('labels', shape=[m], classes=[-1, 1, 2])
        V[lab['v']].pop('mem', None)
        V.append({'kind': 'value', 'val': [-1, 1]})
        cl = {'v': len(V) - 1}
        u = var('uniform', shape=[m, 1], sort=True)
        w = var('normal', shape=[m, 1])
        call('search.compute_sord_weights', prevalence=0.3, union_labels=lab, classes=cl)
        call('search.sord', w, u)
        call('search.compute_sord_weights', prevalence=0.6, union_labels=lab, classes=cl)
    elif family == 'quant':
        m = r.choice((7, 16))
        pr = var('uniform', shape=[m], sort=True)
        y = var('labels', shape=[m], classes=[0, 1])
        V[y['v']].pop('mem', None)
        V.append({'kind': 'value', 'val': [0, 1]})
        cl = {'v': len(V) - 1}
        for prev in (0.3, None, 0.9):
            call('search.compute_quantiles', prevalence=prev, probabilities=pr, n_quantiles=r.choice((2, 4, 8)), y=y, classes=cl)
    elif family == 'opt':
        m = r.choice((3, 5))
        T = var('colprev', shape=[m, n])
        t = var('prev', shape=[m])
        if g.flip(0.3):
            t = var('colprev', shape=[m, 1])
        V[T['v']].pop('mem', None), V[t['v']].pop('mem', None)
        f = g.pick('optimization.solve_l1', 'optimization.solve_hd')
        call(f, T, t, n_classes=n, **({'solver': 'ECOS'} if g.flip(0.5) else {}))
        V.append({'kind': 'value', 'val': list(range(n))})
        cl = {'v': len(V) - 1}
        call('optimization.compute_l2_param_train', T, cl)
        Gm = var('spd', shape=[n])
        V[Gm['v']].pop('mem', None)
        V.append({'kind': 'value', 'val': [[1.0] + [1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]})
        C = {'v': len(V) - 1}
        V.append({'kind': 'value', 'val': [1.0] + [0.0] * n})
        b = {'v': len(V) - 1}
        call('optimization.solve_l2', T, t, Gm, C, b)
        call('optimization.solve_l2', T, t, Gm, C, b)
    elif family == 'ed':
        V.append({'kind': 'dict', 'classes': list(range(n)), 'shape': [5, 2], 'seed': r.randrange(1 << 30)})
        D = {'v': len(V) - 1}
        t = var('uniform', shape=[6, 2])
        V.append({'kind': 'value', 'val': list(range(n))})
        cl = {'v': len(V) - 1}
        V.append({'kind': 'value', 'val': [[5.0]] * n})
        nc = {'v': len(V) - 1}
        K = var('sym', shape=[n])
        dist = {'$dist': g.pick('user_manhattan', 'user_euclid')}
        call('optimization.compute_ed_param_train', dist, D, cl, nc)
        call('optimization.compute_ed_param_test', dist, D, t, K, cl, nc)
        Gm = var('spd', shape=[n])
        a = var('normal', shape=[n])
        V[Gm['v']].pop('mem', None), V[a['v']].pop('mem', None)
        V.append({'kind': 'value', 'val': [[-1.0] + [1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]})
        C = {'v': len(V) - 1}
        V.append({'kind': 'value', 'val': [-1.0] + [0.0] * n})
        call('optimization.solve_ed', Gm, a, C, {'v': len(V) - 1})
        call('optimization.solve_ed', Gm, a, C, {'v': len(V) - 1})
    else:
        for kind in ('spd', 'sym', 'sym'):
            m = var(kind, shape=[n + 1])
            V[m['v']].pop('mem', None)
            for f in ('dpofa', 'is_pd', 'nearest_pd'):
                call('optimization.' + f, m)
    for o in ops:
        if o['fn'] in ('optimization.solve_l2', 'optimization.solve_ed'):
            for a in o['args']:           # quadprog only takes writable buffers
                V[a['v']]['rw'] = True
    if g.flip(0.5):
        ops += [g.op('call', **{k: o[k] for k in ('fn', 'args', 'kw')}) for o in g.r.sample(ops, min(2, len(ops)))]
    g.s['tasks'] = [ops]
    if g.flip(0.3):
        g.s['faults'].append(g.fault(r.choice(ops)['id'], points=('np', 'np', 'dist', 'solver', 'line')))


def altered(info):
    return ([x for x in info['mutated']] + ['output of ' + x for x in info['cached_altered']] +
            [x for x in info['templates'] if x.startswith(('reg', 'template'))])


def check(case, run):
    scn = case['scn']
    info = main_run(case, run)
    out = []
    bad = altered(info)
    if bad:
        out.append(violation('altered', 'after %s these objects of the caller are not as they were: %s' % (brief(scn, info), bad)))
    if info['aliased']:
        out.append(violation('altered', 'after %s the arrays that %s returned are not as they were' % (brief(scn, info), info['aliased'])))
    d = derive(scn, tasks=scn['tasks'], setup=scn.get('setup'))
    d['faults'] = scn['faults']
    d['knobs'] = dict(scn['knobs'], ro=case['ro'])
    for e in d['ests']:
        readonly(e)
    info2 = run(d)
    n = 0
    bad2 = altered(info2)
    if bad2:
        out.append(violation('altered', 'after %s these read-only objects of the caller are not as they were: %s' %
                             (brief(scn, info2), bad2)))
    for o in ops_of(scn):
        a, b = info['res'].get(o['id']), info2['res'].get(o['id'])
        if a is None or b is None:
            continue
        if a['kind'] == 'ok' or a.get('injected'):
            n += 1
        if not same(a, b):
            out.append(violation('read-only', '%s: %s, with %s objects: %s' % (
                o, show(a), 'memory-mapped' if case['ro'] == 'memmap' else 'read-only', show(b)), o['id']))
    return out, {'nontrivial': n >= 2, 'info': info, 'infos': [info, info2]}


def readonly(e):
    if e['kind'] == 'stub':
        e['out'] = 'ro'
    if isinstance(e.get('base'), dict):
        readonly(e['base'])


def brief(scn, info):
    return ', '.join('%s %s (%s)' % (o['op'], o.get('fn', o['id']), info['res'][o['id']]['kind'] if info['res'][o['id']]['kind'] == 'ok' else
                                     info['res'][o['id']]['type']) for o in ops_of(scn) if o['id'] in info['res'])
