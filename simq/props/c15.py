"""C15: every operation terminates."""
from simq.gen import SOLVER_Q
from simq.props.common import *

PROP = 'C15'
CASES = 3000
BUDGET = 8000000
RULE = ('a run counts as non-trivial when a parameter, the data, an argument or the behaviour of a collaborator was out of the ordinary '
        '(illegal, at the limit, degenerate, failing) and every operation ended within the budget of executed lines')
BAD = (0, -1, 1, 2, {'$float': 'nan'}, {'$float': 'inf'}, 0.5, -0.5)


def gen(seed):
    g = G(seed)
    g.large = 0
    r = g.r
    k = r.choice((2, 2, 3, 3, 4, 5))
    n = r.choice((8, 12, 20, 30, 45))
    over = {}
    if g.flip(0.45):
        over = g.choice(({'minper': 1, 'n': k}, {'const': True}, {'dup': True}, {'round': 0}, {'sep': 0.0}, {'offset': 1e8},
                         {'minper': 1, 'imb': True}, {'minper': 1}, {'minper': 2, 'n': 2 * k}, {'sep': 1e6}, {'round': -1}))
    d0 = g.data(k, n=over.pop('n', n), **over)
    datas = [d0] + ([g.data(k, like=d0)] if g.flip(0.3) else [])
    for _ in range(2):
        g.bag(d0)
    if g.flip(0.1):
        g.bag(d0, kind='empty')
    ops = []
    g.s['vars'] = []
    x = r.random()
    odd = bool(over)
    if x < 0.25:
        odd |= gen_gens(g, k, ops, datas)
    elif x < 0.37:
        gen_matrices(g, ops)
        odd = True
    elif x < 0.5:
        kinds = [('cv', 2), ('eoc', 1), ('pwk', 0.6)] + ([('fh', 1), ('fhm', 1), ('fht', 1.5), ('ddag', 1.5), ('cvfh', 1)] if k > 2 else [])
        e = g.est(k, kinds=kinds, data=d0)
        s = g.s['ests'][e]
        if s['kind'] == 'cv' and g.flip(0.4):
            s['cv'] = g.choice((1, 0, -1, 50, {'kind': 'loo'}, {'kind': 'kfold', 'n': 2}))
            odd = True
        if s['kind'] == 'pwk' and g.flip(0.5):
            s['n'] = r.choice((0, -1, 1000))
            odd = True
        for b in g.s['ests']:
            odd |= weird_est(g, b)
        for _ in range(r.choice((1, 2))):
            ops.append(g.op('efit', est=e, data=r.choice(datas), iseed=r.randrange(99), nest=r.choice((1, 3))))
            for b in range(len(g.s['bags'])):
                ops.append(g.op(g.pick('epred', 'eproba'), est=e, bag=b))
    elif x < 0.56:
        # a solver, or another collaborator, that fails for good at some point
        q = g.quant(k, only=SOLVER_Q + ('REGX', 'REGy', 'EoQ'), template=0.2, default_gen=0)
        p = g.s['objs'][q]['params']
        if g.flip(0.5) or isinstance(p.get('distance'), dict):
            p.pop('distance', None)
        if g.s['objs'][q]['cls'] in ('DFy', 'DFX', 'FriedmanME', 'AC', 'PAC') and g.flip(0.6):
            p['distance'] = g.pick('HD', 'L1')
        ops += [g.op('fit', obj=q, data=d0)] + [g.op('predict', obj=q, bag=r.randrange(2)) for _ in range(2)]
        f = g.fault(r.choice(ops[1:] if g.flip(0.8) else ops)['id'], points=('solver', 'solver', 'np', 'reg', 'est'))
        f.update(frac=0.0 if f['point'] == 'solver' or g.flip(0.3) else f['frac'], len=1000000)
        if f['point'] == 'solver':
            f['exc'] = g.pick('SolverError', '=nosol', 'SimAny', 'SimAny', 'MemoryError')
        g.s['faults'].append(f)
        odd = True
    else:
        for t in range(r.choice((1, 1, 2))):
            q = g.quant(k, template=0.2, share=0.3, default_gen=0.1, pure=g.flip(0.85))
            odd |= weird_params(g, g.s['objs'][q], k)
        for b in g.s['ests']:
            odd |= weird_est(g, b)
        for t in range(len(g.s['objs'])):
            for _ in range(r.choice((1, 1, 2))):
                ops.append(g.op('fit', obj=t, data=r.choice(datas)))
                for b in range(len(g.s['bags'])):
                    if g.flip(0.8):
                        ops.append(g.op('predict', obj=t, bag=b))
    for o in ops:
        if o['op'] in ('fit', 'gen') and g.flip(0.12):
            o['drop'] = g.pick('oneclass', 'lenmismatch', 'empty', 'nan', 'single')
            odd = True
    g.s['tasks'] = [ops]
    if not g.s['faults'] and g.flip(0.35):
        for _ in range(r.choice((1, 2))):
            g.s['faults'].append(g.fault(r.choice(ops)['id'], points=('est', 'np', 'np', 'solver', 'solver', 'reg', 'rng', 'dist', 'line')))
            f = g.s['faults'][-1]
            if f['point'] != 'line' and g.flip(0.4):
                # broken for good
                f.update(frac=0.0 if g.flip(0.5) else f['frac'], len=1000000)
                if f['point'] == 'solver' and g.flip(0.7):
                    f['exc'] = g.pick('SolverError', '=nosol', 'SimAny')
        odd = True
    if any(f['point'] == 'np' for f in g.s['faults']):
        g.s['knobs']['np'] = True
    g.s['knobs']['budget'] = BUDGET
    return {'scn': g.s, 'odd': odd}


def weird_est(g, e):
    """ an estimator whose outputs are not probabilities """
    if e['kind'] == 'stub':
        if g.flip(0.25):
            e['bad'] = g.pick('nan', 'zero', 'neg', 'big', 'one', 'inf', 'tiny', 'flat')
            return True
        return False
    return weird_est(g, e['base']) if isinstance(e.get('base'), dict) else False


def weird_params(g, q, k):
    r = g.r
    if g.flip(0.4):
        return False
    q = q if not isinstance(q.get('base'), dict) or g.flip(0.4) else q['base']
    p = q['params']
    cls = q['cls']
    if cls == 'EM':
        p['max_iter'] = r.choice((-1, 0, 1, 100, 1000, 0.5, {'$float': 'nan'}))
        p['epsilon'] = r.choice((0, -1, 1e-300, {'$float': 'nan'}, {'$float': 'inf'}, 1e-4))
    elif cls == 'SORDy':
        p['tol'] = r.choice((0, -1, 1e-12, 10, {'$float': 'nan'}, {'$float': 'inf'}))
    elif cls == 'QUANTy':
        p['n_quantiles'] = r.choice((0, -1, 1, 3, 64))
        p['tol'] = r.choice((0, -1, 1e-12, 10, {'$float': 'nan'}))
    elif cls in ('DFy', 'DFX', 'HDy', 'HDX', 'MMy', 'PDFOrdinaly', 'REGX', 'REGy'):
        p['n_bins'] = r.choice((0, -1, 1, 2, 100))
        if cls in ('DFy', 'DFX') and g.flip(0.4):
            p['tol'] = r.choice((0, -1, 1e-12, 10, {'$float': 'nan'}))
        if g.flip(0.1) and cls != 'PDFOrdinaly':
            p['bin_strategy'] = 'unknown'
    elif cls == 'PWKQuantifier':
        p['n_neighbors'] = r.choice((0, -1, 1000))
    elif cls == 'EoQ':
        p['n_quantifiers'] = r.choice((0, -1, 1))
        p['percentage_of_selected_models'] = r.choice((0, -1, 2.0, {'$float': 'nan'}))
    elif cls == 'FriedmanME' and k == 2:
        p['tol'] = r.choice((0, -1, 1e-12, 10))
    else:
        if cls in ('AC', 'PAC'):
            p['distance'] = g.pick('unknown', 'HD', 'L1')
    if cls in ('EDy', 'EDX', 'CvMy', 'DFy', 'DFX', 'QUANTy', 'FriedmanME') and g.flip(0.4):
        p['distance'] = {'$dist': g.pick('bad_nan', 'bad_inf', 'bad_negative', 'bad_const', 'bad_noise', 'bad_zero')}
    if q.get('gen') is not None and g.flip(0.6):
        weird_gen(g, g.s['gens'][q['gen']]['params'], k, q['gen'])
    return True


def weird_gen(g, p, k, e=None):
    r = g.r
    name = g.pick('min_prevalence', 'min_prevalence', 'min_prevalence', 'n_bags', 'bag_size', 'alphas', 'random_state', 'method')
    kind = g.s['gens'][e]['kind']
    if name == 'min_prevalence' and kind != 'cov':
        p['method'] = 'Uniform'
        m = r.choice((1.0, 0.999, 1.001, 0.5, 1.0 / 3, 1.3)) / k
        p['min_prevalence'] = g.choice((m, [m] * k, {'$arr': [m] * k}, [1.0] + [0.0] * (k - 1), [0.0] * (k - 1) + [1.0], [0.5, 0.5] + [0.0] * (k - 2),
                                    -0.1, 1.5, [0.2] * (k + 1), [0.2], {'$float': 'nan'}, [-0.2] + [0.1] * (k - 1), 1.0, 0.5))
        if g.flip(0.5):
            p['bag_size'] = r.choice((1, 2, k - 1, k, k + 1, 2 * k - 1, 7))
    elif name == 'alphas' and kind != 'cov':
        p['method'] = 'Dirichlet'
        p.pop('min_prevalence', None)
        p['alphas'] = g.choice((0, -1.0, 1e-300, 1e300, [0.0] * k, [1e-8] * k, [1.0] * (k + 1), {'$float': 'nan'}, None))
    elif name == 'method' and kind != 'cov':
        p['method'] = 'unknown'
    elif name == 'random_state':
        p['random_state'] = g.choice((None, 'seed', 1.5, -1))
    elif name == 'bag_size':
        p['bag_size'] = r.choice((0, -1, 1, 2, 2.5, 1000, None))
    else:
        p['n_bags'] = r.choice((0, -1, 1, 0.5, 500))


def gen_gens(g, k, ops, datas):
    r = g.r
    e = g.gen(k, seedkind=g.pick('int', 'rs', 'nprs'))
    odd = False
    if g.flip(0.8):
        weird_gen(g, g.s['gens'][e]['params'], k, e)
        odd = True
    for _ in range(r.choice((1, 2, 3))):
        ops.append(g.op('gen', gen=e, data=r.choice(datas)))
        if g.flip(0.3):
            p = {}
            weird_gen(g, p, k, e)
            for name in p:
                ops.append(g.op('setgen', gen=e, name=name, val=p[name]))
            odd = True
    return odd


def gen_matrices(g, ops):
    """ the routines that look for the nearest positive definite matrix, and the searches """
    r = g.r
    V = g.s['vars']
    n = r.choice((1, 2, 3, 5, 8))

    def call(fn, *args, **kw):
        ops.append(g.op('call', fn=fn, args=list(args), kw=kw))
    for _ in range(4):
        V.append({'kind': 'matrix', 'n': n, 'how': g.pick('zero', 'ones', 'rank1', 'rankdef', 'neg', 'indef', 'asym', 'huge', 'tiny', 'nan', 'inf',
                                                     'rounded', 'dist', 'scaled', 'nearzero', 'degdist', 'permdiag'),
                  'scale': r.choice((1.0, 1e-8, 1e-100, 1e-160, 1e8, 1e100)), 'seed': r.randrange(1 << 30)})
        call('optimization.' + g.pick('nearest_pd', 'nearest_pd', 'is_pd'), {'v': len(V) - 1})
    m = r.choice((2, 4))
    V += [{'kind': 'prev', 'shape': [m], 'seed': r.randrange(1 << 30)} for _ in range(3)]
    pos, neg, test = ({'v': len(V) - i} for i in (1, 2, 3))
    L = {'$dist': g.pick('user_l1', 'user_wiggly', 'bad_nan', 'bad_inf', 'bad_negative', 'bad_const', 'bad_noise')}
    tol = r.choice((1e-3, 0.5, 0, -1, 1e-15, 1e-300, 1e300, {'$float': 'nan'}))
    call('search.global_search', L, {'$lib': 'search.mixture_of_pdfs'}, test, tol, None, True, pos_distrib=pos, neg_distrib=neg)
    call('search.golden_section_search', L, {'$lib': 'search.mixture_of_pdfs'}, test, tol, r.choice((0, 0.5)), r.choice((0.5, 1.0, 0.2)),
         pos_distrib=pos, neg_distrib=neg)
    V.append({'kind': 'uniform', 'shape': [r.choice((1, 5, 40))], 'sort': True, 'seed': r.randrange(1 << 30)})
    pr = {'v': len(V) - 1}
    V.append({'kind': 'labels', 'shape': list(V[-1]['shape']), 'classes': [0, 1], 'seed': 1})
    y = {'v': len(V) - 1}
    V.append({'kind': 'value', 'val': [0, 1]})
    call('search.compute_quantiles', prevalence=r.choice((None, 0.0, 1.0, 0.37, 1.5, -0.5, {'$float': 'nan'})), probabilities=pr,
         n_quantiles=r.choice((0, 1, 2, 8, 100, -1)), y=y, classes={'v': len(V) - 1})
    if g.flip(0.5):
        g.r.shuffle(ops)


def check(case, run):
    scn = case['scn']
    info = main_run(case, run)
    out = []
    for o in ops_of(scn):
        got = info['res'].get(o['id'])
        lines = info['oplines'].get(o['id'], 0)
        if got is None:
            out.append(violation('no-end', '%s neither returned nor raised' % o, o['id']))
        elif (got['kind'] == 'exc' and 'StepBudget' in got['chain']) or lines > BUDGET:
            out.append(violation('no-end', '%s did not end within %d executed lines; it was executing %s; parameters: %s' %
                                 (o, BUDGET, info['overrun'], params_of(scn, o)), o['id']))
    return out, {'nontrivial': case['odd'] and bool(info['res']), 'info': info}


def params_of(scn, o):
    for name, key in (('objs', 'obj'), ('ests', 'est'), ('gens', 'gen')):
        if key in o:
            return scn[name][o[key]]
    return [scn['vars'][a['v']] if isinstance(a, dict) and 'v' in a else a for a in o.get('args', [])]
