"""C10: training-set predictions of a CV estimator are out-of-fold."""
from simq import stubs, world
from simq.props.common import *

PROP = 'C10'
CASES = 3000
RULE = ('a run counts as non-trivial when predictions over the training set of a trained CV_estimator were compared, example by example, '
        'with those of the fold models known not to have been trained with the example')
STUBS = 'estimator that remembers its training examples (simq.stubs.MemoClf); real scikit-learn splitters'


def split_spec(g, n, single):
    r = g.r
    ks = [(r.choice((2, 3, 5)), 2), ({'kind': 'kfold', 'n': r.choice((2, 3, 4))}, 1.5),
          ({'kind': 'kfold', 'n': r.choice((2, 3, 7)), 'shuffle': True, 'rs': r.randrange(99)}, 1),
          ({'kind': 'kfold_rs', 'n': r.choice((2, 3, 5)), 'rs': r.randrange(99)}, 1.5),
          ({'kind': 'kfold_none', 'n': r.choice((2, 3, 5))}, 1.5), ({'kind': 'skfold_none', 'n': r.choice((2, 3))}, 1),
          ({'kind': 'skfold', 'n': r.choice((2, 4)), 'shuffle': g.flip(0.5), 'rs': r.randrange(99)}, 1),
          ({'kind': 'skfold_rs', 'n': r.choice((2, 3)), 'rs': r.randrange(99)}, 1),
          ({'kind': 'rskfold', 'n': r.choice((2, 3)), 'rep': r.choice((1, 2, 3)), 'rs': r.randrange(99)}, 1.2),
          ({'kind': 'rskfold_none', 'n': r.choice((2, 3)), 'rep': 2}, 1),
          ({'kind': 'rkfold', 'n': r.choice((2, 3, 5)), 'rep': r.choice((2, 3)), 'rs': r.randrange(99)}, 1.2),
          ({'kind': 'rkfold_rs', 'n': r.choice((2, 3)), 'rep': r.choice((2, 3)), 'rs': r.randrange(99)}, 1.2),
          ({'kind': 'group', 'n': r.choice((2, 3))}, 1), ({'kind': 'logo'}, 1), ({'kind': 'sgroup', 'n': 2, 'shuffle': g.flip(0.5), 'rs': 3}, 0.7),
          ({'kind': 'sgroup_rs', 'n': 2, 'rs': r.randrange(99)}, 0.7), ({'kind': 'loo'}, 0.2), (None, 0.7)]
    if single:
        m = r.choice((2, 3, 5))
        fold = [i % m for i in range(n)]
        r.shuffle(fold)
        order = list(range(m))
        r.shuffle(order)
        ks += [({'kind': 'predef', 'fold': fold}, 1), ({'kind': 'list', 'fold': fold, 'order': order}, 1),
               ({'kind': 'iter', 'fold': fold, 'order': order}, 1),
               ({'kind': 'list', 'fold': fold, 'order': order + list(reversed(order))}, 1)]
        m2 = r.choice((2, 3, 4))
        fold2 = [i % m2 for i in range(n)]
        r.shuffle(fold2)
        ks += [({'kind': 'list', 'fold': fold, 'order': order, 'fold2': fold2, 'order2': list(range(m2))}, 1.5)]
        ks += [({'kind': 'list', 'fold': fold, 'order': order, 'perm': r.randrange(99)}, 1)]
        # one example alone in its fold
        alone, last = list(fold), order + [m]
        alone[r.randrange(n)] = m
        ks += [({'kind': 'list', 'fold': alone, 'order': last + (last if g.flip(0.5) else list(reversed(last)))}, 1)]
    return g.weighted(ks)


def gen(seed):
    g = G(seed)
    r = g.r
    k = r.choice((2, 2, 3, 3, 4))
    single = g.flip(0.5)
    d0 = g.data(k, n=r.choice((20, 30)), numeric=True, rowid=True, d=r.choice((1, 2)))
    g.s['data'][d0].pop('dup', None)
    for x in ('mem', 'offset', 'round'):
        g.s['data'][d0].pop(x, None)
    if g.flip(0.3):
        g.s['data'][d0]['mem'] = g.pick('F', 'view')
    datas = [d0]
    if not single:
        datas.append(g.data(k, like=d0))
        if g.flip(0.5):
            datas.append(g.data(k, like=d0, n=r.choice((20, 30, 36))))
    ns = [len(world.make_data(g.s['data'][d])[1]) for d in datas]
    ne = r.choice((1, 1, 2))
    for _ in range(ne):
        cv = split_spec(g, ns[0], single)
        s = {'kind': 'cv', 'base': {'kind': 'memo', 'uid': 'm%d' % len(g.s['ests'])}, 'cv': cv, 'avg': g.flip(0.5), 'voting': g.pick('hard', 'soft')}
        if isinstance(cv, dict) and cv['kind'] in ('group', 'logo', 'sgroup', 'sgroup_rs', 'lpo'):
            if not single and len(set(ns)) > 1:
                s['cv'] = {'kind': 'kfold_rs', 'n': 3, 'rs': 5}
            else:
                m = r.choice((3, 4, 6))
                gr = [i % m for i in range(ns[0])]
                if g.flip(0.7):
                    r.shuffle(gr)
                s['groups'] = gr
        if g.flip(0.2):
            s['n_jobs'] = r.choice((2, 3))
            g.s['knobs']['joblib'] = {'mode': g.pick('thread', 'process'), 'ro': False}
        if k > 2 and g.flip(0.15):
            s.pop('n_jobs', None)
            s = {'kind': 'fhm', 'base': s}
        g.s['ests'].append(s)
    bags = []
    for d in datas:
        g.s['bags'].append({'data': d, 'kind': 'train'})
        bags.append((len(g.s['bags']) - 1, 4))
        g.s['bags'].append({'data': d, 'kind': 'traincopy', 'order': g.pick('K', 'F', 'C')})
        bags.append((len(g.s['bags']) - 1, 2))
        g.s['bags'].append({'data': d, 'kind': 'trainmod', 'row': r.choice((0, -1, 7)), 'by': g.pick(1, 1e-3, 1e-6, 1e-9, 1e-12), 'col': g.pick(-1, -1, 0, 'all')})
        bags.append((len(g.s['bags']) - 1, 1))
    for _ in range(2):
        bags.append((g.bag(d0, kind=g.pick('rand', 'single')), 1.5))
    if g.flip(0.6):
        # the training examples in another order
        g.s['bags'].append({'data': r.choice(datas), 'kind': 'perm', 'seed': r.randrange(1000)})
        bags.append((len(g.s['bags']) - 1, 2))
    if g.flip(0.3):
        # as many examples as the training set
        bags.append((g.bag(d0, kind='rand', n=ns[0]), 1.5))
    ops, faults = [], []

    def noise():
        if g.flip(0.35):
            ops.append(g.op('np_draw', n=r.randrange(1, 9)))
        if g.flip(0.2):
            ops.append(g.op('np_seed', val=r.randrange(99)))
    for i in range(1 if single else r.choice((1, 2, 3))):
        for e in range(ne):
            o = g.op('efit', est=e, data=r.choice(datas))
            ops.append(o)
            if g.flip(0.1):
                faults.append(g.fault(o['id'], points=('est', 'est', 'line')))
                if g.s['ests'][e].get('cv', {}) and 'iter' not in str(g.s['ests'][e]):
                    ops.append(g.op('efit', est=e, data=o['data']))
            noise()
        for _ in range(r.choice((2, 4, 6))):
            e = r.randrange(ne)
            o = g.op(g.pick('eproba', 'eproba', 'epred'), est=e, bag=g.weighted(bags))
            ops.append(o)
            if g.flip(0.06):
                faults.append(g.fault(o['id'], points=('est', 'est', 'line')))
            noise()
    g.s['tasks'] = [ops]
    if 'joblib' in g.s['knobs']:
        g.s['sched'] = g.rate()
    g.s['faults'] = faults
    g.s['knobs']['np_state'] = r.randrange(1000)
    if g.flip(0.2):
        g.s['knobs']['interfere'] = g.pick('draw', 'seed')
    return {'scn': g.s}


def expected(models, rows, classes, train):
    """ (number of predictions per example, examples, classes): what the fold models answer """
    classes = [int(c) for c in classes]

    def answer(m, v):
        p = stubs.memo_proba(set(m['seen']), len(m['classes']), [v])[0]
        out = np.zeros(len(classes))
        for c, x in zip(m['classes'], p):
            out[classes.index(c)] = x
        return out
    per = []
    for v in rows:
        ms = [m for m in models if stubs.row_id(v) not in m['seen_set']] if train else models
        per.append(np.array([answer(m, v) for m in ms]))
    if len({len(p) for p in per}) != 1:
        return None
    return np.array(per).transpose(1, 0, 2)


def check(case, run):
    scn = case['scn']
    info = main_run(case, run)
    bad = faulted(info)
    data = [world.make_data(s) for s in scn['data']]
    out = []
    n = 0
    state = {}
    for o in ops_of(scn):
        got = info['res'][o['id']]
        if o['op'] == 'efit':
            if got['kind'] != 'ok':
                state[o['est']] = None
                continue
            ms = [e[2] for e in info['events'] if e[1] == 'memo' and e[2]['op'] == o['id'] and e[0] == uid_of(scn['ests'][o['est']])]
            if scn['ests'][o['est']]['kind'] == 'fhm':
                # the models of the problem 'first class against the rest'
                y = data[o['data']][1]
                first = np.unique(y)[0]
                total = len(ms)
                ms = [m for m in ms if len({(v, y[i] == first) for i, v in zip(m['seen'], m['y'])}) == len(set(m['y'])) and
                      len({bool(y[i] == first) for i in m['seen']}) == 2]
                if len(ms) * (len(np.unique(y)) - 1) != total or any(len(np.unique(y[m['seen']])) < len(np.unique(y)) for m in ms):
                    state[o['est']] = None
                    continue
            state[o['est']] = {'models': [dict(m, seen_set=set(m['seen'])) for m in ms], 'data': o['data']}
            continue
        if o['op'] not in ('eproba', 'epred') or o['id'] in bad or not state.get(o['est']):
            continue
        st = state[o['est']]
        s = scn['ests'][o['est']]
        fh = s['kind'] == 'fhm'
        if fh:
            s = s['base']
        X, y = data[st['data']]
        b = scn['bags'][o['bag']]
        Xb = bag_of(scn, data, b)
        train = Xb.shape == X.shape and np.array_equal(Xb, X)
        classes = np.unique(y)
        w = expected(st['models'], Xb[:, 0], [0, 1] if fh else classes, train)
        if w is None or not len(w):
            continue        # splitter that does not give partitions
        if got['kind'] != 'ok':
            if not fh:
                out.append(violation('refused', '%s: %s' % (o, show(got)), o['id']))
            continue
        v = got['val']['value']
        if fh:
            if o['op'] == 'epred':
                continue
            w = w[:, :, 1:2]
            v = v[:, 0:1]
        n += train
        if o['op'] == 'eproba':
            if s['avg']:
                ok = v.shape == w.shape[1:] and np.allclose(v, w.mean(axis=0), atol=1e-9)
            else:
                ok = v.shape == (w.shape[0] * w.shape[1], w.shape[2])
                if ok:
                    v3 = v.reshape(w.shape)
                    key = lambda a: np.sort(np.round(a[:, :, 0], 9), axis=0)
                    ok = np.allclose(key(v3), key(w), atol=1e-8) and np.allclose(v3.sum(axis=2), w.sum(axis=2), atol=1e-8)
        elif s['avg'] and s['voting'] == 'soft':
            ok = v.tolist() == classes[np.argmax(w.mean(axis=0), axis=1)].tolist()
        elif s['avg']:
            votes = np.array([[np.sum(np.argmax(w[:, i], axis=1) == c) for c in range(len(classes))] for i in range(w.shape[1])])
            ok = v.shape == (w.shape[1],) and all(votes[i][list(classes).index(v[i])] == votes[i].max() for i in range(len(v)))
        else:
            ok = v.shape == (w.shape[0] * w.shape[1],) and all(
                sorted(v.reshape(w.shape[:2])[:, i].tolist()) == sorted(classes[np.argmax(w[:, i], axis=1)].tolist())
                for i in range(w.shape[1]))
        if not ok:
            out.append(violation('fold', '%s over %s with splitter %s, averaged=%s voting=%s: the predictions are not those of %s. got %s' %
                                 (o, 'the training set' if train else 'a testing bag', s['cv'], s['avg'], s['voting'],
                                  'the models that did not see each example' if train else 'all the models', show(got)), o['id']))
    return out, {'nontrivial': n > 0, 'info': info}


def uid_of(s):
    while isinstance(s.get('base'), dict):
        s = s['base']
    return s['uid']


def bag_of(scn, data, b):
    k = b.get('kind')
    if k in ('train', 'traincopy'):
        return data[b['data']][0]
    if k == 'perm':
        X = data[b['data']][0]
        return X[np.random.RandomState(b['seed']).permutation(len(X))]
    if k == 'trainmod':
        X = np.array(data[b['data']][0])
        world.change(X, b)
        return X
    return world.make_bag(b, scn['data'][b['data']])
