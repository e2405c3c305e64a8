"""C04: a shared estimator is trained once and its predictions are used as they are."""
from simq.props.common import *

PROP = 'C04'
CASES = 1300
RULE = ('a run counts as non-trivial when an estimator used by two or more fits (of one or several quantifiers, or as estimator of '
        'both sets) was trained by the library and at least one prediction was compared with the explicit route')


def ests_of(q):
    return [q[x] for x in ('et', 'es') if q.get(x) is not None]


def gen(seed):
    g = G(seed)
    g.seeded_cv = True
    r = g.r
    k = g.much(r.choice((2, 2, 3, 3, 4)), 6, 7, 8, p=0.015)
    d0 = g.data(k, n=r.choice((20, 30, 45)))
    datas = [d0] + ([g.data(k, like=d0)] if g.flip(0.6) else [])
    if g.flip(0.15):
        # examples with other labels, or without the last class: a trained estimator is kept all the same
        datas.append(g.data(k, like=d0, lab=g.pick('gap', 'int1', 'neg')) if k == 2 or g.flip(0.5) else g.data(k - 1, like=d0))
    nq = r.choice((1, 2, 2, 3, 4))
    family = r.random()
    only = None
    if k > 2 and family < 0.25:
        only = (g.pick('OneVsRestQuantifier', 'FrankAndHallQuantifier'),)
    elif family < 0.4:
        only = ('EoQ', 'EoQ', 'AC', 'PAC', 'EM')
    elif family < 0.8:
        only = ('CC', 'PCC', 'AC', 'PAC', 'DeBias', 'SORDy', 'QUANTy', 'DFy', 'HDy', 'MMy', 'EM', 'EDy', 'CvMy', 'FriedmanME', 'REGy',
                'ACOrdinal', 'PDFOrdinaly')
    for _ in range(nq):
        g.quant(k, share=0.85, template=0.3, only=only, exclude=WITHOUT + ('OrdinalQuantificationTree',), default_gen=0.05)
    for _ in range(r.choice((2, 3))):
        g.bag(d0)
    setup = []
    for e, s in enumerate(g.s['ests']):
        if s['kind'] != 'eoc' and g.flip(0.2):
            setup.append(g.op('efit', est=e, data=r.choice(datas)))
    ops = []
    todo = []
    for t in range(nq):
        todo.append(g.op('fit', obj=t, data=r.choice(datas)))
        for _ in range(r.choice((1, 2))):
            todo.append(g.op('predict', obj=t, bag=r.randrange(len(g.s['bags']))))
        if g.flip(0.4):
            todo.append(g.op('fit', obj=t, data=r.choice(datas)))
            todo.append(g.op('predict', obj=t, bag=r.randrange(len(g.s['bags']))))
    # operations of the objects interleaved, keeping the order of each object
    rows = [[o for o in todo if o['obj'] == t] for t in range(nq)]
    while any(rows):
        row = r.choice([x for x in rows if x])
        ops.append(row.pop(0))
    faults = []
    if g.flip(0.45):
        for _ in range(r.choice((1, 1, 2))):
            o = r.choice([o for o in ops if o['op'] == 'fit'])
            faults.append(g.fault(o['id'], points=('est', 'est', 'est', 'np', 'solver', 'line')))
            if g.flip(0.6):         # retry at once
                ops.insert(ops.index(o) + 1, dict(g.op('fit'), obj=o['obj'], data=o['data']))
    # a scikit-learn OneVsRestClassifier whose training fails half-way says that it is trained
    for e, s in enumerate(g.s['ests']):
        if s['kind'] == 'ovr' and faults and not any(o['est'] == e for o in setup):
            setup.append(g.op('efit', est=e, data=d0))
    g.s['setup'] = setup
    g.s['tasks'] = [ops]
    g.s['faults'] = faults
    g.s['knobs'] = {'estat': True}
    if any(f['point'] == 'np' for f in faults):
        g.s['knobs']['np'] = True
    return {'scn': g.s}


def explicit_ok(scn, q):
    for e in ests_of(q):
        s = scn['ests'][e]
        if s['kind'] == 'eoc':
            return False
        if q['cls'] in ('OneVsRestQuantifier', 'FrankAndHallQuantifier') and not stub_inside(s):
            return False
    return bool(ests_of(q))


def labels_of(scn, d):
    return scn['data'][d]['lab'], scn['data'][d]['k']


def stub_inside(s):
    return s['base']['kind'] == 'stub'


def check(case, run):
    scn = case['scn']
    info = main_run(case, run)
    out = []
    bad = faulted(info)
    res = info['res']
    ops = [o for o in ops_of(scn) if o['id'] in res]
    events = info['events']
    used = {}
    for o in ops:
        if o['op'] == 'fit':
            for e in ests_of(scn['objs'][o['obj']]):
                used[e] = used.get(e, 0) + 1
    estat = {int(i): s for i, s in info['estat'].items()}
    # 1. training events
    trained = [i for i in estat]
    if trained:
        ref = run(derive(scn, tasks=[[{'id': 't%d' % i, 'op': 'efit', 'est': i, 'data': estat[i]['data']} for i in trained
                                      if scn['ests'][i]['kind'] != 'eoc']], knobs={}))
    for i in trained:
        op = estat[i]['op']
        uid = 'e%d' % i
        a, b = info['marks'][op]
        during = [e for e in events[a:b] if e[0] == uid and e[1] == 'fit']
        later = [e for e in events[b:] if e[0] == uid and e[1] == 'fit']
        if later and scn['ests'][i]['kind'] != 'eoc':
            out.append(violation('retrained', 'estimator %d (%s), trained by %s, is trained again %d times afterwards' %
                                 (i, scn['ests'][i]['kind'], op, len(later)), op))
        if scn['ests'][i]['kind'] != 'eoc':
            a, b = ref['marks']['t%d' % i]
            want = sorted(e[2] for e in ref['events'][a:b] if e[0] == uid and e[1] == 'fit')
            if sorted(e[2] for e in during) != want:
                out.append(violation('trainings', 'estimator %d (%s): operation %s trains its models %d times, one training needs %d '
                                     '(or on other data)' % (i, scn['ests'][i]['kind'], op, len(during), len(want)), op))
        if estat[i]['altered'] and scn['ests'][i]['kind'] != 'eoc':
            out.append(violation('altered', 'estimator %d (%s) is changed after being trained by %s' % (i, scn['ests'][i]['kind'], op), op))
    # 2. the same predictions passed explicitly
    n = 0
    last = {}
    for o in ops:
        if o['op'] == 'fit':
            # a fit that failed leaves nothing to rely on
            last[o['obj']] = o if res[o['id']]['kind'] == 'ok' else None
        elif o['op'] == 'predict' and last.get(o['obj']) is not None and o['id'] not in bad:
            q = scn['objs'][o['obj']]
            if not explicit_ok(scn, q):
                continue
            f = last[o['obj']]
            if any(labels_of(scn, estat[e]['data']) != labels_of(scn, f['data']) for e in ests_of(q) if e in estat):
                # with an estimator of other classes only its training is of interest: what crisp predictions mean is not defined
                continue
            pre = [{'id': 'pre%d' % e, 'op': 'efit', 'est': e, 'data': estat[e]['data']} for e in sorted(set(ests_of(q))) if e in estat]
            key = (f['id'], o['obj'])
            ref = run(derive(scn, tasks=[pre + [dict(f, route='explicit'), dict(o, route='explicit')]], knobs={}))
            got, want = res[o['id']], ref['res'][o['id']]
            if ref['res'][f['id']]['kind'] != 'ok':
                if got['kind'] == 'ok':
                    out.append(violation('route', 'fit %s with the predictions passed explicitly: %s, with the estimators it completes' %
                                         (f, show(ref['res'][f['id']])), o['id']))
                continue
            if got['kind'] == 'ok':
                n += 1
            if not same(got, want):
                out.append(violation('route', '%s of %s with its estimators: %s, with their predictions passed explicitly: %s' %
                                     (o, q['cls'], show(got), show(want)), o['id']))
    return out, {'nontrivial': n > 0 and any(used.get(i, 0) > 1 for i in trained), 'info': info}
