"""C02: refits and retries equal a first fit."""
from simq.props.common import *
from simq.props.c04 import explicit_ok, labels_of

PROP = 'C02'
CASES = 2600
RULE = ('a run counts as non-trivial when, after a history with at least one earlier fit (completed or failed), a fit '
        'completed and at least one prediction that returned was compared with that of a new object')


def gen(seed):
    g = G(seed)
    g.seeded_cv = True
    r = g.r
    k = g.much(r.choice((2, 2, 3, 3, 4)), 6, 7, 8, p=0.015)
    if g.flip(0.2):
        return gen_est(g, k)
    d0 = g.data(k, n=r.choice((20, 30, 45)))
    datas = [d0, g.data(k, like=d0)]
    q = g.quant(k, pure=True, template=0.1)
    cls = g.s['objs'][q]['cls']
    other = None
    if g.flip(0.5):
        k2 = k
        if cls not in ('DeBias', 'SORDy', 'QUANTy') and g.s['objs'][q].get('base', {}) == {} :
            k2 = r.choice([x for x in ((3, 4, 5) if k > 2 else (2, 3)) if x != k] + [k])
        dist = g.s['objs'][q]['params'].get('distance')
        if isinstance(dist, dict) and k2 != 2 and cls in ('DFy', 'DFX', 'FriedmanME'):
            k2 = k
        if 'normal' in str(g.s['objs'][q]['params'].get('bin_strategy')) or g.s['gens']:
            k2 = k
        other = g.data(k2, like=d0, lab=g.weighted([(g.s['data'][d0]['lab'], 1), ('gap', 1), ('int1', 1)]))
        datas.append(other)
    if g.flip(0.3):
        datas.append(g.data(k, like=d0, d=g.s['data'][d0]['d'] + 1))
    bags = {}
    for d in set(datas):
        bags[d] = [g.bag(d) for _ in range(2)]
    faults = []
    ops = []

    def fit(d, fault=False, bad=False):
        bad = bad and cls != 'OrdinalQuantificationTree'     # its own classifier is kept from the first fit
        o = g.op('fit', obj=q, data=d)
        if g.flip(0.3):
            o['fresh'] = True
        if bad:
            # a generator of bags that already has bags for these labels does not look at the attributes again
            bagged = 'REG' in str(g.s['objs'][q]) or cls in ('EoQ', 'OrdinalQuantificationTree')
            o['drop'] = g.pick('oneclass', 'lenmismatch', 'empty', 'nan') if not bagged else g.pick('oneclass', 'lenmismatch', 'empty')
        ops.append(o)
        if fault:
            faults.append(g.fault(o['id'], points=('est', 'est', 'np', 'np', 'reg', 'rng', 'dist', 'line', 'line')))
        return o

    def predict(d):
        ops.append(g.op('predict', obj=q, bag=r.choice(bags[d])))
        if g.flip(0.3):
            ops[-1]['fresh'] = True
    target = r.choice(datas)
    shape = r.random()
    if shape < 0.3:
        # retries of the same fit
        for _ in range(r.choice((1, 1, 2))):
            fit(target, fault=True)
            if g.flip(0.4):
                predict(target)
    elif shape < 0.6:
        # fitted and used with other data before
        for _ in range(r.choice((1, 1, 2))):
            d = r.choice([x for x in datas if x != target])
            fit(d)
            for _ in range(r.choice((1, 1, 2))):
                predict(d)
    else:
        for _ in range(r.choice((1, 2, 3))):
            d = r.choice(datas)
            fit(d, fault=g.flip(0.3), bad=g.flip(0.12))
            for _ in range(r.choice((0, 1, 1, 2))):
                predict(d if g.flip(0.7) else target)
    onlyfailed = g.flip(0.25)
    if not onlyfailed:
        fit(target)
    final = [g.op('predict', obj=q, bag=b) for b in bags[target]]
    if other is None and not faults and cls != 'OrdinalQuantificationTree' and not any(o.get('drop') for o in ops) and g.flip(0.5 if g.s['objs'][q].get('base') is not None else 0.35):
        # parameters changed between fits
        base = g.s['objs'][q].get('base')
        for i in reversed([i for i, o in enumerate(ops) if o['op'] == 'fit'][1:]):
            if base is not None and g.flip(0.3):
                # another base quantifier of the same family
                old = (g.s['templates'][base] if isinstance(base, int) else base)['cls']
                fam = next((f for f in (('DFX', 'HDX', 'EDX', 'PWKQuantifier'), ('CC', 'AC'),
                                        ('PCC', 'PAC', 'HDy', 'EDy', 'EM', 'FriedmanME', 'DFy', 'MMy', 'CvMy') +
                                        (('DeBias', 'SORDy', 'QUANTy') if cls != 'EoQ' else ())) if old in f), None)
                if cls != 'EoQ' and fam is not None and fam[0] in ('CC', 'PCC'):
                    fam = ('CC', 'AC', 'PCC', 'PAC', 'HDy', 'EDy', 'EM', 'FriedmanME', 'DFy', 'CvMy')
                if fam is not None:
                    new = g.choice([x for x in fam if x != old])
                    base = {'cls': new, 'params': g.q_params(new, 2 if cls != 'EoQ' else k, plain_bins=True)}
                    ops.insert(i, g.op('setparam', obj=q, name='', deep='new', spec=base))
                    continue
            if base is not None and g.flip(0.7):
                base = g.s['templates'][base] if isinstance(base, int) else base
                new = g.q_params(base['cls'], 2 if cls != 'EoQ' else k, plain_bins=True)
                deep = g.pick('same', 'copy')
                for name in sorted(new):
                    if name in base['params'] and g.flip(0.7):
                        ops.insert(i, g.op('setparam', obj=q, name=name, val=new[name], deep=deep))
                        deep = 'same'
                continue
            new = g.q_params(cls, k, plain_bins=True)
            for name in sorted(new):
                if name in g.s['objs'][q]['params'] and g.flip(0.5):
                    ops.insert(i, g.op('setparam', obj=q, name=name, val=new[name]))
    spec = g.s['objs'][q]
    explicit = not any(o['op'] == 'setparam' for o in ops) and all(
        labels_of(g.s, d) == labels_of(g.s, d0) and g.s['data'][d]['d'] == g.s['data'][d0]['d'] for d in datas) and \
        cls != 'OrdinalQuantificationTree' and explicit_ok(g.s, spec) and g.flip(0.4)
    if explicit:
        # predictions made by the caller now and then: by estimators that are trained
        for o in ops + final:
            if not o.get('drop') and g.flip(0.4):
                o['route'] = 'explicit'
    # an untrained scikit-learn OneVsRestClassifier whose fit fails is not the library's to repair
    g.s['setup'] = [g.op('efit', est=i, data=d0) for i, e in enumerate(g.s['ests']) if e['kind'] == 'ovr' or explicit]
    g.s['tasks'] = [ops + final]
    g.s['faults'] = faults
    g.s['knobs'] = {'estat': True}
    if any(f['point'] == 'np' for f in faults):
        g.s['knobs']['np'] = True
    return {'scn': g.s, 'kind': 'quant'}


def gen_est(g, k):
    """ composite estimators trained directly: always trained again """
    r = g.r
    d0 = g.data(k, n=r.choice((20, 30, 45)))
    kinds = [('cv', 2), ('eoc', 1.5), ('pwk', 0.4)] + ([('fh', 1), ('fhm', 1), ('fht', 1), ('ddag', 1), ('cvfh', 1)] if k > 2 else [])
    e = g.est(k, kinds=kinds, data=d0)
    k2 = r.choice((k, 3, 4)) if k > 2 else r.choice((2, 3))
    datas = [d0, g.data(k, like=d0), g.data(k2, like=d0)]
    if g.flip(0.3):
        datas.append(g.data(k, like=d0, d=g.s['data'][d0]['d'] + 1))
    bags = {d: [g.bag(d), g.bag(d, kind='train')] for d in datas}
    ops, faults = [], []
    for _ in range(r.choice((1, 2, 3))):
        d = r.choice(datas)
        o = g.op('efit', est=e, data=d, iseed=r.randrange(99), nest=r.choice((2, 3, 4)))
        ops.append(o)
        if g.flip(0.5):
            faults.append(g.fault(o['id'], points=('est', 'est', 'np', 'line')))
        if g.flip(0.5):
            ops.append(g.op(g.pick('epred', 'eproba'), est=e, bag=r.choice(bags[d])))
    target = r.choice(datas)
    ops.append(g.op('efit', est=e, data=target, iseed=r.randrange(99), nest=r.choice((2, 3, 4))))
    for b in bags[target]:
        ops += [g.op('eproba', est=e, bag=b), g.op('epred', est=e, bag=b)]
    g.s['tasks'] = [ops]
    g.s['faults'] = faults
    if any(f['point'] == 'np' for f in faults):
        g.s['knobs']['np'] = True
    return {'scn': g.s, 'kind': 'est'}


def check(case, run):
    scn = case['scn']
    info = main_run(case, run)
    ops = ops_of(scn)
    res = info['res']
    knobs = {k: v for k, v in scn['knobs'].items() if k not in ('np', 'estat')}
    ops = [o for o in ops if o not in (scn.get('setup') or [])]
    fits = [o for o in ops if o['op'] in ('fit', 'efit')]
    out = []
    bad = faulted(info)
    n = 0
    # groups: (predictions of a group, the fit they follow)
    lastfit, groups, completed = None, {}, False
    for o in ops:
        if o['op'] in ('fit', 'efit'):
            lastfit = o
            completed = completed or (o['id'] in res and res[o['id']]['kind'] == 'ok')
        elif lastfit is not None and o['id'] not in bad and o['op'] != 'setparam':
            groups.setdefault(lastfit['id'], []).append(o)
    done = []
    stateok = True      # the fits so far that count
    for f in fits:
        ok = res[f['id']]['kind'] == 'ok'
        preds = groups.get(f['id'], [])
        done.append(f)
        if not preds:
            continue
        anyok = any(res[x['id']]['kind'] == 'ok' for x in done)
        if not ok and anyok:
            continue            # predictions after a failed refit: nothing is promised
        ref = reference(scn, case, info, f, preds, knobs, run, [x for x in done if x is not f])
        if ref is None:
            continue
        if ok and ref['res'][f['id']]['kind'] != 'ok':
            out.append(violation('refit', 'fit %s completed after the history, for a new object: %s' %
                                 (f, show(ref['res'][f['id']])), f['id']))
            continue
        for p in preds:
            got, want = res[p['id']], ref['res'][p['id']]
            if ok:
                if got['kind'] == 'ok' and len(done) > 1:
                    n += 1
                if not same(got, want):
                    out.append(violation('refit', '%s after %s and fit %s: %s, a new object: %s' %
                                         (p, [x['id'] for x in done[:-1]], f, show(got), show(want)), p['id']))
            else:
                # every fit of this object failed: an answer is that of the fit, completed
                if len({(x['data'], x.get('drop')) for x in done}) > 1:
                    # one that failed at its very end was as good as completed, and a refit that fails promises nothing
                    continue
                n += 1
                if got['kind'] == 'ok' and not same(got, want) and not any(
                        same(got, r['res'][p['id']]) for r in
                        [reference(scn, case, info, x, preds, knobs, run, done[:j]) for j, x in enumerate(done[:-1])] if r):
                    out.append(violation('failed-fit-answers', '%s after the failed fit %s: %s, a completed fit: %s' %
                                         (p, f, show(got), show(want)), p['id']))
    # a transient failure never leaves the object unable to be fitted
    for f in fits:
        if res[f['id']]['kind'] == 'exc' and f['id'] not in bad and not f.get('drop'):
            ref = reference(scn, case, info, f, [], knobs, run, [x for x in fits[:fits.index(f)]])
            if ref is not None and ref['res'][f['id']]['kind'] == 'ok':
                out.append(violation('cannot-refit', 'fit %s: %s, a new object is fitted' % (f, show(res[f['id']])), f['id']))
    return out, {'nontrivial': n > 0, 'info': info}


def reference(scn, case, info, f, preds, knobs, run, earlier):
    """ a new object (whose estimators were trained as those of the history were) fitted once """
    f = {k: v for k, v in f.items() if k != 'fresh'}
    preds = [{k: v for k, v in p.items() if k != 'fresh'} for p in preds]
    pre = []
    changed = {}
    for o in ops_of(scn):
        if o['id'] == f['id']:
            break
        if o['op'] == 'setparam':
            if o.get('deep') == 'new':
                changed = {key: x for key, x in changed.items() if not key[1]}
            changed[(o['name'], bool(o.get('deep')))] = o
    params = list(changed.values())
    if case['kind'] == 'quant':
        q = scn['objs'][f['obj']]
        order = info['order']
        pos = order.index(f['id'])
        if q['cls'] == 'OrdinalQuantificationTree':
            # it creates and owns its estimator, trained by the first fit that trains it and kept afterwards
            first = None
            for x in earlier:
                r = info['res'][x['id']]
                if r['kind'] == 'ok':
                    first = x
                    break
                if x.get('drop') or x['id'] in faulted(info):
                    if r['kind'] == 'exc' and trained_by(info, x):
                        return None
            if first is not None and first['data'] != f['data']:
                pre.append(dict(first, id='pre'))
        else:
            aux = False
            for i, st in sorted(info['estat'].items()):
                if order.index(st['op']) >= pos:
                    continue
                op = [o for o in ops_of(scn) if o['id'] == st['op']][0]
                if op.get('drop'):
                    return None
                e = scn['ests'][int(i)]
                if e['kind'] == 'eoc':
                    aux = st['data']
                else:
                    pre.append({'id': 'pre%s' % i, 'op': 'efit', 'est': int(i), 'data': st['data']})
            if aux is not False:
                d = derive(scn, tasks=[], knobs=knobs)
                d['objs'].append(dict(scn['objs'][f['obj']]))
                aux_op = {'id': 'aux', 'op': 'fit', 'obj': len(d['objs']) - 1, 'data': aux}
                d['tasks'] = [pre + [aux_op] + params + [f] + preds]
                return run(d)
    return run(derive(scn, tasks=[pre + params + [f] + preds], knobs=knobs))


def trained_by(info, x):
    return True
