"""C11: a saved or copied object answers like the original."""
from simq.props.common import *
from simq.props.c04 import explicit_ok

PROP = 'C11'
CASES = 1200
LISTS = ('hist', 'a', 'b')
SCHED = 'conc'
RULE = ('a run counts as non-trivial when at least one prediction (or generated set of bags) of a copy or restored object and one of the '
        'original after the copy were compared with those of an object that was never copied')
HOWS = ('pickle', 'pickle', 'deepcopy', 'deepcopy', 'joblib', 'process', 'process')


def gen(seed):
    g = G(seed)
    g.seeded_cv = True
    r = g.r
    k = g.much(r.choice((2, 2, 3, 3, 4)), 6, 7, 8, p=0.015)
    d0 = g.data(k, n=r.choice((20, 30)))
    datas = [d0, g.data(k, like=d0)]
    for _ in range(r.choice((2, 3))):
        g.bag(d0)
    g.s['bags'].append({'data': d0, 'kind': 'train'})
    nb = len(g.s['bags'])
    what = g.weighted([('obj', 5), ('est', 2), ('gen', 1)])
    seedkind = g.pick('int', 'rs', 'nprs')
    if what == 'obj':
        o = g.quant(k, pure=g.flip(0.7), default_gen=0, template=0.1)
        spec = g.s['objs'][o]
        for x in g.s['gens']:
            if seedkind != 'int' and g.flip(0.5):
                s = x['params']['random_state']
                x['params']['random_state'] = {'$' + seedkind: s}
        pre = spec['cls'] in ('OneVsRestQuantifier', 'FrankAndHallQuantifier')

        def mk(kind):
            if kind == 'fit':
                return g.op('fit', obj=o, data=r.choice(datas))
            return g.op('predict', obj=o, bag=r.randrange(nb))
        index = o
        if spec.get('et') is not None or spec.get('es') is not None:
            # an estimator that both use, trained by the caller
            if pre or g.flip(0.2):
                g.s['setup'] = [g.op('efit', est=e, data=d0) for e in sorted({spec.get('et'), spec.get('es')} - {None})
                                if g.s['ests'][e]['kind'] != 'eoc'] if spec['cls'] != 'OrdinalQuantificationTree' else []
    elif what == 'est':
        kinds = [('cv', 3), ('eoc', 2), ('pwk', 1)] + ([('fh', 1), ('fhm', 1), ('fht', 2), ('ddag', 2), ('cvfh', 1)] if k > 2 else [])
        e = g.est(k, kinds=kinds, pure=g.flip(0.7), data=d0)
        once = False
        if g.s['ests'][e]['kind'] == 'cv' and g.flip(0.4):
            # splitters that give other partitions the next time
            kind = g.pick('kfold_rs', 'skfold_rs', 'kfold_none', 'skfold_none')
            g.s['ests'][e]['cv'] = {'kind': kind, 'n': r.choice((2, 3))}
            if kind.endswith('rs'):
                g.s['ests'][e]['cv']['rs'] = r.randrange(99)
            else:
                once = True

        def mk(kind):
            if kind == 'fit':
                return g.op('efit', est=e, data=r.choice(datas), iseed=r.randrange(99), nest=r.choice((2, 3)))
            return g.op(g.pick('eproba', 'epred'), est=e, bag=r.randrange(nb))
        index = e
    else:
        e = g.gen(k, seedkind=seedkind)

        def mk(kind):
            return g.op('gen', gen=e, data=r.choice(datas))
        index = e
    if what != 'est':
        once = False
    hist, a, b, faults = [], [], [], []

    def add(where, kind, pf):
        x = mk(kind)
        where.append(x)
        if g.flip(pf):
            faults.append(g.fault(x['id'], points=('est', 'solver', 'dist', 'reg', 'rng', 'line')))
    for i in range(1 if once else r.choice((0, 1, 1, 1, 2))):
        add(hist, 'fit', 0.15)
        for _ in range(r.choice((0, 1, 2))):
            add(hist, 'predict', 0.1)
    for where in (a, b):
        for i in range(r.choice((1, 2, 3, 4))):
            add(where, 'fit' if g.flip(0.3) and not once else 'predict', 0.06)
        add(where, 'predict', 0)
    case_how = r.choice(HOWS)
    if what == 'obj' and g.s.get('setup') and case_how != 'process' and explicit_ok(g.s, spec) and g.flip(0.5):
        for o in hist + a + b:
            if g.flip(0.3):
                o['route'] = 'explicit'
    g.s['tasks'] = []
    g.s['faults'] = faults
    g.s['knobs']['np_state'] = 1
    case = {'scn': g.s, 'what': what, 'index': index, 'hist': hist, 'a': a, 'b': b, 'how': case_how, 'protocol': r.choice((2, 3, 4, 5)),
            'swap': g.flip(0.3), 'hashseed': r.choice((0, 1)), 'chain': g.flip(0.15)}
    # who goes first after the copy
    order = ['a'] * len(a) + ['b'] * len(b)
    r.shuffle(order)
    case['order'] = order
    case['conc'] = g.rate() if g.flip(0.3) else None
    return case


KEY = {'obj': 'obj', 'est': 'est', 'gen': 'gen'}
LIST = {'obj': 'objs', 'est': 'ests', 'gen': 'gens'}


def build(case):
    """ the scenarios: with the copy, and the references """
    scn, what, i = case['scn'], case['what'], case['index']
    specs = scn[LIST[what]]
    j = len(specs)
    main = copy.deepcopy(scn)
    main[LIST[what]] = specs + [copy.deepcopy(specs[i])] * 2
    to = lambda ops, n: [dict(o, **{KEY[what]: n}) for o in ops]
    setup = list(scn.get('setup') or [])
    hist = setup + case['hist']
    refs = [dict(main, setup=hist, tasks=[case['a']], sched={'mode': 'none'}),
            dict(main, setup=hist, tasks=[case['b']], sched={'mode': 'none'})]
    if case['how'] == 'process':
        first = dict(main, setup=hist, tasks=[[{'id': 'save', 'op': 'export', 'what': what, 'obj': i, 'protocol': case['protocol']}] + case['a']],
                     sched={'mode': 'none'})
        return first, refs, lambda raw: dict(main, setup=[], tasks=[[{'id': 'load', 'op': 'import', 'what': what, 'obj': i, 'bytes': raw}] +
                                                                     case['b']], sched={'mode': 'none'})
    cp = [{'id': 'copy', 'op': 'copy', 'what': what, 'obj': i, 'how': case['how'], 'to': j, 'protocol': case['protocol']}]
    if case['chain']:
        cp.append({'id': 'copy2', 'op': 'copy', 'what': what, 'obj': j, 'how': 'pickle', 'to': j + 1, 'protocol': case['protocol']})
    nc = j + 1 if case['chain'] else j
    na, nb = (nc, i) if case['swap'] else (i, nc)
    A, B = to(case['a'], na), to(case['b'], nb)
    if case['conc']:
        tasks, sched = [A, B], case['conc']
    else:
        ia, ib = iter(A), iter(B)
        tasks, sched = [[o for o in (next(ia if w == 'a' else ib, None) for w in case['order']) if o is not None] + list(ia) + list(ib)], {'mode': 'none'}
    return dict(main, setup=hist + cp, tasks=tasks, sched=sched), refs, None


def check(case, run):
    scn = case['scn']
    main, refs, later = build(case)
    if any('nth' not in f for f in scn['faults']):
        clean = dict(main, faults=[])
        probe = run(probing(clean))
        counts, places = probe['counts'], probe['callsites']
        if later:
            probe = run(probing(dict(refs[1], faults=[])))
            counts, places = counts + probe['counts'], places + probe['callsites']
        scn['faults'] = resolve_faults(scn['faults'], counts, places)
        main, refs, later = build(case)
    out = []
    info = run(main)
    res = dict(info['res'])
    infos = [info]
    if later:
        saved = res['save']
        if saved['kind'] == 'ok':
            info2 = run(later([int(x) for x in saved['val']['pickle']]), hashseed=case['hashseed'])
            infos.append(info2)
            res.update(info2['res'])
    for oid in ('copy', 'copy2', 'save', 'load'):
        if oid in res and res[oid]['kind'] != 'ok':
            out.append(violation('cannot-be-copied', '%s of the object after %s: %s' % (case['how'], case['hist'], show(res[oid])), oid))
            return out, {'nontrivial': True, 'info': info, 'infos': infos}
    n = [0, 0]
    for which, ref in enumerate(refs):
        ri = run(ref)
        for o in (case['a'], case['b'])[which]:
            got, want = res.get(o['id']), ri['res'][o['id']]
            if got is None:
                continue
            if got['kind'] == 'ok' and got['val']:
                n[which] += 1
            if not same(got, want):
                out.append(violation('copy' if which != case['swap'] else 'original', '%s of %s after %s by %s: %s, never copied: %s' % (
                    o, 'the copy' if which != case['swap'] else 'the original', case['hist'], case['how'], show(got), show(want)), o['id']))
    return out, {'nontrivial': min(n) > 0, 'info': info, 'infos': infos}
