"""C14: diagnostics are only diagnostics."""
from simq.props.common import *

PROP = 'C14'
CASES = 700
RULE = ('a run counts as non-trivial when something was printed and an operation that answered was compared with the silent run, or '
        'when the output stream failed and the operation was repeated')


def gen(seed):
    g = G(seed)
    g.seeded_cv = True
    r = g.r
    k = r.choice((2, 2, 3, 3, 4, 4, 5))
    d0 = g.data(k, n=r.choice((20, 30)))
    datas = [d0] + ([g.data(k, like=d0)] if g.flip(0.3) else [])
    for _ in range(2):
        g.bag(d0)
    ops = []
    setup = []
    x = r.random()
    if x < 0.15:
        e = g.gen(k, seedkind=g.pick('int', 'int', 'rs'))
        rs = isinstance(g.s['gens'][e]['params']['random_state'], dict)
        for _ in range(r.choice((1, 2, 3))):
            o = g.op('gen', gen=e, data=r.choice(datas))
            ops += [o] if rs else [o, dict(o, id=g.op('gen')['id'])]
        repeat = not rs
    elif x < 0.4:
        kinds = [('cv', 2), ('eoc', 1.5)] + ([('fh', 1), ('fhm', 1), ('fht', 2.5), ('ddag', 2.5), ('cvfh', 1)] if k > 2 else [])
        e = g.est(k, kinds=kinds, data=d0)
        again = True
        if g.s['ests'][e]['kind'] == 'cv' and g.flip(0.4):
            # splitters that give other partitions the next time
            again = False
            g.s['ests'][e]['cv'] = {'kind': g.pick('kfold_rs', 'skfold_rs', 'kfold_none', 'skfold_none'), 'n': r.choice((2, 3)), 'rs': r.randrange(99)}
            g.s['knobs']['np_state'] = r.randrange(99)
        for _ in range(r.choice((1, 2))):
            o = g.op('efit', est=e, data=r.choice(datas))
            ops += [o, dict(o, id=g.op('efit')['id'])]
            for b in range(2):
                o = g.op(g.pick('epred', 'eproba'), est=e, bag=b)
                ops += [o, dict(o, id=g.op('epred')['id'])]
        repeat = again
    else:
        n = r.choice((1, 1, 2))
        for t in range(n):
            g.quant(k, template=0.2, share=0.5, default_gen=0)
        for t in range(n):
            for _ in range(r.choice((1, 1, 2))):
                o = g.op('fit', obj=t, data=r.choice(datas))
                ops += [o, dict(o, id=g.op('fit')['id'])]
                for _ in range(r.choice((1, 2))):
                    o = g.op('predict', obj=t, bag=r.randrange(2))
                    ops += [o, dict(o, id=g.op('predict')['id'])]
        repeat = True
        pre = g.flip(0.35) and not any(q['cls'] == 'OrdinalQuantificationTree' for q in g.s['objs'])
        if pre:
            # the caller's estimators were trained before, with other examples
            datas.append(g.data(k, like=d0))
        setup = [g.op('efit', est=i, data=datas[-1]) for i, s in enumerate(g.s['ests'])
                 if s['kind'] == 'ovr' or (pre and s['kind'] != 'eoc')]
    if setup:
        g.s['setup'] = setup
    g.s['tasks'] = [ops]
    variants = []
    if repeat:
        for _ in range(4):
            variants.append({'frac': r.random(), 'op': r.random(), 'exc': g.pick('OSError', 'BrokenPipeError', 'ValueError', 'SimAny', 'SimAny',
                                                                            'MemoryError', 'KeyboardInterrupt'), 'verbose': r.choice((1, 1, 2, 3))})
    changes = {o['id']: r.choice((0, 1, 2, 3)) for o in ops if g.flip(0.6)} if g.flip(0.5) else {}
    return {'scn': g.s, 'levels': [1, 2, r.choice((3, 3, 4, 5, 10, 100))], 'variants': variants, 'changes': changes}


def at(scn, v, faults=()):
    d = derive(scn, tasks=scn['tasks'], setup=scn.get('setup'))
    d['knobs'] = dict(scn.get('knobs') or {}, verbose=v)
    d['faults'] = list(faults)
    return d


def check(case, run):
    scn = case['scn']
    base = run(at(scn, 0))
    infos = [base]
    out = []
    n = 0
    noisy = {}
    for v in case['levels']:
        info = noisy[v] = run(at(scn, v))
        infos.append(info)
        for o in ops_of(scn):
            a, b = base['res'][o['id']], info['res'][o['id']]
            if info['writes'] and a['kind'] == 'ok':
                n += 1
            if not same(a, b):
                out.append(violation('level', '%s with verbose=%d: %s, with verbose=0: %s' % (o, v, show(b), show(a)), o['id']))
        if not out and info['events'] != base['events']:
            out.append(violation('models', 'with verbose=%d the estimators are trained otherwise: %s, with verbose=0: %s' %
                                 (v, first_difference(info['events'], base['events']), len(base['events']))))
        if out:
            case['levels'], case['variants'] = [v], []
            return out, {'nontrivial': True, 'info': info, 'infos': infos}
    if case.get('changes'):
        # the level changes during the life of the objects
        d = at(scn, 0)
        ops = []
        for o in scn['tasks'][0]:
            if o['id'] in case['changes']:
                ops.append({'id': 'v' + o['id'], 'op': 'setverbose', 'val': case['changes'][o['id']]})
            ops.append(o)
        d['tasks'] = [ops]
        info = run(d)
        infos.append(info)
        for o in ops_of(scn):
            a, b = base['res'][o['id']], info['res'][o['id']]
            n += a['kind'] == 'ok'
            if not same(a, b):
                out.append(violation('level', '%s with the level of verbosity set to %s during the history: %s, with verbose=0: %s' %
                                     (o, case['changes'], show(b), show(a)), o['id']))
        if not out and info['events'] != base['events']:
            out.append(violation('models', 'with the level of verbosity set to %s during the history the estimators are trained otherwise: %s' %
                                 (case['changes'], first_difference(info['events'], base['events']))))
        if out:
            case['levels'], case['variants'] = [], []
            return out, {'nontrivial': True, 'info': info, 'infos': infos}
    tries = case['variants']
    for f in tries:
        if 'faults' in f:
            faults = f['faults']
        else:
            v = f['verbose']
            info = noisy.get(v) or run(at(scn, v))
            cands = [(op, c) for op, kind, c in info['counts'] if kind == 'out' and first_of_pair(scn, op)]
            if not cands:
                continue
            op, c = cands[int(f['op'] * len(cands))]
            faults = [{'op': op, 'point': 'out', 'nth': int(f['frac'] * c) + 1, 'exc': f['exc']}]
        info = run(at(scn, f['verbose'], faults))
        infos.append(info)
        if not info['fired']:
            continue
        n += 1
        bad = faulted(info)
        for o in ops_of(scn):
            got, want = info['res'][o['id']], base['res'][o['id']]
            if o['id'] in bad:
                if got['kind'] == 'ok':
                    if not same(got, want):
                        out.append(violation('answer', '%s answers %s although writing to the output failed; otherwise %s' %
                                             (o, show(got), show(want)), o['id']))
                elif not got['injected']:
                    out.append(violation('other-failure', '%s: writing to the output failed (%s), the caller gets %s' %
                                         (o, info['fired'], show(got)), o['id']))
            elif not same(got, want):
                out.append(violation('retry', '%s: %s, after an operation during which writing to the output failed (%s) was repeated; '
                                     'otherwise %s' % (o, show(got), info['fired'], show(want)), o['id']))
        if out:
            case['levels'] = []
            case['variants'] = [{'verbose': f['verbose'], 'faults': faults}]
            return out, {'nontrivial': True, 'info': info, 'infos': infos}
    return out, {'nontrivial': n > 0, 'info': infos[-1], 'infos': infos}


def first_of_pair(scn, oid):
    """ the operation is repeated at once """
    for t in scn['tasks']:
        for a, b in zip(t, t[1:]):
            if a['id'] == oid:
                return {k: v for k, v in a.items() if k != 'id'} == {k: v for k, v in b.items() if k != 'id'}
    return False


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return 'event %d: %s / %s' % (i, x, y)
    return '%d / %d events' % (len(a), len(b))
