"""C06: results follow from data, parameters and seeds alone."""
from simq.props.common import *

PROP = 'C06'
CASES = 1200
TOL6 = 1e-9
RULE = ('a run counts as non-trivial when random bags were generated (directly or while fitting) and at least one result obtained under a '
        'disturbed global generator, after other work, or with another hash seed was compared with that of a clean process')


def gen(seed):
    g = G(seed)
    r = g.r
    k = g.much(r.choice((2, 2, 3, 3, 4, 5)), 6, 7, 8, p=0.015)
    d0 = g.data(k, n=r.choice((20, 30, 45)))
    if g.flip(0.12):
        g.s['data'][d0][g.pick('samex', 'const', 'dup')] = True
    datas = [d0] + ([g.data(k, like=d0)] if g.flip(0.5) else [])
    for _ in range(2):
        g.bag(d0)
    main, prelude = [], []
    for where in (main, prelude):
        if where is prelude and not g.flip(0.45):
            continue
        for _ in range(r.choice((1, 2))):
            x = r.random()
            if k > 3 and x < 0.12:
                # composite estimators, also with splits that score alike
                e = g.est(k, kinds=[('fht', 4), ('fhm', 1), ('ddag', 1), ('cv', 1), ('cvfh', 1)], data=d0)
                if g.flip(0.6):
                    for d in datas:
                        g.s['data'][d].update(sep=4.0)
                        g.s['data'][d].pop('mem', None)
                    b = g.s['ests'][e]
                    while isinstance(b.get('base'), dict):
                        b = b['base']
                    if b['kind'] == 'stub':
                        b['mode'] = 'hard'
                    if g.s['ests'][e]['kind'] == 'fht' and g.flip(0.7):
                        g.s['ests'][e]['measure'] = {'$lib': 'metrics.binary.absolute_error'}
                where.append(g.op('efit', est=e, data=r.choice(datas)))
                for _ in range(r.choice((1, 2))):
                    where.append(g.op(g.pick('eproba', 'epred'), est=e, bag=r.randrange(len(g.s['bags']))))
            elif x < 0.45:
                e = g.gen(k, seedkind=g.pick('int', 'int', 'rs', 'nprs'))
                for _ in range(r.choice((1, 2, 3))):
                    where.append(g.op('gen', gen=e, data=r.choice(datas)))
            else:
                only = None
                if x < 0.85:
                    only = ('REGX', 'REGy', 'EoQ') + (('OneVsRestQuantifier', 'FrankAndHallQuantifier') if k > 2 else ())
                close = g.flip(0.12)
                q = g.quant(k, only=('EoQ',) if close else only, pure=g.flip(0.7), default_gen=0.3)
                if close:
                    # members that compare alike
                    g.s['objs'][q]['params'].update(combination_strategy='prevalence_similarity', n_quantifiers=r.choice((2, 2, 3, 4)),
                                                    percentage_of_selected_models=r.choice((0.3, 0.5)))
                    for b in g.s['bags']:
                        b.update(n=r.choice((1, 2, 5)))
                if g.s['objs'][q].get('gen') is not None and g.flip(0.4):
                    p = g.s['gens'][g.s['objs'][q]['gen']]['params']
                    if isinstance(p.get('random_state'), int):
                        p['random_state'] = {g.pick('$rs', '$nprs'): p['random_state']}
                where.append(g.op('fit', obj=q, data=r.choice(datas)))
                for _ in range(r.choice((1, 2))):
                    where.append(g.op('predict', obj=q, bag=r.randrange(len(g.s['bags']))))
                if g.flip(0.3):
                    where.append(g.op('fit', obj=q, data=r.choice(datas)))
                    where.append(g.op('predict', obj=q, bag=r.randrange(len(g.s['bags']))))
    if prelude and g.flip(0.5):
        # the objects of the earlier work are gone when the others are created
        seen = {o['obj'] for o in prelude if 'obj' in o}
        prelude += [g.op('del', obj=i, gc=g.flip(0.3)) for i in sorted(seen)]
        prelude += [g.op('renew', obj=o['obj']) for o in main if o['op'] == 'fit']
        for o in prelude + main:
            if o['op'] in ('fit', 'predict'):
                o['fresh'] = True
    # other code using the global generator between the operations
    ops = list(prelude)
    for o in main:
        if g.flip(0.4):
            ops.append(g.op('np_seed', val=r.randrange(1000)) if g.flip(0.6) else g.op('np_draw', n=r.choice((1, 7, 700))))
        ops.append(o)
    g.s['tasks'] = [ops]
    kn = g.s['knobs']
    if g.flip(0.7):
        kn['np_state'] = r.randrange(1 << 30)
    if g.flip(0.5):
        kn['interfere'] = g.pick('draw', 'seed')
        if g.flip(0.6):
            kn['np'] = True
    case = {'scn': g.s, 'main': [o['id'] for o in main], 'hash': g.pick(0, 0, 0, 1, 2)}
    if g.flip(0.7):
        kn['idseed'] = r.randrange(1000)
    if g.flip(0.5):
        kn['clock'] = r.choice((1.0, 3600.0, 1e7)) + r.random()
    if any(o['op'] not in ('del', 'renew') for o in prelude) and g.flip(0.3):
        # the prelude is interrupted
        o = r.choice([o for o in prelude if o['op'] not in ('del', 'renew')])
        g.s['faults'].append(g.fault(o['id'], points=('rng', 'est', 'np', 'line')))
        if g.s['faults'][0]['point'] == 'np':
            kn['np'] = True
    return case


def check(case, run):
    scn = case['scn']
    out = []
    hs = case['hash']
    info = main_run(case, lambda s, h=0, t=60: run(s, hs, t))
    ops = ops_of(scn)
    mine = [o for o in ops if o['id'] in case['main']]
    kn = {}
    clean = run(derive(scn, tasks=[mine], knobs=kn))
    n = 0
    for o in mine:
        got, want = info['res'][o['id']], clean['res'][o['id']]
        if got['kind'] == 'ok' and o['op'] != 'fit':
            n += 1
        if not same(got, want, TOL6):
            out.append(violation('not-reproduced', '%s with global generator %s, hash seed %d, after %s: %s, in a clean process: %s' %
                                 (o, {k: v for k, v in scn['knobs'].items()}, hs, [x['id'] for x in ops[:ops.index(o)]], show(got), show(want)), o['id']))
    first = {}
    for o in mine:
        if o['op'] == 'gen' and isinstance(scn['gens'][o['gen']]['params'].get('random_state'), int) and info['res'][o['id']]['kind'] == 'ok':
            a = first.setdefault((o['gen'], o['data']), o)
            if not same(info['res'][a['id']], info['res'][o['id']], TOL6):
                out.append(violation('not-repeated', '%s gives other bags than %s with the same integer seed' % (o, a), o['id']))
    if not clean['rng_same']:
        out.append(violation('global-generator', 'the operations %s draw from or reseed the global random generator' % mine))
    return out, {'nontrivial': n > 0 and randomness(scn, mine), 'info': info}


def randomness(scn, ops):
    for o in ops:
        if o['op'] == 'gen':
            return True
        if o['op'] == 'fit' and ('REG' in str(scn['objs'][o['obj']]) or 'EoQ' in str(scn['objs'][o['obj']])):
            return True
    return False
