"""C08: a failure underneath surfaces; it never becomes an answer."""
from simq.props.common import *

PROP = 'C08'
CASES = 1200
RULE = ('a run counts as non-trivial when an injected failure fired inside an operation, whose outcome (and that of the operations '
        'relying on it) was then compared with the failure-free run')
SOLVER_EXC = ('=nosol', '=inconsistent', '=unbounded', '=unbounded_inaccurate', '=infeasible')


def gen(seed):
    g = G(seed)
    g.seeded_cv = True
    r = g.r
    k = r.choice((2, 2, 3, 3, 4))
    d0 = g.data(k, n=r.choice((20, 30)))
    for _ in range(2):
        g.bag(d0)
    x = r.random()
    ops = []
    measured = False
    if x < 0.08:
        e = g.gen(k, seedkind=g.pick('int', 'rs', 'rs'))
        ops = [g.op('gen', gen=e, data=d0) for _ in range(r.choice((1, 2)))]
    elif x < 0.22:
        kinds = [('cv', 2), ('eoc', 1.5), ('pwk', 0.4)] + ([('fh', 1), ('fhm', 1), ('fht', 1), ('ddag', 1), ('cvfh', 1)] if k > 2 else [])
        measured = k > 2 and g.flip(0.5)
        e = g.est(k, kinds=[('fht', 1)] if measured else kinds, data=d0)
        if measured:
            # the caller's measure of a tree
            g.s['ests'][e]['measure'] = {'$dist': 'user_measure'}
        ops = [g.op('efit', est=e, data=d0)]
        for b in range(2):
            ops.append(g.op(g.pick('epred', 'eproba'), est=e, bag=b))
    else:
        only = None
        if g.flip(0.35):
            only = ('AC', 'PAC', 'DFy', 'HDy', 'MMy', 'DFX', 'HDX', 'EDy', 'CvMy', 'EDX', 'FriedmanME', 'PWKQuantifier', 'ACOrdinal',
                    'PDFOrdinaly', 'EM', 'QUANTy', 'SORDy')
        search = g.flip(0.12)
        if search:
            # a failing distance of the caller inside the search for the best mixture
            if k != 2:
                g.s['data'][d0]['k'] = k = 2
                g.s['bags'].clear()
                for _ in range(2):
                    g.bag(d0)
            only = ('QUANTy', 'DFy', 'DFX')
        reg = not search and g.flip(0.06)
        if reg:
            only = ('REGX', 'REGy')
        q = g.quant(k, only=only, template=0.1, default_gen=0)
        if reg and g.flip(0.7):
            g.s['objs'][q].pop('reg', None)
            g.s['knobs']['focus'] = 'GLM'
        if search:
            g.s['objs'][q]['params']['distance'] = {'$dist': g.pick('user_l1', 'user_l2', 'user_wiggly')}
        ops = [g.op('fit', obj=q, data=d0)]
        if g.flip(0.8 if search else 0.4):
            ops.append(g.op('predict', obj=q, bag=0))
        ops.append(g.op('predict', obj=q, bag=r.randrange(2)))
        if g.flip(0.6):
            # the same requests again
            ops += [dict(o, id=g.op('predict')['id']) for o in ops if o['op'] == 'predict'][-r.choice((1, 1, 2)):]
        if g.flip(0.3):
            # the caller's estimators were trained before, with these examples or with others
            d1 = d0 if g.flip(0.3) else g.data(k, like=d0)
            pre = [g.op('efit', est=i, data=d1) for i, s in enumerate(g.s['ests']) if s['kind'] not in ('eoc',) and
                   g.s['objs'][q]['cls'] != 'OrdinalQuantificationTree']
            g.s['setup'] = pre
    g.s.setdefault('setup', [])
    for i, s in enumerate(g.s['ests']):
        if s['kind'] == 'ovr' and not any(o['op'] == 'efit' and o['est'] == i for o in g.s['setup']):
            g.s['setup'].append(g.op('efit', est=i, data=d0))
    g.s['tasks'] = [ops]
    target = r.choice(ops)
    solver = g.s['objs'] and any(c in str(g.s['objs'][0]) for c in ("'AC'", "'PAC'", 'DFy', 'HDy', 'MMy', 'DFX', 'HDX', 'EDy', 'CvMy', 'EDX',
                                                                 'Friedman', 'PWKQ', 'ACOrd', 'PDFOrd'))
    pts = ['est', 'est', 'np', 'np', 'np', 'reg', 'rng', 'dist', 'dist', 'line']
    focus = g.s['knobs'].pop('focus', None)
    if g.s['regs'] and g.flip(0.5):
        pts = ['reg', 'reg', 'np']
    inv = k > 2 and g.s['objs'] and g.s['objs'][0]['cls'] in ('AC', 'PAC', 'ACOrdinal') and g.flip(0.3)
    if inv:
        pass
    elif solver and "'$dist'" not in str(g.s['objs'][0].get('params')) and g.flip(0.5):
        target = ops[-1] if g.flip(0.6) else r.choice([o for o in ops if o['op'] == 'predict'])
        pts = ['solver']
    elif "'$dist'" in str(g.s['objs']) and g.flip(0.5):
        target = ops[-1]
        pts = ['dist']
    if measured and g.flip(0.7):
        target, pts = ops[0], ['dist']
    g.s['faults'] = []
    variants = []
    for _ in range(7):
        f = g.fault(target['id'], points=pts if not inv else ['np'])
        if g.s['regs'] and f['point'] in ('reg', 'np') and g.flip(0.5):
            f['exc'] = g.pick('LinAlgError', 'FloatingPointError', 'ValueError', 'ZeroDivisionError')
        if focus and not variants:
            f = dict(g.fault(ops[0]['id'], points=['np']), like=focus, frac=r.random())
        if inv:
            target = r.choice([o for o in ops if o['op'] == 'predict'])
            f.update(op=target['id'], like='linalg')
            if g.flip(0.6):
                f['exc'] = g.pick('ValueError', 'SimAny', 'FloatingPointError', 'RuntimeError', 'ZeroDivisionError')
        if pts == ['dist'] and g.flip(0.5):
            f.update(exc=g.pick('SimAny', 'SimAny', 'ZeroDivisionError', 'FloatingPointError', 'ValueError'), len=g.pick(10, 40, 1000000))
        if f['point'] == 'solver' and f['exc'].startswith('='):
            f['exc'] = r.choice(SOLVER_EXC)
        variants.append(f)
        if g.flip(0.5) and len(pts) > 1:
            target = r.choice(ops)
    g.s['knobs']['np'] = True
    return {'scn': g.s, 'variants': variants}


def check(case, run):
    scn = case['scn']
    variants = [[f] for f in case.get('variants') or []] or [scn['faults']]
    clean = run(dict(derive(scn, tasks=scn['tasks'], setup=scn.get('setup')), knobs={'np': True, 'places': True, 'lines': any(f['point'] == 'line' for v in variants for f in v)}))
    infos = []
    for v in variants:
        scn['faults'] = resolve_faults(v, clean['counts'], clean['callsites'])
        if not scn['faults']:
            continue
        info = run(scn)
        infos.append(info)
        if not info['fired']:
            continue
        out = judge(scn, info, clean)
        if out:
            case.pop('variants', None)
            return out, {'nontrivial': True, 'info': info, 'infos': infos}
    return [], {'nontrivial': any(i['fired'] for i in infos), 'info': infos[-1] if infos else None, 'infos': infos}


def judge(scn, info, clean):
    bad = faulted(info)
    out = []
    failed = False
    documented = any(f['at'].endswith('linalg.inv') and f['exc'] == 'LinAlgError' for f in info['fired'])
    f = info['fired'][0]
    for o in ops_of(scn):
        got, want = info['res'][o['id']], clean['res'][o['id']]
        if o['id'] in bad:
            if got['kind'] == 'ok':
                if not documented and not same(got, want):
                    out.append(violation('answer', '%s answers %s although %s failed (%s); without the failure: %s' %
                                         (o, show(got), f['at'], f, show(want)), o['id']))
            else:
                if o['op'] in ('fit', 'efit', 'gen'):
                    failed = True
                if not got['injected'] and not f['exc'].startswith('=') and not documented:
                    out.append(violation('other-failure', '%s: %s failed (%s), the caller gets %s' % (o, f['at'], f, show(got)), o['id']))
        elif not failed and not documented:
            if not same(got, want):
                out.append(violation('later', '%s: %s, after a failure of %s (%s) that did not surface; without it: %s' %
                                     (o, show(got), f['at'], f, show(want)), o['id']))
        elif failed and not documented and o['op'] != 'gen' and got['kind'] == 'ok' and want['kind'] == 'ok' and not same(got, want):
            # its fit failed
            out.append(violation('later', '%s: %s, although the fit failed at %s (%s); a completed fit: %s' %
                                 (o, show(got), f['at'], f, show(want)), o['id']))
    return out
