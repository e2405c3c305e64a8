"""C05: parallel training gives the sequential model."""
from simq.props.common import *

PROP = 'C05'
CASES = 1000
RULE = ('a run counts as non-trivial when at least two simulated workers were active at the same time and at least one prediction of '
        'the trained object was compared with that of the sequentially trained one')
STUBS = ('joblib backend (simulated workers; scheduling, completion order and memory sharing chosen by the simulator), joblib clock; '
         'estimators of simq.stubs or scikit-learn')


def set_jobs(g, s, p):
    if 'base' in s and isinstance(s['base'], dict):
        set_jobs(g, s['base'], 0.3)
    if s['kind'] in ('cv', 'eoc', 'fh', 'fhm', 'fht', 'ddag', 'pwk', 'ovr') and g.flip(p):
        s['n_jobs'] = g.much(g.r.choice((2, 2, 3, 4, 5, -1, 1)), 8, 16, -2, p=0.06)


def gen(seed):
    g = G(seed)
    g.seeded_cv = True
    r = g.r
    k = g.much(r.choice((2, 3, 3, 4, 5)), 6, 7, 8, p=0.015)
    d0 = g.data(k, n=r.choice((20, 30, 45)))
    datas = [d0] + ([g.data(k, like=d0)] if g.flip(0.5) else [])
    kinds = [('cv', 3), ('eoc', 2.5), ('pwk', 0.4)] + ([('fh', 1.3), ('fhm', 1.3), ('fht', 1.5), ('ddag', 2), ('cvfh', 1.5)] if k > 2 else [])
    e = g.est(k, kinds=kinds, pure=g.flip(0.75), data=d0)
    s = g.s['ests'][e]
    set_jobs(g, s, 1.0)
    if s['kind'] == 'pwk':
        s['n_jobs'] = r.choice((2, 3))
    bags = [g.bag(d0), g.bag(d0, kind='train'), g.bag(d0)]
    ops, faults = [], []

    def efit(d, fault=False):
        o = g.op('efit', est=e, data=d, iseed=r.randrange(99), nest=r.choice((2, 3, 4, 6)))
        ops.append(o)
        if fault:
            faults.append(g.fault(o['id'], points=('est', 'est', 'line')))
        return o
    for d in ([r.choice(datas)] if g.flip(0.3) else []):
        efit(d, fault=g.flip(0.5))
    target = r.choice(datas)
    if g.flip(0.3):
        f = efit(target, fault=True)
        ops.append(dict(f, id='retry'))
    else:
        efit(target)
    for b in bags:
        ops += [g.op('eproba', est=e, bag=b), g.op('epred', est=e, bag=b)]
    # a quantifier over the (trained or still untrained) estimator
    if s['kind'] not in ('eoc', 'pwk') and g.flip(0.5):
        cls = g.choice(('AC', 'HDy', 'EM', 'EDy', 'CC', 'REGy') if k == 2 else ('AC', 'PAC', 'HDy', 'EM', 'EDy', 'CC'))
        q = g.q_spec(k, cls=cls)
        q['et'] = q['es'] = e
        if cls == 'CC':
            del q['et']
        q['params'].pop('bin_strategy', None)
        g.s['objs'].append(q)
        qops = [g.op('fit', obj=0, data=target)] + [g.op('predict', obj=0, bag=b) for b in bags]
        if g.flip(0.4):
            ops = qops
            faults = []
            if g.flip(0.4):
                faults = [g.fault(qops[0]['id'], points=('est', 'est', 'line'))]
                ops = [qops[0], dict(qops[0], id='qretry')] + qops[1:]
        else:
            ops += qops
    elif s['kind'] == 'eoc' and g.flip(0.5):
        q = g.q_spec(k, cls='EoQ', exclude=WITHOUT + CRISP, default_gen=0)
        if q['base']['cls'] not in WITHOUT + CRISP:
            q['et'] = q['es'] = e
            g.s['objs'].append(q)
            ops += [g.op('fit', obj=0, data=target)] + [g.op('predict', obj=0, bag=b) for b in bags]
    g.s['tasks'] = [ops]
    g.s['faults'] = faults
    g.s['sched'] = g.rate()
    mode = g.pick('thread', 'process', 'process')
    g.s['knobs']['joblib'] = {'mode': mode, 'ro': mode == 'process' and g.flip(0.6)}
    return {'scn': g.s}


def sequential(s):
    s = dict(s)
    s.pop('n_jobs', None)
    if isinstance(s.get('base'), dict):
        s['base'] = sequential(s['base'])
    return s


def check(case, run):
    scn = case['scn']
    info = main_run(case, run)
    bad = faulted(info)
    out = []
    n = 0
    ops = ops_of(scn)
    # the sequential history, with the failed fits left out
    keep = [o for o in ops if o['id'] not in bad]
    d = derive(scn, tasks=[keep], knobs={})
    d['ests'] = [sequential(s) for s in d['ests']]
    ref = run(d)
    done = False        # something was trained to completion before
    for o in ops:
        got = info['res'][o['id']]
        if o['id'] in bad:
            if got['kind'] == 'ok':
                out.append(violation('worker-failure-lost', '%s returned although a worker failed: %s' % (o, info['fired']), o['id']))
            elif not got['injected']:
                out.append(violation('worker-failure-hidden', '%s: a worker failed (%s), the caller gets %s' %
                                     (o, info['fired'], show(got)), o['id']))
            continue
        i = ops.index(o)
        if any(p['id'] in bad for p in ops[:i]) and o['op'] not in ('fit', 'efit'):
            lastfit = [p for p in ops[:i] if p['op'] in ('fit', 'efit')]
            if lastfit and lastfit[-1]['id'] in bad:
                continue        # predictions right after a failed fit
        want = ref['res'][o['id']]
        if got['kind'] == 'ok' and o['op'] not in ('fit', 'efit'):
            n += 1
        if not same(got, want):
            out.append(violation('parallel', '%s with workers: %s, sequentially: %s' % (o, show(got), show(want)), o['id']))
    return out, {'nontrivial': n > 0 and info['joblib']['max_active'] > 1, 'info': info}
