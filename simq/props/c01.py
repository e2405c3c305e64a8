"""C01: a prediction does not depend on the prediction history."""
from simq.props.common import *

PROP = 'C01'
CASES = 1300
RULE = 'a run counts as non-trivial when at least two predictions of the history returned and were compared with a first prediction'


def gen(seed):
    g = G(seed)
    r = g.r
    k = g.much(r.choice((2, 2, 3, 3, 4, 5)), 6, 7, 8, p=0.015)
    d = g.data(k, n=r.choice((20, 30, 45)))
    pure = g.flip(0.75)
    nq = r.choice((1, 1, 2))
    for _ in range(nq):
        g.quant(k, share=0.6, pure=pure, template=0.2)
    nb = r.choice((2, 3, 4))
    for _ in range(nb):
        g.bag(d)
    # bags of the same length share the buffer
    if g.flip(0.5):
        b = dict(g.s['bags'][0])
        if b.get('kind') is None:
            b['seed'] = r.randrange(1 << 30)
            b['prev'] = list(reversed(b['prev']))
            g.s['bags'].append(b)
    pairs = []
    if g.flip(0.45):
        i = r.randrange(len(g.s['bags']))
        pairs.append((i, g.twin_bag(i)))
    if g.flip(0.3):
        i = r.randrange(nb)
        if g.flip(0.4):
            g.s['bags'][i]['n'] = 1500
        pairs.append((i, g.near_bag(i)))
    pairs = [p for p in pairs if p[1] is not None]
    if g.flip(0.3):
        g.bag(d, kind='empty')
    setup = [g.op('fit', obj=i, data=d) for i in range(nq)]
    comp = [i for i, e in enumerate(g.s['ests']) if e['kind'] != 'stub' and
            any(q.get('et') == i or q.get('es') == i for q in g.s['objs'] if q['cls'] != 'OrdinalQuantificationTree')]
    ops = []
    # now and then the history is long
    long = g.flip(0.04)
    for _ in range(r.choice((3, 4, 6, 8)) if not long else r.choice((20, 60))):
        b = r.randrange(len(g.s['bags']))
        if comp and g.flip(0.25):
            ops.append(g.op(g.pick('epred', 'eproba'), est=r.choice(comp), bag=b))
        else:
            op = g.op('predict', obj=r.randrange(nq), bag=b)
            if g.flip(0.2) and g.s['bags'][b].get('kind') != 'empty':
                op['route'] = 'explicit'
                if g.flip(0.5):
                    op['pshared'] = True
            elif g.flip(0.35):
                op['buf'] = 0
            elif g.flip(0.35):
                op['fresh'] = True
            if g.flip(0.1):
                op['rows'] = [0, r.choice((1, 2, 7))]
                op.pop('buf', None)
            ops.append(op)
    if pairs and g.flip(0.85):
        o = r.randrange(nq)
        ops += [g.op('predict', obj=o, bag=b) for b in r.choice(pairs)]
    g.s['setup'] = setup
    g.s['tasks'] = [ops]
    if g.flip(0.55):
        g.s['knobs']['np'] = True
        for _ in range(r.choice((1, 1, 2))):
            o = r.choice(ops[:-1])
            g.s['faults'].append(g.fault(o['id'], points=('np', 'solver', 'est', 'dist', 'solver', 'line')))
    return {'scn': g.s}


def check(case, run):
    scn = case['scn']
    info = main_run(case, run)
    bad = faulted(info)
    sub = [o for o in ops_of(scn) if o['op'] in ('predict', 'epred', 'eproba') and o['id'] not in bad]
    out = []
    # one reference per distinct request: the fitted objects, and the request as the first prediction they see
    reqs = {}
    for o in sub:
        key = repr(sorted((a, b) for a, b in o.items() if a not in ('id', 'buf', 'fresh')))
        reqs.setdefault(key, []).append(o)
    firsts = []
    for key, os in reqs.items():
        f = dict(os[0])
        f.pop('buf', None)
        f.pop('fresh', None)
        firsts.append(f)
    setup = [o for o in (scn.get('setup') or [])]
    ref = run(derive(scn, tasks=[setup + [{'id': 'fork', 'op': 'forkpredict', 'ops': firsts}]],
                     knobs={k: v for k, v in scn['knobs'].items() if k != 'np'}))
    n = 0
    for f, os in zip(firsts, reqs.values()):
        want = ref['res'][f['id']]
        for o in os:
            got = info['res'].get(o['id'])
            if got is None:
                continue
            if got['kind'] == 'ok':
                n += 1
            if not same(got, want):
                out.append(violation('history', '%s after %s: %s, as a first prediction: %s' %
                                     (o, info['order'][:info['order'].index(o['id'])], show(got), show(want)), o['id']))
    for oid in info['aliased']:
        out.append(violation('changed-later', 'the array returned by %s was changed by a later operation' % oid, oid))
    return out, {'nontrivial': n >= 2, 'info': info}
