"""C03: quantifiers never influence one another, whatever the interleaving of their callers."""
from simq.props.common import *
from simq.props.c04 import explicit_ok

PROP = 'C03'
CASES = 1400
RULE = ('a run counts as non-trivial when operations of at least two tasks overlapped (at least one preemption, or operations of '
        'different tasks alternated) and at least one result per task was compared with the task running alone')


def ests_of(q):
    return [q[x] for x in ('et', 'es') if q.get(x) is not None]


def gen(seed):
    g = G(seed)
    g.seeded_cv = True
    g.noisy = g.flip(0.35) * 0.7
    r = g.r
    k = g.much(r.choice((2, 2, 3, 3, 4)), 6, 7, 8, p=0.015)
    d0 = g.data(k, n=r.choice((20, 30)))
    datas = [d0, g.data(k, like=d0)]
    nt = r.choice((2, 2, 2, 3))
    only = None
    if g.flip(0.25):
        only = ('REGX', 'REGy', 'EoQ') + (('OneVsRestQuantifier', 'FrankAndHallQuantifier') if k > 2 else ())
    share = r.choice((0.0, 0.6, 0.9))
    first = g.q_spec(k, share=share, template=0.6, pure=g.flip(0.85), only=only, default_gen=0.25)
    g.s['objs'].append(first)
    other = {}
    for _ in range(nt - 1):
        x = r.random()
        if g.flip(0.15):
            # a problem with another number of classes
            k2 = r.choice([i for i in (2, 3, 4, 5) if i != k])
            numeric = g.s['data'][d0]['lab'] != 'str'
            same = g.flip(0.6) and first['cls'] in g.classes_for(k2, numeric)
            q = g.q_spec(k2, cls=first['cls'] if same else None, share=0.0, template=0.3, default_gen=0.25)
            other[len(g.s['objs'])] = g.data(k2, like=d0)
        elif x < 0.4:
            q = json_copy(first)             # a twin: same estimators, template, generator and regressor
            q['params'] = dict(q['params'])
            if 'gen' in q and g.flip(0.3):
                q['gen'] = sibling(g, q['gen'], k)
        elif x < 0.55:
            q = g.q_spec(k, cls=first['cls'], share=share, template=0.6, default_gen=0.25)
            if isinstance(first.get('base'), int) and isinstance(q.get('base'), int):
                q['base'] = first['base']
                for e in ('et', 'es'):
                    if e in first:
                        q[e] = first[e]
                    else:
                        q.pop(e, None)
            if 'gen' in first and 'gen' in q and g.flip(0.6):
                q['gen'] = first['gen']
            if 'reg' in first and 'reg' in q and g.flip(0.6):
                q['reg'] = first['reg']
        else:
            q = g.q_spec(k, share=share, template=0.6, only=only if g.flip(0.5) else None, default_gen=0.25)
        g.s['objs'].append(q)
    # an EnsembleOfClassifiers is trained by the EoQ that has it: not shared
    used = {}
    for t, q in enumerate(g.s['objs']):
        new = {}
        for e in ests_of(q):
            if g.s['ests'][e]['kind'] == 'eoc' and used.setdefault(e, t) != t:
                if e not in new:
                    g.s['ests'].append(json_copy(g.s['ests'][e]))
                    new[e] = len(g.s['ests']) - 1
        for x in ('et', 'es'):
            if q.get(x) in new:
                q[x] = new[q[x]]
    nb = r.choice((2, 3))
    for _ in range(nb):
        g.bag(d0)
    obags = {t: [g.bag(d), g.bag(d)] for t, d in other.items()}
    setup = []
    for e, s in enumerate(g.s['ests']):
        users = {t for t, q in enumerate(g.s['objs']) if e in ests_of(q)}
        if s['kind'] != 'eoc' and (len(users) > 1 or g.flip(0.2)):
            setup.append(g.op('efit', est=e, data=next((other[t] for t in users if t in other), d0)))
    shared = [o['est'] for o in setup]
    tasks = []
    for t, q in enumerate(g.s['objs']):
        ops = []
        mine = [other[t]] if t in other else datas
        bags = obags.get(t) or range(nb)
        if g.flip(0.15):
            setup.append(g.op('fit', obj=t, data=r.choice(mine)))
        else:
            ops.append(g.op('fit', obj=t, data=r.choice(mine)))
        for _ in range(r.choice((1, 2, 3))):
            x = r.random()
            if x < 0.6:
                ops.append(g.op('predict', obj=t, bag=r.choice(bags)))
            elif x < 0.75:
                ops.append(g.op('fit', obj=t, data=r.choice(mine)))
            elif x < 0.87 and g.s['gens'] and not other:
                if g.flip(0.3):
                    sibling(g, r.randrange(len(g.s['gens'])), k)
                ops.append(g.op('gen', gen=r.randrange(len(g.s['gens'])), data=r.choice(datas)))
            elif shared:
                ops.append(g.op(g.pick('epred', 'eproba'), est=r.choice(shared), bag=r.randrange(nb)))
        ops.append(g.op('predict', obj=t, bag=r.choice(bags)))
        tasks.append(ops)
    if not other and g.flip(0.2):
        # generators with generator objects of their own, asked for the same bags again while others generate theirs
        spec = g.gen_spec(k, seedkind=g.pick('rs', 'rs', 'int'))
        for _ in range(r.choice((1, 2))):
            g.s['gens'].append(json_copy(spec))
            mine = len(g.s['gens']) - 1
            d = r.choice(datas)
            tasks.append([g.op('gen', gen=mine, data=d if g.flip(0.8) else r.choice(datas)) for _ in range(r.choice((2, 3)))])
    if g.flip(0.4):
        # predictions made by the callers, some of them one array for all
        for o in [o for ops in tasks for o in ops if o['op'] in ('fit', 'predict')]:
            q = g.s['objs'][o['obj']]
            if explicit_ok(g.s, q) and set(ests_of(q)) <= set(shared) and g.flip(0.6):
                o['route'] = 'explicit'
                if g.flip(0.7):
                    o['pshared'] = True
    groups = [[o['id'] for o in ops] for ops in tasks]
    one = g.flip(0.18)
    if one:
        # all the objects are used by one thread
        if g.flip(0.5):
            b = g.bag(d0, kind='nan')
            for ops in tasks:
                if ops[-1]['op'] == 'predict' and ops[-1]['obj'] not in other:
                    ops[-1]['bag'] = b
        merged, left = [], [list(ops) for ops in tasks]
        while any(left):
            merged.append(r.choice([x for x in left if x]).pop(0))
        tasks = [merged]
    g.s['setup'] = setup
    g.s['tasks'] = tasks
    g.s['sched'] = g.rate()
    if g.flip(0.08):
        g.s['sched'].update(mode='rate', instr=True, p=r.choice((0.0005, 0.003)))
    if g.flip(0.6 if one else 0.35):
        o = r.choice(r.choice(tasks))
        g.s['faults'].append(g.fault(o['id'], points=('est', 'np', 'solver', 'dist', 'reg', 'line')))
        if g.s['faults'][0]['point'] == 'np':
            g.s['knobs']['np'] = True
    return {'scn': g.s, 'groups': groups}


def sibling(g, i, k):
    """ a generator of another class with the parameters of generator i """
    s = json_copy(g.s['gens'][i])
    if s['kind'] != 'cov' and s['params'].get('bag_size'):
        s['kind'] = 'both' if s['kind'] == 'prior' else 'prior'
    g.s['gens'].append(s)
    return len(g.s['gens']) - 1


def json_copy(o):
    import json
    return json.loads(json.dumps(o))


def check(case, run):
    scn = case['scn']
    info = main_run(case, run)
    out = []
    bad = faulted(info)
    compared = set()
    left = {o['id']: o for ops in scn['tasks'] for o in ops}
    groups = [[left[i] for i in ids if i in left] for ids in case['groups']]
    for t, ops in enumerate(groups):
        if not ops:
            continue
        mine = {o['id'] for o in ops} | {o['id'] for o in scn.get('setup') or []}
        alone = run(derive(scn, tasks=[ops], setup=copy.deepcopy(scn.get('setup')),
                           faults=[f for f in scn['faults'] if f['op'] in mine]))
        abad = faulted(alone)
        if (bad & mine) != (abad & mine):
            continue        # the failing call is not the same one
        for o in ops:
            if o['id'] in bad:
                continue
            got, want = info['res'][o['id']], alone['res'][o['id']]
            compared.add(t)
            if not same(got, want):
                out.append(violation('influence', '%s of task %d interleaved with the others: %s, alone: %s' %
                                     (o, t, show(got), show(want)), o['id']))
    # results of concurrent operations changed by operations of others
    for oid in info['aliased']:
        out.append(violation('changed-later', 'the array returned by %s was changed by a later operation' % oid, oid))
    for name in info['templates']:
        if name.startswith(('template', 'reg')):
            out.append(violation('template', '%s is not as it was given' % name))
    where = [t for oid in info['order'] for t, ops in enumerate(groups) if any(o['id'] == oid for o in ops)]
    switched = sum(1 for a, b in zip(where, where[1:]) if a != b)
    overlap = bool(info['trace']) or switched >= len(groups)
    return out, {'nontrivial': overlap and len(compared) > 1, 'info': info}
