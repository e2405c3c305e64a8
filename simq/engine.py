"""Executes a scenario (JSON) in this process and reports what happened. Pure function of the scenario."""
import copy
import io
import os
import pickle
import random
import sys
import warnings

import numpy as np

from simq import core, stubs, world


def preload():
    """ Imports everything a scenario could need, so that children only fork """
    warnings.simplefilter('ignore')
    sys.path.insert(0, core.REPO)
    import quantificationlib
    f = os.path.realpath(quantificationlib.__file__)
    if not f.startswith(os.path.realpath(core.LIBDIR)):
        raise core.SimError('quantificationlib imported from %s' % f)
    for m in set(world.QMODS.values()) | {v[0] for v in world.EMODS.values()} | {
            'bag_generator', 'search', 'optimization', 'data_utils', 'plot.qlplot', 'metrics.binary',
            'metrics.multiclass', 'metrics.ordinal'}:
        world.lib(m)
    stubs.define_user_quantifiers()
    import sklearn.linear_model, sklearn.naive_bayes, sklearn.tree, sklearn.neighbors, sklearn.multiclass  # noqa
    import sklearn.model_selection, matplotlib  # noqa
    matplotlib.use('Agg')
    import matplotlib.pyplot  # noqa
    import joblib  # noqa
    import scipy.linalg  # noqa
    # cvxpy and its solvers initialise lazily: do it once on a toy problem, outside the library
    import cvxpy
    for solver in ('ECOS', None):
        x = cvxpy.Variable(2, nonneg=True)
        p = cvxpy.Problem(cvxpy.Minimize(cvxpy.norm(x - np.array([1.0, 2.0]), 1)), [cvxpy.sum(x) == 1])
        p.solve(solver=solver) if solver else p.solve()
    from sklearn.linear_model import LogisticRegression
    LogisticRegression().fit(np.arange(8.0).reshape(4, 2), [0, 1, 0, 1]).predict_proba(np.ones((1, 2)))
    core.lib_codes()
    import gc
    gc.collect()
    gc.freeze()


class World:
    def __init__(self, scn):
        self.scn = scn
        self.knobs = scn.get('knobs', {})
        v = self.knobs.get('verbose', 0)
        self.v = v
        self.data = [self._deliver(*world.make_data(s)) for s in scn.get('data', [])]
        self.bags = []
        for b in scn.get('bags', []):
            if b.get('kind') == 'train':
                self.bags.append(self.data[b.get('data', 0)][0])
            elif b.get('kind') == 'trainpart':
                self.bags.append(self._ro(np.array(self.data[b.get('data', 0)][0][b['lo']:b['hi']])))
            elif b.get('kind') == 'traincopy':
                self.bags.append(self._ro(np.array(self.data[b.get('data', 0)][0], order=b.get('order', 'K'))))
            elif b.get('kind') == 'trainmod':
                X = np.array(self.data[b.get('data', 0)][0])
                world.change(X, b)
                self.bags.append(self._ro(X))
            elif b.get('kind') == 'perm':
                X = self.data[b.get('data', 0)][0]
                self.bags.append(self._ro(np.array(X[np.random.RandomState(b['seed']).permutation(len(X))])))
            else:
                self.bags.append(self._ro(world.make_bag(b, scn['data'][b.get('data', 0)])))
        self.preds = {}
        self.buffers = {}
        self._est = {}
        self._gen = {}
        self._reg = {}
        self._tmpl = {}
        for i in range(len(scn.get('ests', []))):
            self.est(i)
        for i in range(len(scn.get('gens', []))):
            self.gen(i)
        for i in range(len(scn.get('regs', []))):
            self.reg(i)
        for i in range(len(scn.get('templates', []))):
            self.template(i)
        self.q = [dict(q, base=scn['templates'][q['base']]) if isinstance(q.get('base'), int) else q
                  for q in scn.get('objs', [])]
        self.objs = [world.make_quant(q, self, v) for q in scn.get('objs', [])]
        self.held = []
        self.results = {}
        self.passed = []       # arrays and lists handed to the library: [name, object, digest]
        self.copies = {}
        from simq import calls
        self.vars = [self.handed('var%d' % i, calls.make_var(v), not v.get('rw')) for i, v in enumerate(scn.get('vars', []))]
        for i, g in self._gen.items():
            for name in ('alphas', 'min_prevalence'):
                self.handed('gen%d.%s' % (i, name), getattr(g, name, None))
        for i, e in self._est.items():
            for name in ('groups', 'params_fit', 'fit_params', 'cv'):
                self.handed('est%d.%s' % (i, name), getattr(e, name, None))

    def handed(self, name, a, lock=True):
        if isinstance(a, (np.ndarray, list, dict)):
            if lock and self.knobs.get('ro'):
                for x in _arrays(a):
                    x.flags.writeable = False
            self.passed.append([name, a, state_digest(a)])
        return a

    def _ro(self, X):
        if self.knobs.get('ro') == 'memmap' and X.size:
            return memory_mapped(X)
        if self.knobs.get('ro'):
            X.flags.writeable = False
        return X

    def _deliver(self, X, y):
        return self._ro(X), self._ro(y)

    def est(self, i):
        if i not in self._est:
            self._est[i] = world.make_est(self.scn['ests'][i], self.v)
        return self._est[i]

    def gen(self, i):
        if i not in self._gen:
            self._gen[i] = world.make_gen(self.scn['gens'][i], self.v)
        return self._gen[i]

    def reg(self, i):
        if i not in self._reg:
            self._reg[i] = world.make_reg(self.scn['regs'][i])
        return self._reg[i]

    def template(self, i):
        if i not in self._tmpl:
            self._tmpl[i] = world.make_quant(self.scn['templates'][i], self, self.v)
        return self._tmpl[i]

    def bag(self, op):
        X = self.bags[op['bag']]
        buf = op.get('buf')
        if buf is not None:
            key = (buf, X.shape, str(X.dtype))
            if key not in self.buffers:
                self.buffers[key] = np.empty_like(X)
            self.buffers[key][...] = X
            return self.buffers[key]
        if op.get('rows'):
            X = X[op['rows'][0]:op['rows'][1]]
        return np.array(X, order='K') if op.get('fresh') else X

    # ---- predictions made by the harness and passed explicitly -----------------------------------------------
    def explicit(self, q, which, X, op):
        """ the predictions that the estimator route would have used """
        if op.get('pshared'):
            # one array for everybody who asks for these predictions
            key = (q[which], world.is_crisp(q), bool(q.get('eproba')), q['cls'] in ('OneVsRestQuantifier', 'FrankAndHallQuantifier'), op['op'], op.get('data'), op.get('bag'), str(op.get('rows')))
            if key not in self.preds:
                self.preds[key] = self.explicit(q, which, X, {})
            return self.preds[key]
        me = core.SIM.me()
        op, me.op = me.op, None
        try:
            e = self.est(q[which])
            if q['cls'] in ('OneVsRestQuantifier', 'FrankAndHallQuantifier'):
                return np.column_stack([b.predict_proba(X)[:, 1] for b in e.estimators_])
            if world.is_crisp(q) and not (q.get('eproba') and e.__class__.__name__ in ('StubClf', 'UserClf')):
                return np.array(e.predict(X))
            return np.array(e.predict_proba(X))
        finally:
            me.op = op

    # ---- operations ------------------------------------------------------------------------------------------
    def do(self, op):
        k = op['op']
        scn = self.scn
        if k == 'fit':
            q = self.q[op.get('spec', op['obj'])]
            o = self.objs[op['obj']]
            X, y = self.data[op['data']]
            if op.get('fresh'):                # arrays that nobody keeps afterwards
                X, y = np.array(X, order='K'), np.array(y)
            if op.get('drop') is not None:     # illegal or degenerate argument
                X, y = self._drop(X, y, op['drop'])
            if op.get('route') == 'explicit' and world.uses_est(q):
                which = 'et' if q.get('et') is not None else 'es'
                pt = None
                if q['cls'] not in ('CC', 'PCC', 'OrdinalQuantificationTree'):
                    pt = self.handed('predictions_train', self.explicit(q, which, X, op))
                kw = {}
                if q['cls'] == 'EoQ' and op.get('given') is not None:
                    kw = self._given(op, y)
                if op.get('noX'):
                    o.fit(None, y, predictions_train=pt, **kw)
                else:
                    o.fit(X, y, predictions_train=pt, **kw)
            elif q['cls'] == 'EoQ' and op.get('given') is not None:
                o.fit(X, y, **self._given(op, y))
            else:
                o.fit(X, y)
            return None
        if k == 'predict':
            q = self.q[op.get('spec', op['obj'])]
            o = self.objs[op['obj']]
            X = self.bag(op)
            if op.get('route') == 'explicit' and world.uses_est(q):
                pt = self.explicit(q, 'es', X, op)
                self.handed('predictions_test', pt)
                return o.predict(None, predictions_test=pt) if op.get('noX') else o.predict(X, predictions_test=pt)
            return o.predict(X)
        if k == 'efit':
            e = self.est(op['est'])
            X, y = self.data[op['data']]
            if scn['ests'][op['est']]['kind'] == 'eoc':
                e.fit(X, y, self.handed('indexes', self._indexes(op, y)))
            else:
                e.fit(X, y)
            return None
        if k == 'epred':
            return self.est(op['est']).predict(self.bag(op))
        if k == 'eproba':
            return self.est(op['est']).predict_proba(self.bag(op))
        if k == 'gen':
            X, y = self.data[op['data']]
            if op.get('drop') is not None:
                X, y = self._drop(X, y, op['drop'])
            r = self.gen(op['gen']).generate_bags(X, y)
            return {'prev': r[0], 'idx': r[1]}
        if k == 'copy':
            return self._copy(op)
        if k == 'export':
            store = {'obj': self.objs, 'est': self._est, 'gen': self._gen}[op.get('what', 'obj')]
            return {'pickle': np.frombuffer(pickle.dumps(store[op['obj']], protocol=op.get('protocol', 4)), dtype=np.uint8)}
        if k == 'import':
            store = {'obj': self.objs, 'est': self._est, 'gen': self._gen}[op.get('what', 'obj')]
            store[op['obj']] = pickle.loads(bytes(bytearray(op['bytes'])))
            return None
        if k == 'scribble':
            for oid, v, d in self.held:
                if oid == op['on']:
                    for a in _arrays(v):
                        if a.flags.writeable:
                            a[...] = op.get('val', -7)
            self.held = [h for h in self.held if h[0] != op['on']]
            return None
        if k == 'setgen':
            setattr(self.gen(op['gen']), op['name'], world.resolve(op['val']))
            return None
        if k == 'setparam':
            o = self.objs[op['obj']]
            if op.get('deep'):
                # a parameter of the base quantifier, of that object or of another one in its place
                at = 'quantifier' if hasattr(o, 'quantifier') else 'base_quantifier'
                if op['deep'] == 'new':
                    setattr(o, at, world.make_quant(op['spec'], self, self.v))
                    return None
                if op['deep'] == 'copy':
                    setattr(o, at, copy.deepcopy(getattr(o, at)))
                o = getattr(o, at)
            setattr(o, op['name'], world.resolve(op['val']))
            return None
        if k == 'setverbose':
            set_verbose([self.objs, self._est, self._gen], op['val'], set())
            return None
        if k in ('del', 'renew'):
            # the object is forgotten; another one is created, perhaps at the same address
            self.objs[op['obj']] = None
            if op.get('gc'):
                import gc
                gc.collect()
            if k == 'renew':
                spec = self.scn['objs'][op['obj']]
                self.objs[op['obj']] = world.make_quant(dict(spec, params=dict(spec['params'], **op.get('params', {}))), self, self.v)
            return None
        if k == 'np_seed':
            np.random.seed(op['val'])
            return None
        if k == 'np_draw':
            np.random.rand(op.get('n', 1))
            random.random()
            return None
        if k == 'rewrite':
            from simq import simdisk
            simdisk.rewrite(op['file'], op['to'], op['how'], op['mtime'])
            return None
        if k == 'load':
            from simq import simdisk
            import pathlib
            p = simdisk.path(op['file'])
            X, y = world.lib('data_utils').load_data(pathlib.Path(p) if op.get('pathlib') else p)
            return {'X': X, 'y': y}
        if k == 'call':
            from simq import calls
            return calls.call(self, op)
        raise core.SimError('unknown operation %r' % (op,))

    def _drop(self, X, y, how):
        if how == 'oneclass':
            m = y == y[0]
            return X[m], y[m]
        if how == 'lenmismatch':
            return X, y[:-1]
        if how == 'empty':
            return X[:0], y[:0]
        if how == 'nan':
            X = np.array(X, dtype=float)
            X[0, 0] = np.nan
            return X, y
        if how == 'single':
            idx = np.array([np.where(y == c)[0][0] for c in np.unique(y)])
            return X[idx], y[idx]
        raise core.SimError(how)

    def _indexes(self, op, y):
        rs = np.random.RandomState(op.get('iseed', 5))
        n = op.get('nest', 3)
        cols = []
        classes = np.unique(y)
        for j in range(n):
            idx = rs.randint(0, len(y), len(y))
            for i, c in enumerate(classes):
                idx[i] = rs.choice(np.where(y == c)[0])
            cols.append(idx)
        return np.array(cols).T.astype(np.uint32)

    def _given(self, op, y):
        idx = self._indexes(dict(op, nest=op['given']), y)
        prev = np.array([[np.mean(y[idx[:, j]] == c) for j in range(idx.shape[1])] for c in np.unique(y)])
        return {'prevalences': self.handed('prevalences', prev), 'indexes': self.handed('indexes', idx)}

    def _copy(self, op):
        how = op['how']
        kind = op.get('what', 'obj')
        store = {'obj': self.objs, 'est': self._est, 'gen': self._gen}[kind]
        o = store[op['obj']]
        if how == 'deepcopy':
            n = copy.deepcopy(o)
        elif how == 'copy':
            n = copy.copy(o)
        elif how == 'joblib':
            import joblib
            b = io.BytesIO()
            joblib.dump(o, b)
            b.seek(0)
            n = joblib.load(b)
        else:
            n = pickle.loads(pickle.dumps(o, protocol=op.get('protocol', 4)))
        if op.get('to') is not None:
            if kind == 'obj':
                while len(self.objs) <= op['to']:
                    self.objs.append(None)
            store[op['to']] = n
        else:
            store[op['obj']] = n
        return None


def set_verbose(o, v, seen):
    """ of every object of the library that can be reached """
    if id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, dict):
        o = list(o.values())
    if isinstance(o, (list, tuple)) or (isinstance(o, np.ndarray) and o.dtype == object):
        for x in list(np.ravel(o)) if isinstance(o, np.ndarray) else o:
            set_verbose(x, v, seen)
    elif type(o).__module__.startswith('quantificationlib'):
        if 'verbose' in vars(o):
            o.verbose = v
        for x in list(vars(o).values()):
            set_verbose(x, v, seen)


def memory_mapped(X):
    import tempfile
    with tempfile.TemporaryFile() as f:
        f.write(np.asarray(X).tobytes(order='F' if X.flags.f_contiguous else 'C'))
        f.flush()
        return np.memmap(f, dtype=X.dtype, mode='r', shape=X.shape, order='F' if X.flags.f_contiguous else 'C')


def _arrays(v):
    if isinstance(v, np.ndarray):
        return [v]
    if isinstance(v, dict):
        return [a for x in v.values() for a in _arrays(x)]
    if isinstance(v, (list, tuple)):
        return [a for x in v for a in _arrays(x)]
    return []


def norm_value(v):
    """ what a caller can observe of a result: a dict of arrays """
    if v is None:
        return {}
    if isinstance(v, dict):
        return {str(k): np.array(x, copy=True) for k, x in v.items()}
    return {'value': np.array(v, copy=True)}


def note_coverage():
    if os.environ.get('SIMQ_COVDIR'):
        with open(os.path.join(os.environ['SIMQ_COVDIR'], '%d' % os.getpid()), 'a') as f:
            f.write(repr(sorted(core.COVERED)) + '\n')


def describe_exc(e):
    chain = []
    seen = set()
    inj = False
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        chain.append(type(e).__name__)
        if getattr(e, '_sim_injected', False) or 'injected failure' in str(e):
            inj = True
        if len(chain) == 1:
            msg = str(e)
            d = getattr(sys.modules.get('simq.simdisk'), 'STATE', {}).get('dir')
            msg = (msg.replace(d, '/disk') if d else msg)[:300]
        e = e.__cause__ or e.__context__
    return {'kind': 'exc', 'type': chain[0], 'chain': chain, 'injected': inj, 'msg': msg}


def state_digest(o, depth=0, memo=None):
    """ digest of everything reachable from an object: used to see whether templates were altered """
    import hashlib
    import types
    memo = {} if memo is None else memo
    if id(o) in memo:
        return 'ref'
    if isinstance(o, (int, float, complex, str, bytes, bool, type(None), np.generic)):
        return repr(o)
    if isinstance(o, np.ndarray):
        return stubs.digest(o) if o.dtype != object else '[' + ','.join(state_digest(x, depth + 1, memo) for x in o.ravel()) + ']'
    if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, type, np.ufunc, core.Wrapped)):
        return getattr(o, '__qualname__', getattr(o, '__name__', '?'))
    memo[id(o)] = o
    if isinstance(o, np.random.RandomState):
        st = o.get_state()
        return hashlib.sha1(repr([st[0], st[1].tolist(), st[2:]]).encode()).hexdigest()[:12]
    if isinstance(o, (list, tuple)):
        return '[' + ','.join(state_digest(x, depth + 1, memo) for x in o) + ']'
    if isinstance(o, (set, frozenset)):
        return '{' + ','.join(sorted(state_digest(x, depth + 1, memo) for x in o)) + '}'
    if isinstance(o, dict):
        return '{' + ','.join(sorted(repr(k) + ':' + state_digest(x, depth + 1, memo) for k, x in o.items())) + '}'
    if hasattr(o, '__dict__') and depth < 12:
        return type(o).__name__ + state_digest(dict(vars(o)), depth + 1, memo)
    return type(o).__name__


def global_rng_digest():
    st = np.random.get_state()
    import hashlib
    return hashlib.sha1(repr([st[0], st[1].tolist(), st[2:]]).encode() + repr(random.getstate()).encode()).hexdigest()[:16]


def execute(scn):
    """ Runs the scenario in this process """
    warnings.simplefilter('ignore')
    knobs = scn.get('knobs', {})
    out = core.FakeOut()
    sys.stdout = out
    sys.stderr = open(os.devnull, 'w')
    stubs.EVENTS.clear()
    stubs.REGISTRY.clear()
    install_clock(knobs.get('clock', 0))
    if knobs.get('np_state') is not None:
        np.random.seed(knobs['np_state'])
        random.seed(knobs['np_state'])
    sim = core.Sim(scn.get('sched'), scn.get('faults', ()), budget=knobs.get('budget', 6000000),
                   interfere=INTERFERE[knobs['interfere']] if knobs.get('interfere') else None)
    if knobs.get('places'):
        sim.callsites = {}
    if knobs.get('lines'):
        sim.count_lines = True
    core.install_solver_seam()
    core.install_id_seam(scn.get('knobs', {}).get('idseed'))
    if knobs.get('joblib'):
        from simq import joblib_sim
        joblib_sim.install(**knobs['joblib'])
    if knobs.get('disk'):
        from simq import simdisk
        simdisk.install(scn)
    W = World(scn)
    tmpl = {}

    def digests():
        d = {}
        for i, g in W._gen.items():
            d['gen%d' % i] = state_digest(g)
        for i, g in W._reg.items():
            d['reg%d' % i] = state_digest(g)
        for i, g in W._tmpl.items():
            # a generator inside is shared with the caller, who may use it
            d['template%d' % i] = state_digest({k: v for k, v in vars(g).items() if not hasattr(v, 'generate_bags')})
        return d

    def data_digests():
        d = {}
        for i, (X, y) in enumerate(W.data):
            d['data%d.X' % i] = stubs.digest(X)
            d['data%d.y' % i] = stubs.digest(y)
        for i, b in enumerate(W.bags):
            d['bag%d' % i] = stubs.digest(b)
        return d
    before = data_digests()
    tmpl['before'] = digests()
    if knobs.get('np'):
        core.install_np_proxy()
    rng0 = global_rng_digest()
    res = {}
    opc = {}
    order = []
    marks = {}
    estat = {}

    def run_task(ops):
        me = core.SIM.me()
        for op in ops:
            oid = op['id']
            if op.get('probe'):          # not counted, no faults
                me.op = None
            else:
                me.op = oid
            me.oplines = 0
            ev0 = len(stubs.EVENTS)
            try:
                if op['op'] == 'forkpredict':
                    r = fork_ops(W, op)
                    res.update(r)
                    continue
                v = W.do(op)
                me.op = None
                nv = norm_value(v)
                res[oid] = {'kind': 'ok', 'val': nv}
                if v is not None:
                    W.held.append((oid, v, nv))
            except core.SimError:
                raise
            except BaseException as e:
                me.op = None
                res[oid] = describe_exc(e)
            order.append(oid)
            if knobs.get('estat'):
                est_status(W, oid, op, estat)
            marks[oid] = [ev0, len(stubs.EVENTS)]
            core.SIM.oplines[oid] = me.oplines
        return True

    sim.install_monitoring(instructions=bool((scn.get('sched') or {}).get('instr')))
    if scn.get('setup'):
        mode, sim.mode = sim.mode, 'none'
        sim.spawn(lambda: run_task(scn['setup']))
        sim.run_all()
        sim.mode = mode
    for ops in scn['tasks']:
        sim.spawn(lambda ops=ops: run_task(ops))
    sim.run_all()
    for t in sim.tasks:
        if t.error is not None and t.name != 'worker':
            raise t.error
    aliased = []
    for oid, v, nv in W.held:
        cur = norm_value(v)
        for k in nv:
            if not (cur[k].shape == nv[k].shape and same_bits(cur[k], nv[k])):
                aliased.append(oid)
    after = data_digests()
    for name, a, d in W.passed:
        if state_digest(a) != d:
            before[name] = d
            after[name] = 'altered'
    if knobs.get('estat'):
        for i, st in estat.items():
            st['altered'] = state_digest(W._est[i]) != st['digest']
    info = {
        'res': res, 'order': order, 'marks': marks,
        'events': list(stubs.EVENTS), 'counts': [[k[0], k[1], v] for k, v in sorted(sim.counts.items(), key=repr)],
        'fired': sim.fired, 'trace': sim.trace, 'steps': sim.step, 'lines': sim.lines, 'oplines': dict(sim.oplines),
        'sites': sorted(sim.sites, key=repr),
        'mutated': sorted(k for k in before if before[k] != after[k]),
        'templates': sorted(k for k, v in tmpl['before'].items() if digests()[k] != v),
        'cached_altered': stubs.cached_outputs_altered(),
        'aliased': sorted(set(aliased)),
        'rng_same': rng0 == global_rng_digest(),
        'writes': out.n, 'overrun': sim.overrun, 'estat': estat,
    }
    if sim.callsites is not None:
        info['callsites'] = [[k[0], k[1], sorted(v.items())] for k, v in sorted(sim.callsites.items(), key=repr)]
    if knobs.get('joblib'):
        from simq import joblib_sim
        info['joblib'] = dict(joblib_sim.STATE)
    if knobs.get('disk'):
        from simq import simdisk
        info['disk'] = simdisk.report()
    note_coverage()
    return info


def est_status(W, oid, op, estat):
    """ which estimators are trained by now, and the operation that trained them """
    from sklearn.exceptions import NotFittedError
    for i, e in W._est.items():
        if i in estat:
            continue
        X = W.data[op['data']][0] if op.get('data') is not None else W.data[0][0]
        try:
            e.predict(np.array(X[0:1]))
        except NotFittedError:
            continue
        except Exception:
            pass
        estat[i] = {'op': oid, 'data': op.get('data'), 'digest': state_digest(e)}


def fork_ops(W, op):
    """ each of the listed operations in its own grandchild: each is the first prediction of the fitted object """
    from simq.procs import run_in_child
    out = {}
    for sub in op['ops']:
        def one(sub=sub):
            core.SIM.me().op = None
            try:
                return {'kind': 'ok', 'val': norm_value(W.do(sub))}
            except BaseException as e:
                return describe_exc(e)
        o = run_in_child(one, (), timeout=50)
        out[sub['id']] = o.value if o.kind == 'ok' else {'kind': o.kind, 'msg': str(o.value)}
    return out


def same_bits(a, b):
    if a.dtype != b.dtype:
        return False
    if a.dtype == object:
        return a.tolist() == b.tolist()
    return a.tobytes() == b.tobytes()


class Clock:
    """ The wall clock of the simulated process: starts where the scenario says, every reading takes a millisecond """

    def __init__(self, start):
        self.ns = 1700000000 * 10 ** 9 + int(start * 10 ** 9)

    def time_ns(self):
        self.ns += 10 ** 6
        return self.ns

    def time(self):
        return self.time_ns() / 1e9


def install_clock(start):
    import time
    c = Clock(start)
    for name in ('time', 'perf_counter', 'process_time', 'thread_time'):
        setattr(time, name, c.time)
        setattr(time, name + '_ns', c.time_ns)


# ---- interference with the global random generators at every seam ---------------------------------------------------
def _interfere_draw(sim, kind):
    np.random.rand()
    random.random()


def _interfere_seed(sim, kind):
    np.random.seed(sim.step % 1000)
    random.seed(sim.step % 1000)


INTERFERE = {'draw': _interfere_draw, 'seed': _interfere_seed}
