"""Random scenarios: swarm generation of data, estimators, generators, quantifiers, bags, histories and faults."""
import random

BINARY_ONLY = ('DeBias', 'SORDy', 'QUANTy')
MULTI_ONLY = ('ACOrdinal', 'PDFOrdinaly', 'OrdinalQuantificationTree', 'FrankAndHallQuantifier', 'OneVsRestQuantifier')
ALL_Q = ('CC', 'PCC', 'AC', 'PAC', 'DeBias', 'SORDy', 'QUANTy', 'DFy', 'HDy', 'MMy', 'DFX', 'HDX', 'EM', 'EDy', 'CvMy',
         'EDX', 'FriedmanME', 'PWKQuantifier', 'REGX', 'REGy', 'OneVsRestQuantifier', 'FrankAndHallQuantifier', 'EoQ',
         'ACOrdinal', 'PDFOrdinaly', 'OrdinalQuantificationTree')
BASE_BIN = ('AC', 'PAC', 'HDy', 'EDy', 'EDX', 'CC', 'PCC', 'DeBias', 'SORDy', 'QUANTy', 'EM', 'FriedmanME', 'DFX', 'HDX',
            'PWKQuantifier', 'PWKQuantifier', 'DFy', 'MMy', 'CvMy', 'REGX', 'UserX', 'UserY')
BASE_ANY = ('AC', 'PAC', 'HDy', 'EDy', 'EDX', 'PCC', 'EM', 'FriedmanME', 'DFX', 'HDX', 'PWKQuantifier', 'PWKQuantifier', 'DFy', 'MMy',
            'CvMy', 'CC', 'UserX', 'UserX', 'UserY')
WITHOUT = ('DFX', 'HDX', 'EDX', 'PWKQuantifier', 'REGX', 'UserX')
CRISP = ('CC', 'AC', 'ACOrdinal')
SOLVER_Q = ('AC', 'PAC', 'DFy', 'HDy', 'MMy', 'DFX', 'HDX', 'EDy', 'CvMy', 'EDX', 'FriedmanME', 'PWKQuantifier', 'ACOrdinal',
            'PDFOrdinaly')
LIBDIST = ('metrics.multiclass.l1', 'metrics.multiclass.l2', 'metrics.multiclass.topsoe', 'metrics.multiclass.probsymmetric',
           'metrics.multiclass.jensenshannon', 'metrics.multiclass.hd')


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.s = {'data': [], 'bags': [], 'ests': [], 'gens': [], 'regs': [], 'templates': [], 'objs': [], 'tasks': [],
                  'sched': {'mode': 'none'}, 'faults': [], 'knobs': {}}
        self.nops = 0
        self.seeded_cv = False     # only splitters that give the same partitions each time
        self.noisy = 0.05
        self.est_pool = {}
        # now and then something is much larger; other draws do not depend on it
        self.large = 0.008
        self.rl = random.Random(seed ^ 0x5eed1a46e)

    # ---- small helpers ---------------------------------------------------------------------------------------
    def much(self, x, *larger, p=0.025):
        """ now and then a value out of the usual range """
        return self.rl.choice(larger) if self.rl.random() < p else x

    def pick(self, *xs):
        return xs[self.r.randrange(len(xs))]

    def choice(self, xs):
        return xs[self.r.randrange(len(xs))]

    def flip(self, p):
        return self.r.random() < p

    def weighted(self, pairs):
        t = sum(w for _, w in pairs)
        x = self.r.random() * t
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def op(self, kind, **kw):
        self.nops += 1
        d = {'id': 'o%d' % self.nops, 'op': kind}
        d.update(kw)
        return d

    # ---- data ------------------------------------------------------------------------------------------------
    def data(self, k, n=None, like=None, numeric=False, **over):
        r = self.r
        if like is not None:
            d = dict(self.s["data"][like], seed=r.randrange(1 << 30), k=k)
            if self.flip(0.6):
                # visibly different from the other one
                if self.flip(0.7):
                    d['sep'] = r.choice([x for x in (0.4, 1.0, 1.5, 2.5, 4.0, -1.0, -2.5) if x != d['sep']])
                if self.flip(0.5):
                    d['imb'] = not d.get('imb', False)
            d.update(over)
        else:
            d = {'seed': r.randrange(1 << 30), 'k': k, 'n': n or r.choice((20, 30, 40, 60)), 'd': r.choice((1, 2, 2, 3)),
                 'lab': self.weighted([('int0', 4), ('int1', 3), ('pm1', 2), ('gap', 2), ('neg', 1)] +
                                      ([] if numeric else [('str', 1.2)])),
                 'sep': r.choice((0.4, 1.0, 1.5, 2.5, 4.0)), 'minper': 5}
            if self.flip(0.35):
                d['imb'] = True
            if self.flip(0.12):
                d['round'] = r.choice((0, 1))
            if self.flip(0.1):
                d['offset'] = r.choice((-5.0, 100.0))
            if self.flip(0.08):
                d['dup'] = True
            if self.flip(0.15):
                d['order'] = 'sorted'
            if self.flip(0.25):
                d['mem'] = r.choice(('F', 'view', 'f32', 'int'))
            d.update(over)
            if self.rl.random() < self.large and not over:
                d['n'] = self.rl.choice((260, 520, 1100))
            if not over:
                d['d'] = self.much(d['d'], 6, 12)
        self.s['data'].append(d)
        return len(self.s['data']) - 1

    def bag(self, data=0, kind=None, **over):
        r = self.r
        k = self.s['data'][data]['k']
        kind = kind or self.weighted([('rand', 5), ('single', 1), ('oneclass', 1.2), ('train', 0.8), ('perm', 0.6),
                                      ('far', 0.6), ('same', 0.4), ('trainpart', 0.6)])
        b = {'data': data, 'seed': r.randrange(1 << 30), 'n': r.choice((5, 10, 20, 30, 45))}
        prev = [round(r.random() ** 2, 3) + 0.001 for _ in range(k)]
        if self.flip(0.3):
            prev[r.randrange(k)] = 0
        if not any(prev):
            prev[0] = 1
        b['prev'] = prev
        if kind == 'single':
            b['n'] = 1
        elif kind == 'oneclass':
            j = r.randrange(k)
            b['prev'] = [1 if i == j else 0 for i in range(k)]
        elif kind == 'far':
            b['far'] = r.choice((-6.0, 6.0, 30.0))
        elif kind == 'same':
            b['same'] = True
        elif kind in ('train', 'perm'):
            b['kind'] = kind
        elif kind == 'trainpart':
            b.update(kind=kind, lo=r.randrange(4), hi=r.randrange(8, 18))
        elif kind in ('empty', 'nan'):
            b['kind'] = kind
        b.update(over)
        if self.rl.random() < self.large and not over and 'kind' not in b and b['n'] > 1:
            b['n'] = self.rl.choice((260, 520, 1100, 2100))
        self.s['bags'].append(b)
        return len(self.s['bags']) - 1

    def twin_bag(self, i):
        """ a bag that is easily taken for bag i """
        b = dict(self.s['bags'][i])
        if b.get('kind') is not None:
            return None
        b['mirror'] = not b.get('mirror', False)
        self.s['bags'].append(b)
        return len(self.s['bags']) - 1

    def near_bag(self, i):
        """ bag i with one other row """
        b = dict(self.s['bags'][i])
        if b.get('kind') is not None:
            return None
        b['near'] = self.r.randrange(b['n'])
        self.s['bags'].append(b)
        return len(self.s['bags']) - 1

    # ---- estimators ------------------------------------------------------------------------------------------
    def stub(self, **over):
        r = self.r
        s = {'kind': 'stub', 'uid': 'e%d' % len(self.s['ests']),
             'mode': self.weighted([('soft', 6), ('hard', 1), ('tied', 1), ('const', 0.3), ('skew', 0.8), ('swap', 0.8), ('blind', 0.4)]),
             'temp': r.choice((0.3, 1.0, 1.0, 3.0))}
        if self.flip(0.3):
            s['out'] = r.choice(('f', 'cached', 'ro'))
        if self.flip(self.noisy):
            s['noisy'] = True
        s.update(over)
        return s

    def base_est(self, pure=True, **over):
        if pure or self.flip(0.7):
            return self.stub(**over)
        return self.weighted([({'kind': 'lr'}, 2), ({'kind': 'nb'}, 1), ({'kind': 'tree'}, 1), ({'kind': 'knn'}, 1)])

    def cv_spec(self, data=0, simple=False):
        r = self.r
        d = self.s['data'][data]
        kinds = [(r.choice((2, 3, 5)), 4), ({'kind': 'kfold', 'n': 3, 'shuffle': True, 'rs': r.randrange(99)}, 1),
                 ({'kind': 'skfold', 'n': r.choice((2, 4)), 'shuffle': True, 'rs': r.randrange(99)}, 1.5),
                 ({'kind': 'rskfold', 'n': r.choice((2, 3)), 'rep': 2, 'rs': r.randrange(99)}, 1.5)]
        if not simple and not self.seeded_cv:
            kinds += [({'kind': 'skfold_rs', 'n': 3, 'rs': r.randrange(99)}, 1)]
        cv = self.weighted(kinds)
        return cv if d['n'] < 20 else self.much(cv, {'kind': 'kfold', 'n': 10, 'shuffle': True, 'rs': 7})

    def est_spec(self, k, role='both', kinds=None, pure=True, data=0, n_jobs=None, **over):
        """ a new specification of an estimator """
        kind = self.weighted(kinds or ([('stub', 4), ('cv', 2.5)] + ([('fh', 0.3), ('fhm', 0.6), ('fht', 0.8), ('ddag', 0.8),
                                       ('cvfh', 0.2)] if k > 2 else []) +
                                       ([] if pure else [('real', 1.5), ('pwk', 0.5)])))
        if kind == 'stub':
            s = self.stub(**over)
            if self.flip(0.07):
                s['plain'] = True
        elif kind == 'real':
            s = self.weighted([({'kind': 'lr'}, 2), ({'kind': 'nb'}, 1), ({'kind': 'tree'}, 1), ({'kind': 'knn'}, 1)])
        elif kind == 'cv':
            s = {'kind': 'cv', 'base': self.base_est(pure, **over), 'cv': self.cv_spec(data), 'avg': self.flip(0.75),
                 'voting': self.pick('hard', 'soft')}
        elif kind == 'cvfh':
            s = {'kind': 'cv', 'base': {'kind': self.pick('fhm', 'fht', 'ddag'), 'base': self.base_est(pure, **over)},
                 'cv': self.r.choice((2, 3)), 'avg': self.flip(0.75), 'voting': self.pick('hard', 'soft')}
        elif kind == 'pwk':
            s = {'kind': 'pwk', 'n': self.r.choice((3, 5)), 'p': self.r.choice((1, 2))}
        elif kind == 'ovr':
            s = {'kind': 'ovr', 'base': self.base_est(pure, **over)}
        elif kind == 'eoc':
            s = {'kind': 'eoc', 'base': self.base_est(pure, **over)}
        else:
            inner = self.base_est(pure, **over)
            if self.flip(0.2) and kind != 'fht':
                inner = {'kind': 'cv', 'base': inner, 'cv': self.r.choice((2, 3)), 'avg': True,
                         'voting': self.pick('hard', 'soft')}
            s = {'kind': kind, 'base': inner}
            if kind in ('fh', 'fhm', 'fht') and inner['kind'] == 'stub' and self.flip(0.3):
                s['params_fit'] = [{'temp': self.r.choice((0.2, 0.5, 1.0, 2.0, 5.0))} for _ in range(k - 1)]
            if kind == 'ddag':
                s['method'] = self.pick('full_probabilistic', 'winner_node')
            if kind == 'fht' and self.flip(0.3):
                s['measure'] = self.choice(({'$dist': 'user_measure'}, {'$lib': 'metrics.binary.absolute_error'}))
        if n_jobs is not None and s['kind'] != 'stub':
            s['n_jobs'] = self.much(n_jobs, 6, 8, 16, -2, p=0.05)
        return s

    def est(self, k, **kw):
        self.s['ests'].append(self.est_spec(k, **kw))
        return len(self.s['ests']) - 1

    # ---- generators, regressors ------------------------------------------------------------------------------
    def gen_spec(self, k, n_bags=None, allclasses=False, seedkind='int', min_size=None):
        r = self.r
        kind = self.weighted([('prior', 3), ('cov', 1.2), ('both', 1.2)]) if not allclasses else 'prior'
        p = {'n_bags': n_bags or self.much(r.choice((3, 5, 8, 12)), 40, 110), 'bag_size': r.choice((10, 15, 20, 33))}
        if min_size:
            p['bag_size'] = max(min_size, p['bag_size'])
        if kind == 'prior' and self.flip(0.2):
            p['bag_size'] = None
        seed = r.randrange(1000)
        p['random_state'] = {'int': seed, 'rs': {'$rs': seed}, 'nprs': {'$nprs': seed}}[seedkind]
        if kind != 'cov':
            if allclasses:
                p['min_prevalence'] = round(r.choice((0.2, 0.25)) * (2.0 / k), 3)
                p['bag_size'] = r.choice((30, 40))
            else:
                p['method'] = self.weighted([('Uniform', 2), ('Dirichlet', 1)])
                if p['method'] == 'Dirichlet':
                    al = [round(0.2 + 2 * r.random(), 2) for _ in range(k)]
                    p['alphas'] = self.choice((al, {'$arr': al}, 1.0, 0.5))
                    if p['alphas'] in (1.0, 0.5) and self.flip(0.5):
                        p['alphas'] = al
                elif self.flip(0.5):
                    mp = [round(r.random() / (k + 1), 2) for _ in range(k)]
                    p['min_prevalence'] = self.choice((mp, {'$arr': mp}, round(0.8 * r.random() / k, 3), 0.0))
        return {'kind': kind, 'params': p}

    def gen(self, k, **kw):
        self.s['gens'].append(self.gen_spec(k, **kw))
        return len(self.s['gens']) - 1

    def reg(self):
        self.s['regs'].append(self.choice(({'kind': 'stub', 'uid': 'r%d' % len(self.s['regs'])}, {'kind': 'lin'}, {'kind': 'tree'})))
        return len(self.s['regs']) - 1

    # ---- quantifiers -----------------------------------------------------------------------------------------
    def q_params(self, cls, k, plain_bins=False):
        r = self.r
        p = {}

        def bins(extra=()):
            st = [('equal_width', 3), ('equal_count', 1.5)] + ([('binormal', 1)] if k == 2 else [])
            if not plain_bins:
                st += [('normal', 1)]
            return self.weighted(st)

        def vecdist():
            if self.flip(0.6):
                return {'$dist': self.choice(('user_l1', 'user_l2', 'user_wiggly'))}
            return {'$lib': self.choice(LIBDIST)}

        def pairdist():
            return self.weighted([({'$dist': 'user_manhattan'}, 2), ({'$dist': 'user_euclid'}, 1),
                                  ({'$sk': 'euclidean_distances'}, 1), ({'$sk': 'manhattan_distances'}, 1), (None, 2)])
        if cls in ('AC', 'PAC'):
            p['distance'] = self.pick('HD', 'L2', 'L1')
        elif cls == 'DFy':
            p.update(distribution_function=self.pick('PDF', 'CDF'), n_bins=self.much(r.choice((2, 3, 4, 8)), 20, 64), bin_strategy=bins(),
                     distance=self.weighted([('HD', 2), ('L1', 1.5), ('L2', 1.5)] + ([(vecdist(), 3)] if k == 2 else [])))
        elif cls in ('HDy', 'MMy'):
            p.update(n_bins=self.much(r.choice((2, 3, 4, 8)), 20, 64), bin_strategy=bins())
        elif cls == 'DFX':
            p.update(distribution_function=self.pick('PDF', 'CDF'), n_bins=self.much(r.choice((2, 3, 4, 8)), 20, 64), bin_strategy=bins(),
                     distance=self.weighted([('HD', 2), ('L1', 1.5), ('L2', 1.5)] + ([(vecdist(), 3)] if k == 2 else [])))
        elif cls == 'HDX':
            p.update(n_bins=self.much(r.choice((2, 3, 4, 8)), 20, 64), bin_strategy=bins())
        elif cls == 'QUANTy':
            p.update(n_quantiles=self.much(r.choice((2, 4, 8)), 20, 64))
            if self.flip(0.7):
                p['distance'] = vecdist()
        elif cls == 'SORDy':
            p.update(tol=r.choice((1e-2, 1e-3)))
        elif cls == 'EM':
            if self.flip(0.5):
                p.update(epsilon=r.choice((1e-2, 1e-4, 1e-6)), max_iter=r.choice((1, 5, 50, 300)))
        elif cls in ('EDy', 'CvMy', 'EDX'):
            d = pairdist()
            if cls == 'EDy' and self.flip(0.1):
                d = {'$lib': 'metrics.ordinal.emd_distances'}
            if d is not None:
                p['distance'] = d
        elif cls == 'FriedmanME':
            p['distance'] = self.weighted([('HD', 1), ('L1', 1), ('L2', 1)] + ([(vecdist(), 1.5)] if k == 2 else []))
        elif cls == 'PWKQuantifier':
            p.update(n_neighbors=self.much(r.choice((1, 3, 5)), 10, 15), p=r.choice((1, 2)))
        elif cls in ('UserX', 'UserY'):
            p.update(how=self.pick('near', 'near', 'onehot', 'first'))
        elif cls in ('REGX', 'REGy'):
            p.update(n_bins=r.choice((2, 3, 4)), bin_strategy=bins())
        elif cls == 'PDFOrdinaly':
            p.update(n_bins=r.choice((2, 4, 8)), distance=self.pick('HD', 'L2', 'EMD'),
                     method=self.pick('full_probabilistic', 'winner_node'))
        elif cls == 'EoQ':
            p.update(n_quantifiers=self.much(r.choice((1, 2, 3, 5)), 12, 25), n_bins=100,
                     combination_strategy=self.pick('mean', 'median', 'prevalence_similarity', 'distribution_similarity', 'all'),
                     percentage_of_selected_models=r.choice((0.1, 0.5, 0.8, 1.0)))
            if self.flip(0.3):
                p['distance_bags'] = self.pick('cityblock', 'chebyshev')
        return p

    def classes_for(self, k, numeric=True, exclude=(), only=None):
        out = []
        for c in (only or ALL_Q):
            if c in exclude:
                continue
            if c in BINARY_ONLY and k != 2:
                continue
            if c in MULTI_ONLY and k < 3:
                continue
            if c == 'SORDy' and not numeric:
                continue
            out.append(c)
            if only is None and c == 'EoQ':
                out.append(c)
        return out

    def q_spec(self, k, cls=None, share=0.0, data=0, pure=True, exclude=(), only=None, gen=None, n_jobs=None, default_gen=0.1,
               template=0.0, est_kw=None):
        """ specification of a quantifier; estimators are new or, with probability share, those of another one """
        r = self.r
        numeric = self.s['data'][data]['lab'] != 'str'
        cls = cls or self.choice(self.classes_for(k, numeric, exclude, only))
        q = {'cls': cls, 'params': self.q_params(cls, k)}

        def est(tag, **kw):
            pool = self.est_pool.setdefault(tag, [])
            if pool and self.flip(share):
                return self.choice(pool)
            e = self.est(k, pure=pure, data=data, n_jobs=n_jobs, **dict(kw, **(est_kw or {})))
            pool.append(e)
            return e
        if cls in WITHOUT:
            pass
        elif cls in ('OneVsRestQuantifier', 'FrankAndHallQuantifier'):
            bc = self.choice(self.classes_for(2, True, exclude, BASE_BIN))
            base = {'cls': bc, 'params': self.q_params(bc, 2, plain_bins=True)}
            if bc == 'REGX':
                base['gen'] = self.gen(2, n_bags=r.choice((8, 12)))
                base['reg'] = self.reg()
            if self.flip(template):
                self.s['templates'].append(base)
                q['base'] = len(self.s['templates']) - 1
            else:
                q['base'] = base
            if bc not in WITHOUT:
                kind = [('ovr', 1)] if cls == 'OneVsRestQuantifier' else [('fh', 2), ('fhm', 1), ('fht', 1)]
                q['et'] = est(cls, kinds=kind)
                q['es'] = q['et'] if self.flip(0.6) else est(cls, kinds=kind)
                if bc in ('CC', 'PCC'):
                    q['et'] = None if self.flip(0.5) else q['et']
        elif cls == 'EoQ':
            bc = self.choice(self.classes_for(k, numeric, exclude, BASE_ANY))
            q['base'] = {'cls': bc, 'params': self.q_params(bc, k, plain_bins=True)}
            if self.flip(template):
                self.s['templates'].append(q['base'])
                q['base'] = len(self.s['templates']) - 1
            if not self.flip(default_gen):
                q['gen'] = self.gen(k, allclasses=True)
            if bc not in WITHOUT:
                kinds = [('stub', 2)] + ([('eoc', 2), ('cv', 1)] if bc not in CRISP else [])
                tag = 'eoq' + ('crisp' if bc in CRISP else '')
                kk = dict(kinds=kinds)
                q['et'] = est(tag, **kk)
                q['es'] = q['et'] if self.flip(0.6) else est(tag, **kk)
                if self.s['ests'][q['et']]['kind'] == 'eoc' or self.s['ests'][q['es']]['kind'] == 'eoc':
                    q['es'] = q['et']
                if self.s['ests'][q['es']]['kind'] == 'cv':
                    self.s['ests'][q['es']]['avg'] = True
        elif cls == 'OrdinalQuantificationTree':
            q['es'] = self.est(k, kinds=[('stub', 1)], pure=pure)
        elif cls in ('CC', 'PCC'):
            q['es'] = est('any')
            if cls == 'PCC' and self._is_fh(self.s['ests'][q['es']]):
                q['es'] = self.est(k, pure=pure, kinds=[('stub', 1)])
        else:
            normal = q['params'].get('bin_strategy') == 'normal'
            q['et'] = est('any')
            q['es'] = q['et'] if self.flip(0.6) else est('any')
            if cls in ('REGX', 'REGy'):
                pass
            if normal:
                e = self.s['ests'][q['et']]
                if e['kind'] == 'cv':
                    q['params']['bin_strategy'] = 'equal_width'
        if cls in ('REGX', 'REGy'):
            if not self.flip(default_gen * 0.6):
                q['gen'] = gen if gen is not None else self.gen(k, n_bags=r.choice((8, 12, 20)))
            if self.flip(0.85):
                q['reg'] = self.reg()
        if cls in ('AC', 'PAC') and k > 2 and self.rl.random() < 0.4:
            # without an inverse
            for e in {q.get('et'), q.get('es')} - {None}:
                e = self.s['ests'][e]
                while isinstance(e.get('base'), dict):
                    e = e['base']
                if e['kind'] == 'stub':
                    e['mode'] = 'blind'
        if cls == 'DeBias' and self.rl.random() < 0.2:
            for e in {q.get('et'), q.get('es')} - {None}:
                if self.s['ests'][e]['kind'] == 'stub':
                    self.s['ests'][e]['mode'] = 'const'
        if cls in CRISP and self.flip(0.4):
            q['eproba'] = True
        return q

    @staticmethod
    def _is_fh(e):
        return e['kind'] == 'fh' or (isinstance(e.get('base'), dict) and G._is_fh(e['base']))

    def quant(self, k, **kw):
        self.s['objs'].append(self.q_spec(k, **kw))
        return len(self.s['objs']) - 1

    # ---- faults ----------------------------------------------------------------------------------------------
    EXC = ('SimFault', 'MemoryError', 'KeyboardInterrupt', 'ValueError', 'OSError', 'RuntimeError', 'AttributeError', 'TypeError',
           'IndexError', 'KeyError', 'FloatingPointError', 'LinAlgError', 'StopIteration', 'AssertionError', 'ZeroDivisionError',
           'OverflowError', 'EOFError', 'TimeoutError', 'NotImplementedError', 'SimAny', 'SimAny', 'SimAny', 'SimAny', 'SimAny')

    def fault(self, oid, points=('est', 'np', 'solver', 'dist', 'reg', 'rng'), frac=None):
        """ resolved after a probe run: the fault fires at a fraction of the calls of a kind """
        pt = self.choice(points)
        if pt == 'solver':
            exc = self.weighted([('=nosol', 3), ('=inconsistent', 1), ('SolverError', 1), ('MemoryError', 1),
                                 ('KeyboardInterrupt', 1), ('ValueError', 1), ('SimFault', 1), ('SimAny', 1)])
        elif pt == 'np':
            exc = self.weighted([('MemoryError', 3), ('KeyboardInterrupt', 2), ('FloatingPointError', 1), ('ValueError', 1),
                                 ('IndexError', 0.5), ('TypeError', 0.5), ('AttributeError', 0.5), ('RuntimeError', 0.5),
                                 ('ZeroDivisionError', 0.5), ('LinAlgError', 0.6), ('SimAny', 3)])
        elif pt == 'line':
            exc = self.choice(('KeyboardInterrupt', 'MemoryError'))
        else:
            exc = self.choice(self.EXC)
        f = {'op': oid, 'point': pt, 'frac': self.r.random() if frac is None else frac, 'exc': exc}
        if self.flip(0.6):
            f['place'] = self.pick(True, 'name') if pt == 'np' else True
        if pt != 'line' and self.flip(0.25):
            # the component stays broken for a while
            f['len'] = self.choice((2, 10, 40, 1000000))
        return f

    def rate(self):
        if self.flip(0.4):
            return {'mode': 'rare', 'p': self.r.choice((0.05, 0.15, 0.5, 1.0)), 'seed': self.r.randrange(1 << 30)}
        return {'mode': 'rate', 'p': self.r.choice((0.003, 0.01, 0.03, 0.1, 0.3)), 'seed': self.r.randrange(1 << 30)}


EST_POINTS = ('est.fit', 'est.predict', 'est.proba')
REG_POINTS = ('reg.fit', 'reg.predict')


def resolve_faults(faults, counts, callsites=()):
    """ fractions -> numbered calls, with the numbers of calls of a fault-free run """
    by = {}
    for op, kind, n in counts:
        by.setdefault(op, {})[kind] = n
    out = []
    for f in faults:
        if 'nth' in f:
            out.append(f)
            continue
        c = by.get(f['op'], {})
        pt = f['point']
        kinds = {'est': EST_POINTS, 'reg': REG_POINTS}.get(pt, (pt,))
        tot = sum(c.get(x, 0) for x in kinds)
        if tot == 0:
            # the operation makes no call of that kind: take any other
            kinds = sorted(x for x in c if x != 'line')
            tot = sum(c[x] for x in kinds)
            if tot == 0:
                continue
        sited = [(pl, x, ns) for op, x, sites in callsites if op == f['op'] and x in kinds for pl, ns in sites if f.get('like', '') in pl] \
            if f.get('place') or f.get('like') else []
        if sited:
            # every place of the library that makes such calls is as likely as any other
            if f.get('place') == 'name':
                # every function called is as likely as any other
                names = sorted({x[0].rpartition(' ')[2] for x in sited})
                b = f['frac'] * len(names)
                name = names[min(int(b), len(names) - 1)]
                sited = [x for x in sited if x[0].rpartition(' ')[2] == name]
                f = dict(f, frac=b - int(b))
            places = [x[1:] for x in sited]
            a = f['frac'] * len(places)
            j = min(int(a), len(places) - 1)
            x, ns = places[j]
            exc = 'SimFault' if f['exc'].startswith('=') and x != 'solver' else f['exc']
            out.append({'op': f['op'], 'point': x, 'nth': ns[min(int((a - j) * len(ns)), len(ns) - 1)], 'exc': exc})
            if 'len' in f:
                out[-1]['len'] = f['len']
            continue
        i = min(int(f['frac'] * tot), tot - 1)
        for x in kinds:
            if i < c.get(x, 0):
                exc = f['exc']
                if exc.startswith('=') and x != 'solver':
                    exc = 'SimFault'
                out.append({'op': f['op'], 'point': x, 'nth': i + 1, 'exc': exc})
                if 'len' in f:
                    out[-1]['len'] = f['len']
                break
            i -= c.get(x, 0)
    return out
