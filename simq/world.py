"""Builds data, collaborators and objects of the library from JSON specifications."""
import importlib

import numpy as np

from simq import stubs

QMODS = {'CC': 'baselines.cc', 'PCC': 'baselines.cc', 'AC': 'baselines.ac', 'PAC': 'baselines.ac',
         'DeBias': 'binary.debias', 'SORDy': 'binary.emd', 'QUANTy': 'binary.quantiles',
         'DFy': 'multiclass.df', 'HDy': 'multiclass.df', 'MMy': 'multiclass.df', 'DFX': 'multiclass.df',
         'HDX': 'multiclass.df', 'EM': 'multiclass.em', 'EDy': 'multiclass.energy', 'CvMy': 'multiclass.energy',
         'EDX': 'multiclass.energy', 'FriedmanME': 'multiclass.friedman', 'PWKQuantifier': 'multiclass.knn',
         'REGX': 'multiclass.regression', 'REGy': 'multiclass.regression',
         'OneVsRestQuantifier': 'decomposition.multiclass', 'FrankAndHallQuantifier': 'decomposition.ordinal',
         'EoQ': 'ensembles.eoq', 'ACOrdinal': 'ordinal.ac_ordinal', 'PDFOrdinaly': 'ordinal.pdf',
         'OrdinalQuantificationTree': 'ordinal.trees'}
EMODS = {'cv': ('estimators.cross_validation', 'CV_estimator'),
         'eoc': ('estimators.ensembles', 'EnsembleOfClassifiers'),
         'fh': ('estimators.frank_and_hall', 'FrankAndHallClassifier'),
         'fhm': ('estimators.frank_and_hall', 'FrankAndHallMonotoneClassifier'),
         'fht': ('estimators.frank_and_hall', 'FrankAndHallTreeClassifier'),
         'ddag': ('estimators.ordinal_ddag', 'DDAGClassifier'),
         'pwk': ('estimators.weighted_knn', 'PWK')}
GMODS = {'prior': 'PriorShift_BagGenerator', 'cov': 'CovariateShift_BagGenerator',
         'both': 'PriorAndCovariateShift_BagGenerator'}
WITHOUT = ('DFX', 'HDX', 'EDX', 'PWKQuantifier', 'REGX', 'UserX')
CRISP = ('CC', 'AC', 'ACOrdinal')
LABELS = {'int0': lambda k: np.arange(k), 'int1': lambda k: np.arange(1, k + 1),
          'pm1': lambda k: np.array([-1, 1]) if k == 2 else np.arange(k) - 1,
          'gap': lambda k: np.array([3, 4, 8, 15, 16, 23, 42, 50, 61])[:k],
          'neg': lambda k: np.arange(k) - k,
          'str': lambda k: np.array(['cls_%s' % c for c in 'abcdefghi'[:k]])}


def lib(name):
    return importlib.import_module('quantificationlib.' + name)


def lib_class(name):
    if name in ('UserX', 'UserY'):
        return getattr(stubs, name)
    return getattr(lib(QMODS[name]), name)


# ---- data ------------------------------------------------------------------------------------------------------------
def make_data(s):
    rs = np.random.RandomState(s['seed'])
    k, n, d = s['k'], s['n'], s['d']
    if s.get('prev'):
        prev = np.asarray(s['prev'], dtype=float)
    elif s.get('imb'):
        prev = 1.0 / (1.0 + np.arange(k)) ** 1.5
    else:
        prev = np.ones(k)
    prev = prev / prev.sum()
    counts = np.floor(prev * n).astype(int)
    mn = s.get('minper', 5)
    counts = np.maximum(counts, mn)
    cls = np.repeat(np.arange(k), counts)
    X = rs.normal(size=(len(cls), d))
    direction = np.ones(d) / np.sqrt(d)
    X = X + s['sep'] * cls[:, None] * direction[None, :]
    if d > 1:
        X[:, -1] += 0.3 * s['sep'] * (cls % 2)
    if s.get('round') is not None:
        X = np.round(X, s['round'])
    if s.get('offset'):
        X = X + s['offset']
    if s.get('const'):
        X[:, 0] = 1.5
    if s.get('samex'):
        X[:] = X[0]
    if s.get('dup'):
        half = len(X) // 2
        X[half:2 * half] = X[:half]
    if s.get('order', 'shuf') == 'shuf':
        p = rs.permutation(len(X))
        X, cls = X[p], cls[p]
    if s.get('rowid'):
        X = np.hstack([np.arange(len(X), dtype=float)[:, None], X])
    X = np.ascontiguousarray(X)
    if s.get('mem') == 'F':
        X = np.asfortranarray(X)
    elif s.get('mem') == 'view':
        big = np.zeros((len(X), 2 * X.shape[1]))
        big[:, ::2] = X
        X = big[:, ::2]
    elif s.get('mem') == 'f32':
        X = X.astype(np.float32)
    elif s.get('mem') == 'int':
        X = np.round(X * 10).astype(int)
    y = LABELS[s['lab']](k)[cls]
    return X, y


def make_bag(b, spec):
    """ A bag of the same population as the dataset spec, with its own prevalences """
    if b.get('kind') == 'empty':
        return np.zeros((0, spec['d']))
    s = dict(spec, seed=b['seed'], n=b['n'], minper=0, order='shuf')
    s.pop('imb', None)
    k = spec['k']
    prev = np.zeros(k)
    for i, p in enumerate(b['prev'][:k]):
        prev[i] = p
    if prev.sum() <= 0:
        prev[0] = 1
    prev = prev / prev.sum()
    rs = np.random.RandomState(b['seed'])
    counts = rs.multinomial(b['n'], prev)
    s['n'] = 0
    cls = np.repeat(np.arange(k), counts)
    X = rs.normal(size=(len(cls), spec['d']))
    direction = np.ones(spec['d']) / np.sqrt(spec['d'])
    X = X + spec['sep'] * cls[:, None] * direction[None, :]
    if spec['d'] > 1:
        X[:, -1] += 0.3 * spec['sep'] * (cls % 2)
    if b.get('far'):
        X = X + b['far']
    if b.get('same'):
        X[:] = X[0]
    if spec.get('round') is not None:
        X = np.round(X, spec['round'])
    if spec.get('offset'):
        X = X + spec['offset']
    if spec.get('const'):
        X[:, 0] = 1.5
    X = X[rs.permutation(len(X))]
    if b.get('mirror') and len(X) > 3:
        # the first and the last row, the length, the mean and the variance are those of the bag it mirrors
        X[1:-1] = 2 * X[1:-1].mean(axis=0) - X[1:-1]
    if b.get('near') is not None and len(X):
        # one row of the bag is another one
        j = b['near'] % len(X)
        X[j] = 2 * X.mean(axis=0) - X[j] + 0.5
    if spec.get('rowid'):
        X = np.hstack([1e6 + np.arange(len(X), dtype=float)[:, None], X])
    X = np.ascontiguousarray(X)
    if spec.get('mem') == 'f32':
        X = X.astype(np.float32)
    elif spec.get('mem') == 'int' and b.get('kind') != 'nan':
        X = np.round(X * 10).astype(int)
    elif spec.get('mem') == 'F':
        X = np.asfortranarray(X)
    if b.get('kind') == 'nan':
        X[len(X) // 2, -1] = np.nan
    return X


def change(X, b):
    """ the training set, not quite """
    by = b.get('by', 1)
    if b.get('col') == 'all':
        X += min(by, 0.1)
    else:
        X[b['row'] % len(X), b.get('col', -1)] += by


# ---- collaborators ---------------------------------------------------------------------------------------------------
def make_cv(s):
    from sklearn import model_selection as ms
    if isinstance(s, int) or s is None:
        return s
    kind = s['kind']
    rs = s.get('rs')
    if kind == 'kfold':
        return ms.KFold(s['n'], shuffle=s.get('shuffle', False), random_state=rs if s.get('shuffle') else None)
    if kind == 'kfold_rs':
        return ms.KFold(s['n'], shuffle=True, random_state=np.random.RandomState(rs))
    if kind == 'kfold_none':
        return ms.KFold(s['n'], shuffle=True)
    if kind == 'skfold_none':
        return ms.StratifiedKFold(s['n'], shuffle=True)
    if kind == 'rkfold_rs':
        return ms.RepeatedKFold(n_splits=s['n'], n_repeats=s['rep'], random_state=np.random.RandomState(rs))
    if kind == 'rskfold_none':
        return ms.RepeatedStratifiedKFold(n_splits=s['n'], n_repeats=s['rep'])
    if kind == 'sgroup_rs':
        return ms.StratifiedGroupKFold(s['n'], shuffle=True, random_state=np.random.RandomState(rs))
    if kind == 'sgroup':
        return ms.StratifiedGroupKFold(s['n'], shuffle=s.get('shuffle', False), random_state=rs if s.get('shuffle') else None)
    if kind == 'loo':
        return ms.LeaveOneOut()
    if kind == 'lpo':
        return ms.LeavePGroupsOut(1)
    if kind == 'skfold':
        return ms.StratifiedKFold(s['n'], shuffle=s.get('shuffle', False), random_state=rs if s.get('shuffle') else None)
    if kind == 'skfold_rs':
        return ms.StratifiedKFold(s['n'], shuffle=True, random_state=np.random.RandomState(rs))
    if kind == 'rskfold':
        return ms.RepeatedStratifiedKFold(n_splits=s['n'], n_repeats=s['rep'], random_state=rs)
    if kind == 'rkfold':
        return ms.RepeatedKFold(n_splits=s['n'], n_repeats=s['rep'], random_state=rs)
    if kind == 'group':
        return ms.GroupKFold(s['n'])
    if kind == 'logo':
        return ms.LeaveOneGroupOut()
    if kind == 'predef':
        return ms.PredefinedSplit(np.array(s['fold']))
    if kind == 'list':
        fold = np.array(s['fold'])
        fold2 = np.array(s.get('fold2', []))
        out = [(np.where(fold != f)[0], np.where(fold == f)[0]) for f in s['order']] + \
              [(np.where(fold2 != f)[0], np.where(fold2 == f)[0]) for f in s.get('order2', [])]
        if s.get('perm') is not None:
            # the examples of each set in an order of the caller's
            rng = np.random.RandomState(s['perm'])
            out = [(rng.permutation(a), rng.permutation(b)) for a, b in out]
        return out
    if kind == 'iter':
        fold = np.array(s['fold'])
        return iter([(np.where(fold != f)[0], np.where(fold == f)[0]) for f in s['order']])
    raise KeyError(kind)


def make_est(s, verbose=0):
    k = s['kind']
    if k == 'stub':
        e = stubs.StubClf(mode=s.get('mode', 'soft'), temp=s.get('temp', 1.0), uid=s.get('uid', 'e'),
                          out=s.get('out', 'new'), shift=s.get('shift', 0.0), bad=s.get('bad'), noisy=s.get('noisy', False))
        return stubs.UserClf(e) if s.get('plain') else e
    if k == 'memo':
        return stubs.MemoClf(uid=s.get('uid', 'm'))
    if k == 'lr':
        from sklearn.linear_model import LogisticRegression
        return LogisticRegression(C=s.get('C', 1.0), max_iter=200)
    if k == 'nb':
        from sklearn.naive_bayes import GaussianNB
        return GaussianNB()
    if k == 'tree':
        from sklearn.tree import DecisionTreeClassifier
        return DecisionTreeClassifier(max_depth=s.get('depth', 3), random_state=s.get('rs', 0))
    if k == 'knn':
        from sklearn.neighbors import KNeighborsClassifier
        return KNeighborsClassifier(n_neighbors=s.get('n', 3))
    if k == 'ovr':
        from sklearn.multiclass import OneVsRestClassifier
        return OneVsRestClassifier(make_est(s['base']), n_jobs=s.get('n_jobs'))
    mod, cls = EMODS[k]
    C = getattr(lib(mod), cls)
    if k == 'pwk':
        return C(n_neighbors=s.get('n', 5), p=s.get('p', 2), metric=s.get('metric', 'minkowski'),
                 n_jobs=s.get('n_jobs'))
    base = make_est(s['base'])
    if k == 'cv':
        groups = np.array(s['groups']) if s.get('groups') is not None else None
        return C(base, groups=groups, cv=make_cv(s['cv']), n_jobs=s.get('n_jobs'),
                 averaged_predictions=s.get('avg', True), voting=s.get('voting', 'hard'), verbose=verbose,
                 fit_params={'sample_weight': np.array(s['sw'])} if s.get('sw') is not None else None)
    if k == 'eoc':
        return C(base_estimator=base, n_jobs=s.get('n_jobs'), verbose=verbose)
    if k == 'ddag':
        return C(base, n_jobs=s.get('n_jobs'), predict_method=s.get('method', 'full_probabilistic'), verbose=verbose)
    kw = {}
    if s.get('params_fit') and k in ('fh', 'fhm', 'fht'):
        kw['params_fit'] = [dict(p) for p in s['params_fit']]
    if k == 'fht' and s.get('measure'):
        kw['performance_measure'] = resolve(s['measure'])
    return C(base, n_jobs=s.get('n_jobs'), verbose=verbose, **kw)


def resolve(v):
    """ Parameter values that are not JSON """
    if isinstance(v, dict):
        if '$dist' in v:
            return stubs.DISTS[v['$dist']]
        if '$lib' in v:
            mod, name = v['$lib'].rsplit('.', 1)
            return getattr(lib(mod), name)
        if '$sk' in v:
            from sklearn.metrics import pairwise
            return getattr(pairwise, v['$sk'])
        if '$arr' in v:
            return np.array(v['$arr'])
        if '$rs' in v:
            return stubs.SimRandomState(v['$rs'])
        if '$float' in v:
            return float(v['$float'])
        if '$nprs' in v:
            return np.random.RandomState(v['$nprs'])
    return v


def make_gen(s, verbose=0):
    C = getattr(lib('bag_generator'), GMODS[s['kind']])
    kw = {k: resolve(v) for k, v in s.get('params', {}).items()}
    return C(verbose=verbose, **kw)


def make_reg(s):
    if s is None:
        return None
    if s['kind'] == 'stub':
        return stubs.StubReg(uid=s.get('uid', 'r'), alpha=s.get('alpha', 1.0), below=s.get('below', 0.0))
    if s['kind'] == 'lin':
        from sklearn.linear_model import LinearRegression
        return LinearRegression()
    if s['kind'] == 'tree':
        from sklearn.tree import DecisionTreeRegressor
        return DecisionTreeRegressor(max_depth=3, random_state=0)
    raise KeyError(s['kind'])


def is_without(q):
    """ the class derives from WithoutClassifiers: fit and predict do not use predictions (EoQ does take them) """
    return q['cls'] in WITHOUT


def uses_est(q):
    if q['cls'] in WITHOUT:
        return False
    if q['cls'] in ('OneVsRestQuantifier', 'FrankAndHallQuantifier', 'EoQ'):
        return uses_est(q['base'])
    return True


def is_crisp(q):
    if q['cls'] in ('EoQ',):
        return is_crisp(q['base'])
    return q['cls'] in CRISP


def make_quant(q, W, verbose=0):
    """ W: the world, giving access to shared estimators, generators, regressors and templates """
    cls = q['cls']
    C = lib_class(cls)
    kw = {k: resolve(v) for k, v in q.get('params', {}).items()}
    if cls != 'HDX' and cls != 'OrdinalQuantificationTree':
        kw['verbose'] = verbose
    et = W.est(q['et']) if q.get('et') is not None else None
    es = W.est(q['es']) if q.get('es') is not None else None
    if cls in ('OneVsRestQuantifier', 'FrankAndHallQuantifier'):
        base = W.template(q['base']) if isinstance(q['base'], int) else make_quant(q['base'], W, verbose)
        name = 'base_quantifier' if cls == 'OneVsRestQuantifier' else 'quantifier'
        kw[name] = base
        return C(estimator_train=et, estimator_test=es, **kw)
    if cls == 'EoQ':
        kw['base_quantifier'] = W.template(q['base']) if isinstance(q['base'], int) else make_quant(q['base'], W, verbose)
        if q.get('gen') is not None:
            kw['bag_generator'] = W.gen(q['gen'])
        return C(ensemble_estimator_train=et, ensemble_estimator_test=es, **kw)
    if cls in ('REGX', 'REGy'):
        if q.get('gen') is not None:
            kw['bag_generator'] = W.gen(q['gen'])
        if q.get('reg') is not None:
            kw['regression_estimator'] = W.reg(q['reg'])
    if cls in WITHOUT:
        return C(**kw)
    if cls in ('CC', 'PCC'):
        return C(estimator_test=es, **kw)
    if cls == 'OrdinalQuantificationTree':
        return C(estimator_test=es, verbose=verbose)
    return C(estimator_train=et, estimator_test=es, **kw)
