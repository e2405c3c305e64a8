"""Direct calls of the functions of the library (metrics, searches, optimisation, plots, data utilities) with shared arguments."""
import numpy as np

from simq import core, world


def make_var(s):
    """ an argument of the caller """
    k = s['kind']
    rs = np.random.RandomState(s.get('seed', 0))
    if k == 'scalar':
        return s['val']
    if k == 'list':
        return list(s['val'])
    shape = tuple(s.get('shape', ()))
    if k == 'prev':            # rows are distributions
        a = rs.gamma(s.get('conc', 1.0), size=shape)
        if s.get('zeros'):
            a = a * (rs.rand(*shape) > 0.4)
            a[..., 0] += 1e-3
        a = a / a.sum(axis=-1, keepdims=True)
    elif k == 'colprev':       # columns are distributions
        a = rs.gamma(s.get('conc', 1.0), size=shape)
        a = a / a.sum(axis=0, keepdims=True)
    elif k == 'uniform':
        a = rs.rand(*shape)
        if s.get('sort'):
            a = np.sort(a, axis=0)
    elif k == 'normal':
        a = rs.normal(size=shape)
    elif k == 'labels':
        a = np.array(s['classes'])[rs.randint(0, len(s['classes']), shape)]
        for i, c in enumerate(s['classes']):
            if i < a.size:
                a.flat[i] = c
    elif k == 'spd':
        m = rs.normal(size=(shape[0], shape[0]))
        a = m @ m.T + 0.1 * np.eye(shape[0])
    elif k == 'sym':
        m = rs.normal(size=(shape[0], shape[0]))
        a = (m + m.T) / 2
    elif k == 'matrix':
        return matrix(s, rs)
    elif k == 'value':
        a = np.array(s['val'])
    elif k == 'dict':
        return {c: rs.rand(*shape) for c in s['classes']}
    else:
        raise core.SimError(k)
    m = s.get('mem')
    if m == 'F':
        a = np.asfortranarray(a)
    elif m == 'view' and a.ndim:
        big = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
        big[..., ::2] = a
        a = big[..., ::2]
    elif m == 'f32' and a.dtype.kind == 'f':
        a = a.astype(np.float32)
    elif m == 'tolist':
        return a.tolist()
    return a


def matrix(s, rs):
    """ square matrices of all kinds """
    n, how = s['n'], s['how']
    m = rs.normal(size=(n, n))
    if how == 'zero':
        a = np.zeros((n, n))
    elif how == 'ones':
        a = np.ones((n, n))
    elif how == 'rank1':
        a = np.outer(m[0], m[0])
    elif how == 'rankdef':
        b = m[:, :max(1, n // 2)]
        a = b @ b.T
    elif how == 'neg':
        a = -(m @ m.T)
    elif how in ('indef', 'rounded'):
        a = (m + m.T) / 2
        if how == 'rounded':
            a = np.round(a)
    elif how == 'huge':
        a = (m + m.T) * 1e40
    elif how == 'tiny':
        a = (m + m.T) * 1e-60
    elif how in ('nan', 'inf'):
        a = m @ m.T
        a[0, -1] = float(how)
    elif how == 'dist':
        x = rs.normal(size=(n + 1, 2))
        d = np.abs(x[:, None] - x[None]).sum(axis=2)
        a = d[:-1, -1:] + d[-1:, :-1] - d[:-1, :-1] - d[-1, -1]
    elif how == 'degdist':
        x = np.round(rs.normal(size=(n + 1, 1)))
        d = np.abs(x[:, None] - x[None]).sum(axis=2)
        a = d[:-1, -1:] + d[-1:, :-1] - d[:-1, :-1] - d[-1, -1]
    elif how == 'nearzero':
        a = np.full((n, n), 5e-180)
    elif how == 'permdiag':
        a = np.diag(np.round(m[0], 1))
    else:
        a = m
    return a * s.get('scale', 1.0)


def lib_function(fn):
    mod, name = fn.rsplit('.', 1)
    if mod.rsplit('.', 1)[-1][:1].isupper():
        mod, cls = mod.rsplit('.', 1)
        return getattr(getattr(world.lib(mod), cls), name)
    return getattr(world.lib(mod), name)


def arg(W, a):
    if isinstance(a, dict) and 'v' in a:
        return W.vars[a['v']]
    return world.resolve(a)


def call(W, op):
    args = [arg(W, a) for a in op.get('args', ())]
    kw = {k: arg(W, a) for k, a in op.get('kw', {}).items()}
    fn = lib_function(op['fn'])
    if op['fn'].startswith('plot.') and not op['fn'].endswith('_sort_rows_bycolumns'):
        from matplotlib.figure import Figure
        ax = Figure().add_subplot()
        fn(ax, *args, **kw)
        return drawn(ax)
    r = fn(*args, **kw)
    if op['fn'].startswith('optimization.solve_l1') or op['fn'].startswith('optimization.solve_hd'):
        r = r[1]
    return shape_result(r)


def shape_result(r):
    if isinstance(r, tuple):
        return {str(i): x for i, x in enumerate(r) if x is not None}
    return {'value': r}


def drawn(ax):
    out = {}
    for i, c in enumerate(ax.collections):
        out['seg%d' % i] = np.array([np.asarray(s) for s in c.get_segments()])
        out['col%d' % i] = np.array(c.get_colors())
    for i, l in enumerate(ax.lines):
        out['line%d' % i] = np.array(l.get_xydata())
        out['lcol%d' % i] = np.array([str(l.get_color())])
    for i, p in enumerate(ax.patches):
        out['patch%d' % i] = np.array(p.get_facecolor())
    out['labels'] = np.array([ax.get_xlabel(), ax.get_ylabel()] + [t.get_text() for t in ax.get_xticklabels()])
    return out
