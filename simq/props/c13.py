"""C13: loading a dataset returns all of it or fails."""
import gzip

from simq import simdisk
from simq.props.common import *

PROP = 'C13'
CASES = 3500
RULE = ('a run counts as non-trivial when the storage delivered the file in pieces, failed, ended early, had torn the file, or several '
        'loads were interleaved')
STUBS = ['storage (simq/simdisk.py)']


def gen(seed):
    g = G(seed)
    r = g.r
    files = []
    for _ in range(r.choice((1, 1, 2, 3))):
        s = {'seed': r.randrange(1 << 30), 'rows': r.choice((2, 3, 5, 12, 40, 150, 400) if not g.flip(0.02) else (1500, 5000, 12000, 66000)), 'cols': r.choice((1, 2, 3, 8)),
             'fmt': g.pick('mixed', 'mixed', 'repr', 'int', 'exp'), 'labels': g.choice(([0, 1], [-1, 1], [1, 2, 3], [3, 10, 127, 1000], [40000, 1, 70001], [1 << 33, 7, -(1 << 31) - 3])),
             'lfmt': g.pick('int', 'int', 'float', 'exp'), 'eol': g.pick('\n', '\n', '\r\n'), 'final': g.flip(0.8),
             'chunks': {'mode': g.pick('full', 'random', 'random', 'one'), 'max': r.choice((3, 16, 200, 5000)), 'seed': r.randrange(999),
                        'buffer': r.choice((1, 16, 512, 8192))}}
        if s['rows'] * s['cols'] > 300:
            s['chunks'].update(mode='random', max=5000)
        if s['rows'] > 20000:
            s['cols'] = min(s['cols'], 2)
        if s['rows'] > 1000:
            s['chunks'].update(buffer=8192, max=70000)
        if g.flip(0.15):
            s['pad'] = True
        if g.flip(0.2):
            s['bad'] = {'row': r.randrange(400), 'col': r.randrange(9), 'how': g.pick('', ' ', 'x', 'nan', 'inf', '1.5', '-0.25', '1e-3', 'short', 'long',
                                                                                '1;', '0x1', 'blank', 'blankx')}
        elif g.flip(0.4):
            s['tear'] = tear(g, s)
        files.append(s)
    g.s['files'] = files
    ops = []
    for i in range(len(files)):
        for _ in range(r.choice((1, 1, 2))):
            o = g.op('load', file=i)
            if g.flip(0.3):
                o['pathlib'] = True
            ops.append(o)
    r.shuffle(ops)
    if len(ops) > 1 and g.flip(0.5):
        g.s['tasks'] = [ops[j::2] for j in range(2)] if g.flip(0.6) else [[o] for o in ops]
        g.s['sched'] = dict(g.rate(), p=r.choice((0.03, 0.1, 0.3, 0.7)))
    else:
        g.s['tasks'] = [ops]
    if g.flip(0.45):
        for _ in range(r.choice((1, 1, 2))):
            g.s['faults'].append({'op': r.choice(ops)['id'], 'point': 'disk', 'frac': r.random(),
                                  'exc': g.pick('OSError', 'OSError', 'MemoryError', 'TimeoutError', 'KeyboardInterrupt', '=eintr', '=eof', '=eof')})
    g.s['knobs'] = {'disk': True}
    if len(g.s['tasks']) == 1 and g.flip(0.3):
        rewrites(g)
    return {'scn': g.s}


def rewrites(g):
    """ between loads the files are written again, or the caller changes what a load returned """
    r = g.r
    ops = g.s['tasks'][0]
    for o in list(ops):
        i = ops.index(o)
        f = o['file']
        if g.flip(0.5):
            ops.insert(i + 1, g.op('scribble', on=o['id'], val=3))
            i += 1
        if g.flip(0.5):
            j = r.randrange(len(g.s['files']))
            if g.flip(0.6):
                # other contents of the same size
                g.s['files'].append(dict(g.s['files'][f], seed=r.randrange(1 << 30), **({'fmt': 'fixed1'} if g.flip(0.5) else {})))
                j = len(g.s['files']) - 1
            if bool(g.s['files'][j].get('gz')) == bool(g.s['files'][f].get('gz')):
                ops.insert(i + 1, g.op('rewrite', file=f, to=j, how=g.pick('write', 'rename'), mtime=g.pick('same', 'later', 'earlier')))
                i += 1
        if g.flip(0.6):
            ops.insert(i + 1, dict({k: v for k, v in o.items() if k != 'pathlib'}, id=g.op('load')['id']))


def tear(g, s):
    """ anywhere; often near the end or at an interesting place """
    b = simdisk.render(s)
    if s.get('gz'):
        return g.r.random()
    x = g.r.random()
    if x < 0.3:
        pos = g.r.randrange(1, len(b))
    elif x < 0.6:
        pos = len(b) - 1 - g.r.randrange(min(len(b) - 1, 30))
    else:
        marks = [i for i in range(1, len(b)) if b[i - 1:i] in b',\n']
        pos = marks[g.r.randrange(len(marks))] - (1 if g.flip(0.3) else 0)
    return (max(1, pos) + 0.5) / len(b)


def check(case, run):
    scn = case['scn']
    info = main_run(case, run)
    out = []
    fired = {}
    for f in info['fired']:
        fired.setdefault(f['op'], []).append(f)
    now = {i: i for i in range(len(scn['files']))}
    for o in ops_of(scn):
        if o['op'] == 'rewrite':
            now[o['file']] = o['to']
        if o['op'] != 'load':
            continue
        s = scn['files'][now[o['file']]]
        full = simdisk.render(s)
        stored = gzip.compress(full, mtime=0) if s.get('gz') else full
        n = len(stored) if s.get('tear') is None else int(s['tear'] * len(stored))
        got = info['res'][o['id']]
        if got is None:
            continue
        mine = fired.get(o['id'], [])
        if any(not f['exc'].startswith('=') for f in mine):
            # a read failed: it surfaces
            if got['kind'] == 'ok':
                out.append(violation('read-failed', '%s returns %s although a read failed (%s)' % (o, show(got), mine), o['id']))
            elif not got['injected']:
                out.append(violation('other-failure', '%s: a read failed (%s), the caller gets %s' % (o, mine, show(got)), o['id']))
            continue
        ends = [n]
        if any(f['exc'] == '=eof' for f in mine):
            # where the storage said that the file ended: any of the places it did for this file
            at = info['disk']['ends'].get(('f%d.csv' % o['file']) + ('.gz' if s.get('gz') else ''), n)
            if sum(1 for f in info['fired'] if f['exc'] == '=eof') > 1:
                continue
            ends = [min(n, at)]
        end = ends[0]
        if s.get('gz'):
            rows = simdisk.parse(full) if end == len(stored) else None
        else:
            rows = simdisk.parse(stored[:end]) if end else None
        if got['kind'] == 'ok':
            if rows is None:
                out.append(violation('torn', '%s returns %s, the file %s, of which %d of %d bytes could be read, is not a table' %
                                     (o, show(got), s, end, len(stored)), o['id']))
            else:
                X = np.array([x[:-1] for x in rows])
                y = np.array([int(x[-1]) for x in rows])
                a, b = np.asarray(got['val'].get('X')), np.asarray(got['val'].get('y'))
                if a.shape != X.shape or b.shape != y.shape or not np.array_equal(a, X) or not np.array_equal(b, y):
                    out.append(violation('contents', '%s returns %s (shape %s), the file contains X=%s y=%s' %
                                         (o, show(got), a.shape, X.tolist()[:3], y.tolist()[:12]), o['id']))
        elif rows is not None and len(rows) > 1:
            out.append(violation('not-loaded', '%s: %s, the file %s is intact (%d rows)' % (o, show(got), s, len(rows)), o['id']))
    for oid in info['aliased']:
        out.append(violation('changed-later', 'what %s returned was changed by a later load' % oid, oid))
    nt = bool(info['fired']) or any(o['op'] == 'rewrite' for o in ops_of(scn)) or len(scn['tasks']) > 1 or any(s.get('tear') is not None or s['chunks']['mode'] != 'full' for s in scn['files'])
    return out, {'nontrivial': nt, 'info': info}
