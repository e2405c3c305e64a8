"""Simulated storage: the files of a scenario, delivered in arbitrary pieces, torn, and with reads that fail.

The files exist (in a scratch directory of the run, removed at the end) with the contents that survived the tear; everything that
opens them through Python's open functions reads them through SimRaw, which decides how many bytes each read returns and is a
fault point ('disk').
"""
import builtins
import gzip
import io
import math
import os
import random
import shutil
import tempfile

from simq import core

STATE = {}


def render(s):
    """ the contents of a file, as written """
    r = random.Random(s['seed'])
    lines = []
    for _ in range(s['rows']):
        row = [number(r, s.get('fmt', 'mixed')) for _ in range(s['cols'])]
        row.append(label(r, s))
        pad = ' ' if s.get('pad') else ''
        lines.append(','.join(pad + v for v in row))
    bad = s.get('bad')
    if bad:
        j = bad['row'] % len(lines)
        row = lines[j].split(',')
        if bad['how'] == 'short':
            del row[bad['col'] % len(row)]
        elif bad['how'] == 'blank':
            row = [''] * len(row)
        elif bad['how'] == 'blankx':
            row = ['nan'] * len(row)
        elif bad['how'] == 'long':
            row.insert(bad['col'] % len(row), '1')
        else:
            row[-1] = bad['how']
        lines[j] = ','.join(row)
    eol = s.get('eol', '\n')
    return (eol.join(lines) + (eol if s.get('final', True) else '')).encode()


def number(r, fmt):
    k = fmt if fmt != 'mixed' else r.choice(('repr', 'int', 'exp', 'fixed', 'small', 'plus'))
    v = r.gauss(0, 10 ** r.choice((0, 1, 3)))
    if k == 'fixed1':
        return '%.2f' % (1 + 8 * r.random())
    if k == 'int':
        return '%d' % v
    if k == 'exp':
        return '%.6e' % v
    if k == 'fixed':
        return '%.3f' % v
    if k == 'small':
        return repr(v * 1e-12)
    if k == 'plus':
        return '%+.2f' % v
    return repr(v)


def label(r, s):
    c = r.choice(s.get('labels', [0, 1]))
    return {'int': '%d' % c, 'float': '%.1f' % c, 'exp': '%e' % c}[s.get('lfmt', 'int')]


def parse(b):
    """ what a file says: the rows, or None when it is not a table of numbers with integer labels """
    lines = [x for x in b.decode().replace('\r\n', '\n').replace('\r', '\n').split('\n') if x.strip()]
    rows = []
    for x in lines:
        try:
            rows.append([float(v) for v in x.split(',')])
        except ValueError:
            return None
    if not rows or len({len(x) for x in rows}) != 1 or not all(math.isfinite(x[-1]) and x[-1] == int(x[-1]) for x in rows):
        return None
    return rows


class SimRaw(io.RawIOBase):
    def __init__(self, raw, name, chunks):
        self.raw = raw
        self.name = name
        self.chunks = chunks
        self.rng = random.Random(chunks.get('seed', 0))
        self.pos = 0
        self.ended = False

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = self.raw.seek(off, whence)
        return self.pos

    def tell(self):
        return self.raw.tell()

    def readinto(self, b):
        f = core.point('disk', 'read')
        STATE['reads'] += 1
        if f == 'eintr':
            raise InterruptedError(4, 'injected interrupted system call')
        if f == 'eof':
            self.ended = True
            STATE['ends'][os.path.basename(self.name)] = min(self.pos, STATE['ends'].get(os.path.basename(self.name), 1 << 60))
        if self.ended:
            return 0
        n = len(b)
        mode = self.chunks.get('mode', 'full')
        if mode == 'one':
            n = 1
        elif mode == 'random':
            n = min(n, self.rng.randint(1, self.chunks.get('max', 64)))
        data = self.raw.read(min(n, len(b)))
        b[:len(data)] = data
        self.pos += len(data)
        return len(data)

    def close(self):
        self.raw.close()
        super().close()


def install(scn):
    d = tempfile.mkdtemp(prefix='simq_disk_')
    STATE.clear()
    STATE.update(dir=d, reads=0, opened=0, ends={}, paths=[], bytes=[])
    for i, s in enumerate(scn['files']):
        b = render(s)
        name = 'f%d.csv' % i
        if s.get('gz'):
            b = gzip.compress(b, mtime=0)
            name += '.gz'
        if s.get('tear') is not None:
            b = b[:int(s['tear'] * len(b))]
        p = os.path.join(d, name)
        with open(p, 'wb') as f:
            f.write(b)
        os.utime(p, ns=(1700000000 * 10 ** 9, 1700000000 * 10 ** 9))
        STATE['paths'].append(p)
        STATE['bytes'].append(b)
    real = io.open
    chunks = {p: s.get('chunks', {}) for p, s in zip(STATE['paths'], scn['files'])}

    def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        try:
            p = os.path.abspath(os.fspath(file))
        except TypeError:
            p = None
        if p not in chunks or any(c in mode for c in 'wa+x'):
            return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        core.point('disk', 'open')
        STATE['opened'] += 1
        raw = SimRaw(real(p, 'rb', 0), p, chunks[p])
        if 'b' in mode:
            return raw if buffering == 0 else io.BufferedReader(raw, chunks[p].get('buffer', 8192))
        return io.TextIOWrapper(io.BufferedReader(raw, chunks[p].get('buffer', 8192)), encoding, errors, newline)
    builtins.open = sim_open
    io.open = sim_open
    from numpy.lib import _datasource
    _datasource._file_openers._load()
    _datasource._file_openers._file_openers[None] = sim_open


def rewrite(i, j, how, mtime):
    """ file i gets the contents of file j """
    p = STATE['paths'][i]
    st = os.stat(p)
    b = STATE['bytes'][j]
    if how == 'rename':
        with open(p + '.new', 'wb') as f:
            f.write(b)
        os.replace(p + '.new', p)
    else:
        with open(p, 'wb') as f:
            f.write(b)
    dt = {'same': 0, 'later': 10 ** 9, 'earlier': -10 ** 9}[mtime]
    os.utime(p, ns=(st.st_atime_ns + dt, st.st_mtime_ns + dt))


def path(i):
    return STATE['paths'][i]


def report():
    shutil.rmtree(STATE['dir'], ignore_errors=True)
    return {'reads': STATE['reads'], 'opened': STATE['opened'], 'ends': dict(STATE['ends'])}
