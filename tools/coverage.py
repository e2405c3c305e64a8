"""Which lines of the library the checks execute inside simulated runs.   tools/coverage.py [cases per property] [props]
Lines that run outside operations (most of __init__) are not counted as executed."""
import ast
import os
import shutil
import subprocess
import sys
import tempfile
import types
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'quantificationlib')


def lines(code, acc):
    if code.co_flags & 1:       # functions
        acc.update((ln, code.co_qualname) for _, _, ln in code.co_lines() if ln and ln != code.co_firstlineno)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            lines(c, acc)


def main():
    n = sys.argv[1] if len(sys.argv) > 1 else '240'
    seen = {}
    for prop in sys.argv[2:] or ['C%02d' % i for i in range(1, 16)]:
        d = tempfile.mkdtemp(prefix='simq_cov_')
        try:
            subprocess.run([sys.executable, os.path.join(HERE, 'run.py'), prop, '--cases', n, '--seed', '7'], cwd=HERE,
                           env=dict(os.environ, SIMQ_COVDIR=d), stdout=subprocess.DEVNULL)
            for f in os.listdir(d):
                for text in open(os.path.join(d, f)):
                    for x in ast.literal_eval(text):
                        seen.setdefault(x, set()).add(prop)
        finally:
            shutil.rmtree(d)
    warnings.simplefilter('ignore')
    total = hit = 0
    for root, _, files in sorted(os.walk(LIB)):
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            p = os.path.join(root, f)
            src = open(p).read()
            acc = set()
            lines(compile(src, p, 'exec'), acc)
            rel = p[len(LIB):].lstrip('/')
            miss = sorted((ln, q) for ln, q in acc if ('/' + rel, ln) not in seen and (rel, ln) not in seen)
            total += len(acc)
            hit += len(acc) - len(miss)
            for ln, q in miss:
                if not q.endswith('__init__'):
                    print('%s:%d %s: %s' % (rel, ln, q, src.splitlines()[ln - 1].strip()[:100]))
    print('%d of %d lines executed' % (hit, total))


if __name__ == '__main__':
    main()
