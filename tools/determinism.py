"""Executes the same seeds in two passes, with other numbers of processes and another hash seed of the harness, and compares the digest
of every simulated run (outcomes, training events, schedule, fired faults, calls counted).   tools/determinism.py [cases per property] [props]"""
import importlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def shard(prop, lo, hi, step):
    sys.path.insert(0, HERE)
    from simq import engine, runner
    engine.preload()
    P = importlib.import_module('simq.props.' + prop)
    for seed in range(lo, hi, step):
        case = json.loads(json.dumps(runner.jsonable(P.gen(seed))))
        d = runner.check_case(P, case, digests=True)[2].digests
        print(json.dumps([seed, d]), flush=True)


def run_pass(prop, lo, n, procs, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONPATH=os.environ.get('VERIF_REPO', '/repo') + os.pathsep + HERE,
               **{k: '1' for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS')})
    ps = [subprocess.Popen([sys.executable, __file__, '--shard', prop, str(lo + i), str(lo + n), str(procs)], env=env, cwd=HERE,
                           stdout=subprocess.PIPE, text=True) for i in range(procs)]
    out = {}
    for p in ps:
        for line in p.communicate()[0].splitlines():
            if line.startswith('['):
                seed, d = json.loads(line)
                out[seed] = d
    return out


if __name__ == '__main__':
    if sys.argv[1:2] == ['--shard']:
        shard(sys.argv[2], *map(int, sys.argv[3:6]))
    else:
        n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
        for prop in sys.argv[2:] or ['c%02d' % i for i in range(1, 16)]:
            a, b = run_pass(prop, 990000, n, 8, 0), run_pass(prop, 990000, n, 3, 12345)
            diff = [s for s in sorted(set(a) | set(b)) if a.get(s) != b.get(s)]
            print('%s: %d cases, %d runs, different: %s' % (prop, len(a), sum(map(len, a.values())), diff), flush=True)
