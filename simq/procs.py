"""Every simulated run happens in its own forked child of a clean zygote process.

A zygote has imported the library and done nothing else with it, so nothing a run leaves behind (module level caches,
global generators, class attributes) can reach another run or a reference computation. Zygotes with another
PYTHONHASHSEED stand for 'a fresh process'.
"""
import os
import pickle
import select
import signal
import struct
import subprocess
import sys
import time
import traceback


class Outcome:
    """ What came back from a child: kind is 'ok', 'timeout', 'died' or 'harness' """
    __slots__ = ('kind', 'value')

    def __init__(self, kind, value):
        self.kind = kind
        self.value = value


def _read_exact(fd, n, deadline):
    buf = b''
    while len(buf) < n:
        left = deadline - time.monotonic()
        if left <= 0:
            return None
        r, _, _ = select.select([fd], [], [], left)
        if not r:
            return None
        c = os.read(fd, min(1 << 20, n - len(buf)))
        if not c:
            return b''
        buf += c
    return buf


def run_in_child(fn, args, timeout=60.0):
    """ fn(*args) in a forked child, the value comes back pickled """
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            os.close(rfd)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 0)
            os.dup2(null, 1)
            try:
                val = ('ok', fn(*args))
            except BaseException:
                val = ('harness', traceback.format_exc())
            try:
                data = pickle.dumps(val, protocol=4)
            except BaseException:
                data = pickle.dumps(('harness', traceback.format_exc()), protocol=4)
            data = struct.pack('<Q', len(data)) + data
            view = memoryview(data)
            while len(view):
                view = view[os.write(wfd, view):]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    deadline = time.monotonic() + timeout
    out = None
    try:
        head = _read_exact(rfd, 8, deadline)
        if head is None:
            out = Outcome('timeout', None)
        elif head == b'':
            out = Outcome('died', None)
        else:
            body = _read_exact(rfd, struct.unpack('<Q', head)[0], deadline)
            if not body:
                out = Outcome('died', None)
            else:
                out = Outcome(*pickle.loads(body))
    finally:
        os.close(rfd)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        _, status = os.waitpid(pid, 0)
        if out is not None and out.kind == 'died':
            out.value = 'exit status %d' % status
    return out


class OtherZygote:
    """ A zygote in a new process with another PYTHONHASHSEED """

    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), SIMQ_ZYGOTE='1')
        self.p = subprocess.Popen([sys.executable, '-m', 'simq.zygote'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env=env)

    def run(self, modname, fname, args, timeout=60.0):
        data = pickle.dumps((modname, fname, args, timeout), protocol=4)
        self.p.stdin.write(struct.pack('<Q', len(data)) + data)
        self.p.stdin.flush()
        fd = self.p.stdout.fileno()
        head = _read_exact(fd, 8, time.monotonic() + timeout + 60)
        if not head:
            return Outcome('harness', 'zygote does not answer')
        body = _read_exact(fd, struct.unpack('<Q', head)[0], time.monotonic() + timeout + 60)
        return Outcome(*pickle.loads(body))


_others = {}
_pid = os.getpid()


def run_in_zygote(hashseed, modname, fname, args, timeout=60.0):
    import importlib
    if hashseed == 0:
        return run_in_child(getattr(importlib.import_module(modname), fname), args, timeout)
    key = (os.getpid(), hashseed)
    if key not in _others:
        _others[key] = OtherZygote(hashseed)
    return _others[key].run(modname, fname, args, timeout)
