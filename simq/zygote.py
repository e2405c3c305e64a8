import importlib
import os
import pickle
import struct
import sys


def main():
    out = os.dup(1)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    from simq import engine
    engine.preload()
    from simq.procs import run_in_child
    inp = sys.stdin.buffer
    while True:
        head = inp.read(8)
        if len(head) < 8:
            return
        modname, fname, args, timeout = pickle.loads(inp.read(struct.unpack('<Q', head)[0]))
        r = run_in_child(getattr(importlib.import_module(modname), fname), args, timeout)
        data = pickle.dumps((r.kind, r.value), protocol=4)
        data = struct.pack('<Q', len(data)) + data
        view = memoryview(data)
        while len(view):
            view = view[os.write(out, view):]


main()
