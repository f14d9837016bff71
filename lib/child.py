"""A helper process in the interpreted lane, driven by a worker of a compiled lane."""
import os
import pickle
import struct
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class LibraryError(Exception):
    """The interpreted library raised an exception."""


class Child:
    """Call functions of modules of /verif in a process with NUMBA_DISABLE_JIT=1."""

    def __init__(self):
        env = {**os.environ, "NUMBA_DISABLE_JIT": "1"}
        env.pop("NUMBA_BOUNDSCHECK", None)
        self.proc = subprocess.Popen([sys.executable, os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    def call(self, module, func, *args):
        data = pickle.dumps((module, func, args))
        self.proc.stdin.write(struct.pack("<q", len(data)) + data)
        self.proc.stdin.flush()
        head = self.proc.stdout.read(8)
        if len(head) < 8:
            raise RuntimeError("the helper process ended")
        kind, val = pickle.loads(self.proc.stdout.read(struct.unpack("<q", head)[0]))
        if kind == "library":
            raise LibraryError(val)
        if kind == "error":
            raise RuntimeError("the helper process failed: " + val)
        return val

    def close(self):
        self.proc.stdin.close()
        self.proc.wait(10)


def serve():
    import importlib
    import logging
    import traceback
    import warnings

    sys.path[:0] = [ROOT, os.environ.get("VERIF_REPO", "/repo")]
    import numpy as np

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    logging.disable(logging.CRITICAL)
    src, dst = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    while True:
        head = src.read(8)
        if len(head) < 8:
            return
        module, func, args = pickle.loads(src.read(struct.unpack("<q", head)[0]))
        try:
            out = ("ok", getattr(importlib.import_module(module), func)(*args))
        except Exception as e:
            files = [fr.filename for fr in traceback.extract_tb(e.__traceback__)]
            repo = [f.startswith(os.environ.get("VERIF_REPO", "/repo") + "/") for f in files]
            mine = [f.startswith(ROOT + "/") for f in files]
            last = max([n for n, m in enumerate(mine) if m], default=-1)
            out = ("library" if any(repo[last + 1:]) else "error", traceback.format_exc()[-3000:])
        data = pickle.dumps(out)
        dst.write(struct.pack("<q", len(data)) + data)
        dst.flush()


if __name__ == "__main__":
    serve()
