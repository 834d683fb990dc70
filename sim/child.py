"""A second, real process with another string-hash seed: what a restarted deployment sees.

Only what is sent (pickled bytes, arguments) reaches it.  It computes a deterministic function of the request, one request
at a time, so it adds no schedule of its own."""
import atexit
import importlib
import os
import pickle
import struct
import subprocess
import sys
import traceback

from .core import HarnessError, Violation

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


class Child:
    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen([PY, '-m', 'sim.child'], cwd=HERE, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL)
        atexit.register(self.close)

    def call(self, func, *args, **kwargs):
        """func: 'module:name' """
        body = pickle.dumps((func, args, kwargs))
        try:
            self.p.stdin.write(struct.pack('>Q', len(body)) + body)
            self.p.stdin.flush()
            n = struct.unpack('>Q', read(self.p.stdout, 8))[0]
            ok, val, tb, in_repo = pickle.loads(read(self.p.stdout, n))
        except (OSError, EOFError, struct.error) as e:
            raise HarnessError('the second process is gone: {!r}'.format(e))
        if ok:
            return val
        if in_repo:
            raise Violation('unexpected-error-after-restart', '{}'.format(val)[:400] + '\n' + tb[-1500:])
        raise HarnessError('in the second process: {}\n{}'.format(val, tb))

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()


def read(f, n):
    out = b''
    while len(out) < n:
        b = f.read(n - len(out))
        if not b:
            raise EOFError()
        out += b
    return out


_child = None


def other():
    """the second process of this worker; its hash seed differs from ours but is a function of ours"""
    global _child
    if _child is None:
        _child = Child(1000 + int(os.environ.get('PYTHONHASHSEED', '0') or 0))
    return _child


def start():
    c = other()
    return c


def main():
    import warnings
    import logging
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    out = os.fdopen(os.dup(1), 'wb')
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    inp = sys.stdin.buffer
    pkg = None
    while True:
        try:
            n = struct.unpack('>Q', read(inp, 8))[0]
            body = read(inp, n)
        except (EOFError, struct.error):
            os._exit(0)
        from .seams import REPO
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        try:
            func, args, kwargs = pickle.loads(body)
            m, f = func.split(':')
            import numpy as np
            np.seterr(all='ignore')
            val = getattr(importlib.import_module(m), f)(*args, **kwargs)
            msg = pickle.dumps((True, val, '', False))
        except BaseException as e:   # noqa
            from .runner import _repo_in_tb
            msg = pickle.dumps((False, '{}: {}'.format(type(e).__name__, e), traceback.format_exc(), _repo_in_tb(e)))
        out.write(struct.pack('>Q', len(msg)) + msg)
        out.flush()


if __name__ == '__main__':
    main()
