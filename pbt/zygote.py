"""A process that runs each job in a fresh fork: no job sees what another one did.

It was started with another hash seed, locale, time zone and folder than the checks.
"""
from __future__ import annotations

import atexit
import os
import pickle
import signal
import subprocess
import sys
import tempfile
import traceback

from pbt.common import VERIF, HarnessError

_proc = None
ENV = {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "TZ": "Asia/Kathmandu", "COLUMNS": "40"}


def _send(f, obj):
    b = pickle.dumps(obj)
    f.write(len(b).to_bytes(8, "big") + b)
    f.flush()


def _recv(f):
    n = f.read(8)
    if len(n) < 8:
        raise EOFError
    return pickle.loads(f.read(int.from_bytes(n, "big")))


def run(jobs, hashseed=4711):
    """-> one ("ok", result) or ("error", (exception, traceback)) per job; all run in one process."""
    global _proc
    if _proc is None or _proc.poll() is not None:
        _proc = subprocess.Popen([sys.executable, "-B", "-m", "pbt.zygote"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=VERIF,
                                 env={**os.environ, **ENV, "PYTHONHASHSEED": str(hashseed), "TMPDIR": tempfile.gettempdir()})
        atexit.register(stop)
    _send(_proc.stdin, jobs)
    try:
        return _recv(_proc.stdout)
    except EOFError:
        raise HarnessError("the process that runs the jobs has ended") from None


def stop():
    global _proc
    if _proc is not None:
        _proc.kill()
        _proc.wait()
        _proc = None


def main():
    from pbt import common, exports  # noqa: F401

    import vfbLib.cmdline  # noqa: F401
    import vfbLib.cu2qu  # noqa: F401
    import vfbLib.tth  # noqa: F401
    import vfbLib.ufo.builder  # noqa: F401

    stdin, stdout = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    os.chdir("/")
    while True:
        try:
            jobs = _recv(stdin)
        except EOFError:
            return
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.alarm(60)
            out = []
            for j in jobs:
                try:
                    out.append(("ok", exports.job(*j)))
                except BaseException as e:  # noqa: BLE001
                    out.append(("error", (type(e).__name__, "".join(traceback.format_exception(e)[-6:]))))
            with os.fdopen(w, "wb") as f:
                _send(f, out)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            try:
                out = _recv(f)
            except EOFError:
                out = [("error", ("killed", "no answer"))] * len(jobs)
        os.waitpid(pid, 0)
        _send(stdout, out)


if __name__ == "__main__":
    main()
