"""Run vfbLib's command-line entry points in this process, inside a scratch dir."""
from __future__ import annotations

import io
import os
import shutil
import sys
import tempfile
from contextlib import contextmanager, redirect_stderr, redirect_stdout
from pathlib import Path


@contextmanager
def scratch():
    d = Path(tempfile.mkdtemp(prefix="vfbcase-"))
    cwd = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def run(func, *args) -> tuple[str, str]:
    """Call a console-script function with these arguments; (stdout, stderr)."""
    out, err = io.StringIO(), io.StringIO()
    argv = sys.argv
    sys.argv = [func.__name__, *[str(a) for a in args]]
    try:
        with redirect_stdout(out), redirect_stderr(err):
            func()
    finally:
        sys.argv = argv
    return out.getvalue(), err.getvalue()


def tree(root: Path) -> dict[str, bytes]:
    return {str(p.relative_to(root)): p.read_bytes() for p in sorted(root.rglob("*")) if p.is_file()}
