"""Shared machinery: drives Hypothesis, counts cases, writes evidence and replays.

A check module (pbt/checks/cXX.py) defines ``props(tier)`` returning a list of
:class:`Prop`.  Every Prop is one executable statement: a Hypothesis strategy
that generates cases and a function ``fn(case)`` which raises ``Violation`` (or
lets an exception escape from vfbLib) if the property is broken on that case.
"""
from __future__ import annotations

import base64
import gc
import hashlib
import json
import logging
import os
import pickle
import random
import resource
import signal
import sys
import time
import traceback
import types
import warnings
from contextlib import contextmanager
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Callable

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SRC = REPO / "src"
DATA = REPO / "Tests" / "Data"
PKG = str(SRC / "vfbLib") + os.sep

sys.dont_write_bytecode = True
if str(SRC) not in sys.path:
    sys.path.insert(0, str(SRC))
_vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _vt not in sys.path:
    sys.path.append(_vt)

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")

from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402
from hypothesis import seed as hseed  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
CASE_TIMEOUT = 20
BATCH = 2000  # cases
MEMORY = 3 << 30  # per process
SHRINK_BUDGET = 45.0
# On a busy machine a check explores less instead of taking too long
START = time.time()
BUDGET = {"quick": 600, "thorough": 2400}


class Violation(AssertionError):
    """The property does not hold on this case."""


class CaseTimeout(BaseException):
    """A single case did not finish in time."""


class StopSearch(BaseException):
    """Raised to leave Hypothesis early (budget used up)."""


class Skip(Exception):
    """The case is outside the domain of the property."""


def check(cond: Any, msg: str | Callable[[], str] = "property violated") -> None:
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def short(obj: Any, n: int = 900) -> str:
    s = repr(obj)
    return s if len(s) <= n else s[: n - 20] + f"...[{len(s)} chars]"


def eq(got: Any, want: Any, what: str) -> None:
    if not deep_eq(got, want):
        raise Violation(f"{what}: {first_diff(got, want)}\n   got: {short(got)}\n  want: {short(want)}")


def deep_eq(a: Any, b: Any) -> bool:
    """Equality that identifies list/tuple, distinguishes -0.0/NaN only by value."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(deep_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(deep_eq(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, bool) != isinstance(b, bool):
        return a == b
    return a == b


def first_diff(a: Any, b: Any, path: str = "") -> str:
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            if not deep_eq(x, y):
                return first_diff(x, y, f"{path}[{i}]")
        return f"{path or '.'}: length {len(a)} != {len(b)}"
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return f"{path}.{k!r}: unexpected key"
        for k in b:
            if k not in a:
                return f"{path}.{k!r}: missing key"
        for k in a:
            if not deep_eq(a[k], b[k]):
                return first_diff(a[k], b[k], f"{path}.{k!r}")
    return f"{path or '.'}: {short(a, 200)} != {short(b, 200)}"


def normalize(obj: Any) -> Any:
    """JSON-like view of decompiled data: tuples become lists, subclasses plain."""
    if isinstance(obj, dict):
        return {k: normalize(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [normalize(v) for v in obj]
    if isinstance(obj, (set, frozenset)):
        return sorted(normalize(v) for v in obj)
    return obj


@dataclass
class Prop:
    name: str
    strategy: Any
    fn: Callable[[Any], Any]
    quick: int = 200
    thorough: int = 4000
    nontrivial: Callable[[Any], bool] = lambda c: True
    rule: str = ""
    # fixed, always-run cases (e.g. boundary enumeration); run before the search
    fixed: list[Any] = field(default_factory=list)
    # pickled representation is the default replay; samples are repr
    show: Callable[[Any], Any] = short
    timeout: int = CASE_TIMEOUT


@dataclass
class Result:
    name: str
    evaluations: int = 0
    distinct: int = 0
    samples: list[Any] = field(default_factory=list)
    rule: str = ""
    wall: float = 0.0
    violation: dict | None = None
    error: str | None = None
    labels: dict[str, int] = field(default_factory=dict)


def cpu_time() -> float:
    t = os.times()
    return t.user + t.system + t.children_user + t.children_system


@contextmanager
def time_limit(seconds: int):
    """Ends a case after so many seconds of computing, or six times as long on the clock (the machine may be busy)."""
    cpu, wall = cpu_time(), time.monotonic()

    def alarm(signum, frame):
        if cpu_time() - cpu >= seconds * 0.95 or time.monotonic() - wall >= 6 * seconds:
            raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, alarm)
    # fires again every half second: a single one can get lost in a destructor or callback
    signal.setitimer(signal.ITIMER_REAL, seconds, 0.5)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def touches_repo(exc: BaseException) -> bool:
    """Whether the exception passed through the code under test."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for fr in traceback.extract_tb(exc.__traceback__):
            if fr.filename.startswith(PKG):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


_labels: dict[str, int] = {}


def label(name: str) -> None:
    """Count how often a class of case was exercised (goes into the evidence)."""
    _labels[name] = _labels.get(name, 0) + 1


def digest(case: Any) -> bytes:
    try:
        b = pickle.dumps(case, protocol=4)
    except Exception:
        b = repr(case).encode()
    return hashlib.blake2b(b, digest_size=12).digest()


class HarnessError(Exception):
    pass


def malformed(e: BaseException) -> bool:
    """Whether an exception in the oracle tells about the result, not about the harness or the machine.

    No oracle raises on a correct result, so a missing file or key, a wrong type, or text that
    cannot be parsed is a wrong result.  A changed interface or a full disk is not.
    """
    if isinstance(e, AttributeError):
        return not isinstance(e.obj, (types.ModuleType, type))
    if isinstance(e, OSError):
        return isinstance(e, FileNotFoundError)
    return isinstance(e, Exception) and not isinstance(e, (HarnessError, ImportError, NameError, MemoryError, RecursionError))


def run_case(prop: Prop, case: Any) -> tuple[str, str] | None:
    """Run one case.  None: held.  (kind, message) otherwise."""
    try:
        with time_limit(prop.timeout):
            prop.fn(case)
        return None
    except Skip:
        return ("skip", "")
    except CaseTimeout:
        return ("violation", f"did not terminate within {prop.timeout} s")
    except Violation as e:
        return ("violation", str(e))
    except (KeyboardInterrupt, StopSearch):
        raise
    except BaseException as e:  # noqa: BLE001
        if type(e).__module__.startswith("hypothesis"):
            raise
        tb = "".join(traceback.format_exception(e)[-12:])
        if isinstance(e, SystemExit) and touches_repo(e):
            return ("violation", f"unexpected SystemExit {e.code}\n{tb}")
        if touches_repo(e):
            return ("violation", f"unexpected {type(e).__name__}: {e}\n{tb}")
        if malformed(e):
            return ("violation", f"the result does not have the expected form: {type(e).__name__}: {e}\n{tb}")
        return ("error", tb)


def run_prop(prop_id: str, prop: Prop, tier: str, seed: int, current=None) -> Result:
    """current: binary file that always holds the case being run, for post-mortem."""
    t0 = time.time()
    res = Result(prop.name, rule=prop.rule)
    _labels.clear()
    seen: set[bytes] = set()
    best: dict[str, Any] = {}
    state = {"first_fail": None}

    def evaluate(case: Any) -> None:
        if state["first_fail"] and time.time() - state["first_fail"] > SHRINK_BUDGET:
            raise StopSearch()
        if not state["first_fail"] and time.time() - START > BUDGET.get(tier, 600):
            label("search ended early: out of time")
            raise StopSearch()
        random.seed(seed)
        # pickle before running: the case may be mutated by the code under test
        d = digest(case)
        blob = None
        nt = False
        try:
            nt = bool(prop.nontrivial(case))
        except Exception:
            nt = False
        shown = None
        if nt and d not in seen and len(res.samples) < 2:
            shown = prop.show(case)
        try:
            blob = pickle.dumps(case, protocol=4)
        except Exception:
            blob = None
        if current is not None and blob is not None:
            current.seek(0)
            current.write(len(blob).to_bytes(8, "big") + blob)
            current.flush()
        out = run_case(prop, case)
        if out and out[0] == "skip":
            res.evaluations += 1
            return
        res.evaluations += 1
        if nt:
            if d not in seen and shown is not None:
                res.samples.append(shown)
            seen.add(d)
        if out is None:
            return
        kind, msg = out
        if state["first_fail"] is None:
            state["first_fail"] = time.time()
        size = len(blob) if blob else len(repr(case))
        if kind == "error":
            best.setdefault("error", msg)
            raise StopSearch()
        # Hypothesis replays the minimal failing case last: keep the smallest
        if "size" not in best or size <= best["size"]:
            best.update(size=size, blob=blob, msg=msg, case=prop.show(case) if blob is None else prop.show(pickle.loads(blob)))
        raise Violation(msg)

    try:
        for case in prop.fixed:
            try:
                evaluate(case)
            except Violation:
                raise StopSearch()
        n = prop.quick if tier == "quick" else prop.thorough
        for k in range(0, n if prop.strategy is not None else 0, BATCH):
            # In batches: Hypothesis keeps a tree of all cases in memory
            salt = f"{prop_id}/{prop.name}/{seed}" + (f"/{k}" if k else "")
            sd = int.from_bytes(hashlib.sha256(salt.encode()).digest()[:6], "big")

            @hseed(sd)
            @settings(
                max_examples=min(BATCH, n - k),
                deadline=None,
                database=None,
                suppress_health_check=list(HealthCheck),
                phases=(Phase.generate, Phase.shrink),
                print_blob=False,
                report_multiple_bugs=False,
            )
            @given(prop.strategy)
            def t(case):
                evaluate(case)

            t()
            gc.collect()
    except StopSearch:
        pass
    except Violation:
        pass
    except BaseException as e:  # noqa: BLE001
        if "msg" not in best:
            best.setdefault("error", "".join(traceback.format_exception(e)[-12:]))
    res.distinct = len(seen)
    res.wall = time.time() - t0
    res.labels = dict(sorted(_labels.items()))
    if "msg" in best:
        res.violation = {
            "property": prop_id,
            "prop": prop.name,
            "message": best["msg"],
            "case": best["case"],
            "pickle": base64.b64encode(best["blob"]).decode() if best["blob"] else None,
        }
    elif "error" in best:
        res.error = best["error"]
    return res


def limit_resources() -> None:
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def known_findings(prop_id: str) -> list[dict]:
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    return [f for f in json.loads(p.read_text())["findings"] if f["property"] == prop_id]
