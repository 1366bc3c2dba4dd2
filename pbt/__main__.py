"""python -m pbt <PROPERTY> [--replay FILE] [--only NAME] [--jobs N]"""
from __future__ import annotations

import argparse
import base64
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import pickle
import shutil
import sys
import tempfile
import time

from pbt import common
from pbt.common import REPO, VERIF, Prop, Result, limit_resources, run_case, run_prop


def load(prop_id: str, tier: str) -> tuple[object, list[Prop]]:
    mod = importlib.import_module(f"pbt.checks.{prop_id.lower()}")
    return mod, mod.props(tier)


def worker(job: tuple[str, int, str, int], prop: Prop, d: str, conn) -> None:
    prop_id, _, tier, seed = job
    limit_resources()
    sys.stdout.flush()
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    os.makedirs(f"{d}/cwd")
    os.chdir(f"{d}/cwd")
    tempfile.tempdir = d
    with open(f"{d}/current", "w+b") as current:
        res = run_prop(prop_id, prop, tier, seed, current)
    conn.send(res)
    conn.close()
    os._exit(0)


def post_mortem(prop_id: str, prop: Prop, d: str, why: str) -> Result:
    """The process of a sub-property ended without a result: blame the case it was running."""
    res = Result(prop.name, rule=prop.rule)
    try:
        b = open(f"{d}/current", "rb").read()
        blob = b[8 : 8 + int.from_bytes(b[:8], "big")]
        case = pickle.loads(blob)
    except Exception:
        res.error = why
        return res
    res.evaluations = 1
    res.violation = {
        "property": prop_id, "prop": prop.name, "message": why, "case": prop.show(case),
        "pickle": base64.b64encode(blob).decode(),
    }
    return res


def run_jobs(jobs: list[tuple[str, int, str, int]], props: list[Prop], n: int, limit: float) -> list[Result]:
    ctx = mp.get_context("fork")
    todo = list(jobs)
    running: list = []
    done: dict[int, Result] = {}
    while todo or running:
        while todo and len(running) < n:
            job = todo.pop(0)
            prop = props[job[1]]
            d = tempfile.mkdtemp(prefix=f"vfb-{job[0]}-")
            r, w = ctx.Pipe(False)
            proc = ctx.Process(target=worker, args=(job, prop, d, w))
            proc.start()
            w.close()
            running.append((job, prop, d, r, proc))
        mp.connection.wait([x[3] for x in running], timeout=1)
        for x in list(running):
            job, prop, d, r, proc = x
            res = None
            if r.poll():
                try:
                    res = r.recv()
                except EOFError:
                    proc.join(10)
                    res = post_mortem(job[0], prop, d, f"the process running this case died (exit code {proc.exitcode})")
            elif time.time() - common.START > limit:
                proc.kill()
                res = post_mortem(job[0], prop, d, f"no result within {limit} s; this case was running")
            if res is not None:
                running.remove(x)
                proc.join(10)
                r.close()
                shutil.rmtree(d, ignore_errors=True)
                done[job[1]] = res
    return [done[j[1]] for j in jobs]


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--tier", default=common.TIER)
    a = ap.parse_args()
    pid, tier, seed = a.property, a.tier, common.SEED
    if tier not in ("quick", "thorough"):
        tier = "quick"
    mod, props = load(pid, tier)

    if a.replay:
        rec = json.load(open(a.replay))
        prop = {p.name: p for p in props}[rec["prop"]]
        case = pickle.loads(base64.b64decode(rec["pickle"]))
        with tempfile.TemporaryDirectory(prefix=f"vfb-{pid}-") as d:
            os.chdir(d)
            out = run_case(prop, case)
            os.chdir("/")
        if out is None or out[0] == "skip":
            print(f"replay of {rec['prop']}: property holds on this case")
            return 0
        print(out[1])
        if out[0] == "error":
            return 2
        print(f"VIOLATION property={pid} replay={a.replay}")
        return 1

    t0 = time.time()
    jobs = [(pid, i, tier, seed) for i, p in enumerate(props) if not a.only or a.only in p.name]
    results = run_jobs(jobs, props, max(1, a.jobs), 800 if tier == "quick" else 2800)

    # Known findings: deterministic probes, one line each while they reproduce
    for kf in common.known_findings(pid):
        probe = getattr(mod, "probe_" + kf["probe"], None)
        if probe is None:
            print(f"harness error: no probe for known finding {kf['probe']}")
            return 2
        if probe():
            print(f"KNOWN-FINDING: property={pid} {kf['what']}")

    violations, errors = [], []
    for r in results:
        extra = f" {r.labels}" if r.labels else ""
        print(f"  {pid}/{r.name}: {r.evaluations} cases, {r.distinct} distinct non-trivial, {r.wall:.1f} s{extra}")
        if r.violation:
            violations.append(r)
        if r.error:
            errors.append(r)
    wall = time.time() - t0
    samples = [{"sub_property": r.name, "case": s} for r in results for s in r.samples]
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r.evaluations for r in results),
            "distinct_nontrivial": sum(r.distinct for r in results),
            "rule": getattr(mod, "RULE", "")
            + " Per sub-property: "
            + "; ".join(f"{r.name}: {r.rule}" for r in results if r.rule),
            "samples": samples[:40],
            "sub_properties": {
                r.name: {
                    "evaluations": r.evaluations,
                    "distinct_nontrivial": r.distinct,
                    "wall_s": round(r.wall, 2),
                    "labels": r.labels,
                }
                for r in results
            },
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "violations": len(violations),
        "wall_s": round(wall, 2),
    }
    if not a.only:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(evidence, indent=1, default=repr))
    for r in violations:
        d = VERIF / "replays"
        d.mkdir(exist_ok=True)
        path = d / f"{pid}-{r.name}.json"
        path.write_text(json.dumps(r.violation, indent=1, default=repr))
        print(f"--- {r.name}: {r.violation['message'][:4000]}")
        print(f"    case: {str(r.violation['case'])[:2000]}")
        print(f"VIOLATION property={pid} replay={path}")
    for r in errors:
        print(f"--- harness error in {r.name}:\n{r.error}")
    if violations:
        return 1
    if errors:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
