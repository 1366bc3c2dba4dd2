"""python3 tools/mutate.py N SEED [WORKERS] [FILTER]: which small code changes do the checks miss?

Changes one expression or statement of a copy of /repo at a time; where the test
suite still passes, runs the checks that cover the file, in a copy of /verif.
Results go to /tmp/mut/log.jsonl.  For development only, no check uses it.
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from queue import Queue

KINDS = os.environ.get("KINDS", "all")  # ops: operators and statements; swaps: names, keys, arguments, order; loops: loops and values cut short
R, V, W = Path("/repo"), Path("/verif"), Path("/tmp/mut")
CHECKS = {
    "compilers/glyph.py": "C03 C13 C07 C04 C02", "parsers/glyph.py": "C03 C10 C04 C07", "compilers/base.py": "C01 C02 C04 C07", "parsers/base.py": "C01 C02 C10 C04 C09",
    "compilers/value.py": "C01", "parsers/value.py": "C01 C10", "compilers/bitmap.py": "C05 C04", "parsers/bitmap.py": "C05 C04 C10",
    "compilers/": "C02 C04 C07 C09 C10 C20", "parsers/": "C02 C04 C10 C07 C09 C20", "compilers/text.py": "C20 C02 C09", "parsers/text.py": "C20 C02 C09",
    "vfb/entry.py": "C06 C08 C07 C10", "vfb/vfb.py": "C06 C08 C11 C10 C07 C13 C24", "vfb/header.py": "C06 C07 C08", "vfb/glyph.py": "C11 C12 C13 C17 C23 C25 C08", "vfb/pens.py": "C13 C12 C23", "vfb/info.py": "C23 C11",
    "ufo/builder.py": "C14 C15 C16 C17 C18 C19 C20 C25 C24", "ufo/paths.py": "C14 C17 C18 C12 C19 C25", "ufo/pshints.py": "C17", "ufo/tth.py": "C18", "ufo/groups.py": "C15 C20", "ufo/kerning.py": "C15",
    "ufo/info.py": "C16", "ufo/glyph.py": "C17 C18 C14 C12", "ufo/guides.py": "C14", "ufo/features.py": "C20", "ufo/time.py": "C21", "ufo/designspace.py": "C19", "ufo/instructions.py": "C18", "ufo/vfb2ufo.py": "C18 C17",
    "tth.py": "C18 C24 C25", "json.py": "C22 C24", "cu2qu.py": "C23 C24", "diff.py": "C22 C24", "value.py": "C01", "cmdline.py": "C24 C22 C16", "constants.py": "C02 C04 C22", "enum.py": "C02 C04 C22 C14",
    "helpers.py": "C02 C16 C22", "truetype.py": "C18 C02", "__init__.py": "C02 C04", "templates/": "C13",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Mod: "+", ast.BitAnd: "|", ast.BitOr: "&", ast.LShift: ">>", ast.RShift: "<<", ast.FloorDiv: "*"}
SKIP = ("logger", "print", "add_argument", "ArgumentParser")


def seg(src, n):
    return ast.get_source_segment(src, n)


def mutants(path):
    src = path.read_text()
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()) + 1)

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    out = []

    def add(n, new, kind):
        a, b = span(n)
        out.append((a, b, new, f"{kind} line {n.lineno}: {(seg(src, n) or '')[:80]!r} -> {new[:80]!r}"))

    def scopes(n):  # names and keys another one of the same function may be mistaken for
        for fn in ast.walk(n):
            if isinstance(fn, (ast.FunctionDef, ast.Module)):
                body = [x for s in fn.body for x in ast.walk(s)] if isinstance(fn, ast.FunctionDef) else []
                local = sorted({x.id for x in body if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | ({a.arg for a in fn.args.args} - {"self", "cls"} if isinstance(fn, ast.FunctionDef) else set()))
                keys = sorted({x.value for x in body if isinstance(x, ast.Constant) and isinstance(x.value, str) and re.fullmatch(r"[\w.]{1,30}", x.value)})
                attrs = sorted({x.attr for x in body if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load)} & {y.attr for y in ast.walk(tree) if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store)})
                for x in body:
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in local:
                        for o in local:
                            if o != x.id:
                                add(x, o, "name")
                    if isinstance(x, ast.Attribute) and x.attr in attrs and isinstance(x.ctx, ast.Load):
                        for o in attrs:
                            if o != x.attr:
                                add(x, f"self.{o}", "attr")
                    if isinstance(x, ast.Constant) and x.value in keys and seg(src, x) and seg(src, x)[0] in "\"'":
                        for o in keys:
                            if o != x.value:
                                add(x, repr(o), "key")
                    if isinstance(x, ast.Call) and len(x.args) == 2 and not isinstance(x.args[1], ast.Starred):
                        add(x, f"{seg(src, x.func)}({seg(src, x.args[1])}, {seg(src, x.args[0])})", "swap")
                for block in [getattr(x, b) for x in [fn, *body] for b in ("body", "orelse") if isinstance(getattr(x, b, None), list)]:
                    for s, t in zip(block, block[1:]):
                        if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr)) and isinstance(t, (ast.Assign, ast.AugAssign, ast.Expr, ast.If, ast.For)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                            a, b = span(s)[0], span(t)[1]
                            out.append((a, b, f"{seg(src, t)}\n{' ' * s.col_offset}{seg(src, s)}", f"order line {s.lineno}: {(seg(src, s) or '')[:50]!r} <-> {(seg(src, t) or '')[:50]!r}"))

    def visit(n):
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.AnnAssign)) and not (isinstance(n, ast.AnnAssign) and n.value):
            return
        if isinstance(n, ast.If) and "TYPE_CHECKING" in (seg(src, n.test) or ""):
            return
        s = seg(src, n) or ""
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or s.startswith(SKIP)):
            return
        if isinstance(n, ast.Call) and any(k in s.split("(")[0] for k in SKIP):
            return
        if isinstance(n, (ast.Raise, ast.Assert)):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, f"{seg(src, n.left)} {CMP[type(n.ops[0])]} {seg(src, n.comparators[0])}", "cmp")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr):
            add(n, f"({seg(src, n.left)}) {BIN[type(n.op)]} ({seg(src, n.right)})", "bin")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, op.join(f"({seg(src, v)})" for v in n.values), "bool")
            add(n, f"({seg(src, n.values[0])})", "bool1")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, f"({seg(src, n.operand)})", "unary")
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            if isinstance(n.value, bool):
                add(n, str(not n.value), "const")
            elif isinstance(n.value, (int, float)):
                add(n, str(n.value + 1), "const")
                if n.value:
                    add(n, "0", "const")
        if isinstance(n, ast.IfExp):
            add(n, f"({seg(src, n.body)})", "ifexp")
            add(n, f"({seg(src, n.orelse)})", "ifexp")
        if isinstance(n, (ast.If, ast.While)):
            add(n.test, f"False and ({seg(src, n.test)})", "iffalse")
            if isinstance(n, ast.If):
                add(n.test, f"True or ({seg(src, n.test)})", "iftrue")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)) or isinstance(n, ast.Expr):
            add(n, "pass", "drop")
        if isinstance(n, ast.Continue):
            add(n, "break", "ctl")
        if isinstance(n, ast.Break):
            add(n, "continue", "ctl")
        if isinstance(n, ast.Call):
            name = seg(src, n.func) or ""
            if name in ("deepcopy", "sorted", "list", "set", "abs", "round", "reversed") and len(n.args) == 1:
                add(n, f"({seg(src, n.args[0])})", "unwrap")
            if name.endswith((".copy", ".strip")) and not n.args:
                add(n, seg(src, n.func.value), "unwrap")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, seg(src, n.value), "slice")
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef, ast.arg)) and c in getattr(n, "decorator_list", []):
                continue
            if isinstance(n, (ast.FunctionDef, ast.AnnAssign)) and c is getattr(n, "returns", None) or c is getattr(n, "annotation", None):
                continue
            visit(c)

    def loops(n):
        for x in ast.walk(n):
            if isinstance(x, (ast.For, ast.comprehension)):
                for new in () if "range(" in seg(src, x.iter) or "masters" in seg(src, x.iter) or isinstance(x.iter, ast.Tuple) else ("list({})[:-1]", "list({})[1:]", "list({})[::-1]", "list({})[:6]", "list({})[:40]"):
                    add(x.iter, new.format(seg(src, x.iter)), "loop")
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and re.match("(write|read)_(value|u?int|uint|double|str)", x.func.attr):
                s = seg(src, x)
                if x.func.attr.startswith("write") and x.args and "int8" not in x.func.attr:
                    rest = s[s.index("(") + 1:][len(seg(src, x.args[0])):]
                    for new in ("min({}, 32000)", "max({}, -1100)", "({}) & ~(1 << 16)") if "str" not in x.func.attr and "double" not in x.func.attr else ("({})[:100]", "({}).strip()") if "str" in x.func.attr else ("round({}, 4)",):
                        add(x, s[:s.index("(") + 1] + new.format(seg(src, x.args[0])) + rest if s.startswith(seg(src, x.func) + "(" + seg(src, x.args[0])) else s, "clip")
                elif x.func.attr.startswith("read") and "int8" not in x.func.attr:
                    for new in ("min({}, 32000)", "max({}, -1100)") if "double" not in x.func.attr and "str" not in x.func.attr else ("{}[:100]", "{}.strip()") if "str" in x.func.attr else ("round({}, 4)",):
                        add(x, new.format(s), "clip")
            if isinstance(x, ast.If) and not x.orelse and len(x.body) == 1 and isinstance(x.body[0], (ast.Continue, ast.Return)):
                add(x, "pass", "guard")
            if isinstance(x, ast.If) and x.orelse and len(x.orelse) == 1 and isinstance(x.orelse[0], ast.If):
                add(x.orelse[0].test, f"False and ({seg(src, x.orelse[0].test)})", "branch")
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "append" and len(x.args) == 1 and seg(src, x.args[0]):
                add(x, f"{seg(src, x.func.value)}.insert(0, {seg(src, x.args[0])})", "loop")
                add(x, f"({seg(src, x)} if {seg(src, x.args[0])} not in {seg(src, x.func.value)} else None)", "loop")

    if KINDS == "loops":
        loops(tree)
    elif KINDS != "ops":
        scopes(tree)
    if KINDS not in ("swaps", "loops"):
        visit(tree)
    return out


def checks_of(rel):
    return (CHECKS.get(rel) or next((v for k, v in CHECKS.items() if k.endswith("/") and rel.startswith(k)), "")).split()


def work(w, rel, mut):
    repo, verif = W / f"w{w}/repo", W / f"w{w}/verif"
    a, b, new, desc = mut
    p = repo / "src/vfbLib" / rel
    orig = p.read_bytes()
    res = {"file": rel, "desc": desc}
    try:
        p.write_bytes(orig[:a] + new.encode() + orig[b:])
        try:
            compile(p.read_bytes(), str(p), "exec")
        except SyntaxError:
            return {**res, "result": "syntax"}
        env = {**os.environ, "PYTHONPATH": str(repo / "src"), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "LC_ALL": "C.UTF-8", "TZ": "UTC"}
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "--ignore=Tests/Data", "--ignore=Scripts"], cwd=repo, env=env, capture_output=True, timeout=200)
        except subprocess.TimeoutExpired:
            return {**res, "result": "tests-timeout"}
        subprocess.run(["find", str(repo / "Tests/Data/out"), "-mindepth", "1", "!", "-name", ".keep", "-delete"], capture_output=True)
        if t.returncode:
            return {**res, "result": "tests"}
        env = {**os.environ, "VERIF_REPO": str(repo), "VERIF_SEED": "1", "VERIF_TIER": "quick"}
        ran = []
        for c in checks_of(rel):
            q = subprocess.run(["bash", "run.sh", c, "quick", "--jobs", "3"], cwd=verif, env=env, capture_output=True, text=True)
            ran.append(f"{c}={q.returncode}")
            if q.returncode == 1:
                return {**res, "result": "caught", "by": c, "ran": ran}
            if q.returncode:
                return {**res, "result": "ERROR", "by": c, "ran": ran, "out": (q.stdout + q.stderr)[-1500:]}
        return {**res, "result": "MISSED", "ran": ran}
    finally:
        p.write_bytes(orig)


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    workers = int(sys.argv[3]) if len(sys.argv) > 3 else 4
    only = sys.argv[4] if len(sys.argv) > 4 else ""
    jobs = []
    W.mkdir(exist_ok=True)
    for w in range(workers):
        shutil.rmtree(W / f"w{w}", ignore_errors=True)
        (W / f"w{w}").mkdir()
        shutil.copytree(R, W / f"w{w}/repo", ignore=shutil.ignore_patterns(".git"), symlinks=True)
        shutil.copytree(V, W / f"w{w}/verif", ignore=shutil.ignore_patterns(".git", "seeded", "replays"))
    done = set()
    log = W / "log.jsonl"
    if log.exists():
        done = {(d["file"], d["desc"]) for d in map(json.loads, log.read_text().splitlines())}
    src = R / "src/vfbLib"
    for p in sorted(src.rglob("*.py")):
        rel = str(p.relative_to(src))
        if checks_of(rel) and only in rel and rel not in ("typing.py", "enum.py"):
            jobs += [(rel, m) for m in mutants(p) if (rel, m[3]) not in done]
    print(len(jobs), "mutants")
    rnd = random.Random(seed)
    rnd.shuffle(jobs)
    if KINDS == "swaps":  # one per line at most: there are very many
        seen = set()
        jobs = [j for j in jobs if (k := (j[0], j[1][3].split(":")[0])) not in seen and not seen.add(k)]
    free = Queue()
    for w in range(workers):
        free.put(w)

    def one(job):
        w = free.get()
        try:
            r = work(w, *job)
        except Exception as e:  # noqa: BLE001
            r = {"file": job[0], "desc": job[1][3], "result": "HARNESS", "out": repr(e)}
        finally:
            free.put(w)
        with open(log, "a") as f:
            f.write(json.dumps(r) + "\n")

    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, jobs[:n]))


main()
