#!/usr/bin/env python3
"""
Development tool: plants small syntactic changes (mutants) into scratch copies of /repo and reports which ones no check
notices. Usage: mutate.py FILE [--ops ...] [--lines A-B] [--cases N] [--out FILE]. Survivors need a human: equivalent or a hole.
"""
import argparse
import ast
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = {
    "omemo/session_manager.py": "C04 C02 C12 C08 C15 C16 C11 C20 C19 C10 C01 C17 C14 C13 C25 C07 C28 C18 C29 C24 C26 C06 C09 C03 C05 C23 C27 C30 C21 C22",
    "omemo/storage.py": "C21 C22 C26 C25 C12 C24 C15 C04",
    "omemo/backend.py": "C27 C04", "omemo/identity_key_pair.py": "C23 C24 C14",
    "examples/btbv_session_manager.py": "C30",
}
DEFAULT = "C27 C04 C02 C22 C23 C12 C24 C30"
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in",
       ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


HELPER = """

def _vt_hit(owner, site, number):
    counts = owner.__dict__.setdefault("_vt_counts", {})
    counts[site] = counts.get(site, 0) + 1
    return counts[site] == number
"""


def mutants(source, when=None):
    """
    With `when`, each change only applies under a condition: "hit:N" (the Nth execution of the place in the life of the object) or any
    expression over ``self``. Only places in methods are changed then.
    """
    tree = ast.parse(source)
    methods = [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.args.args
               and n.args.args[0].arg == "self"]
    sites = iter(range(10 ** 9))

    def condition(node):
        if when.startswith("hit:"):
            return f"_vt_hit(self, {next(sites)}, {when[4:]})"
        return when

    def in_method(node):
        return any(m.lineno < node.lineno and node.end_lineno <= m.end_lineno for m in methods)
    lines = source.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()))
    raw = source.encode()

    def pos(lineno, col):
        return starts[lineno - 1] + col

    def seg(node):
        return pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)

    def repl(node, new):
        a, b = seg(node)
        if when:
            if not in_method(node):
                return source
            old = raw[a:b].decode()
            if isinstance(node, ast.stmt):
                old = old.replace("\n", "\n    ")
                old = f"if not {condition(node)}:\n" + " " * (node.col_offset + 4) + old
                if new != "pass":
                    old += "\n" + " " * node.col_offset + "else:\n" + " " * (node.col_offset + 4) + new.replace("\n", "\n    ")
                new = old
            elif isinstance(node, ast.ExceptHandler) or node in handler_types:
                return source
            else:
                new = f"(({new}) if {condition(node)} else ({old}))"
        return (raw[:a] + new.encode() + raw[b:]).decode() + (HELPER if when else "")

    def text(node):
        a, b = seg(node)
        return raw[a:b].decode()

    def is_log(node):
        t = text(node)
        return "logging" in t[:60] or "logger" in t[:40]

    handler_types = [n.type for n in ast.walk(tree) if isinstance(n, ast.ExceptHandler)]
    out = []
    for node in ast.walk(tree):
        for field in ("body", "orelse", "finalbody"):
            body = getattr(node, field, None)
            if not isinstance(body, list) or isinstance(node, (ast.Module, ast.ClassDef)):
                continue
            for i, st in enumerate(body):
                if not isinstance(st, ast.stmt) or is_log(st):
                    continue
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                    continue
                if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Continue, ast.Break, ast.Return,
                                   ast.For, ast.If, ast.AsyncFor)):
                    if not (isinstance(st, ast.Return) and st.value is not None):
                        out.append(("delete", st.lineno, repl(st, "pass"), text(st)[:90]))
                if not when and i + 1 < len(body) and not is_log(body[i + 1]) and isinstance(st, (ast.Expr, ast.Assign, ast.For, ast.If)) \
                        and isinstance(body[i + 1], (ast.Expr, ast.Assign, ast.For, ast.If)):
                    a1, b1 = seg(st)
                    a2, b2 = seg(body[i + 1])
                    new = raw[:a1] + raw[a2:b2] + raw[b1:a2] + raw[a1:b1] + raw[b2:]
                    out.append(("swap", st.lineno, new.decode(), text(st)[:60] + " <> " + text(body[i + 1])[:60]))
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            out.append(("negate", node.test.lineno, repl(node.test, f"(not ({text(node.test)}))"), text(node.test)[:90]))
            if isinstance(node, ast.If):
                out.append(("true", node.test.lineno, repl(node.test, "True"), text(node.test)[:90]))
        if isinstance(node, ast.comprehension):
            for t in node.ifs:
                out.append(("comp-true", t.lineno, repl(t, "True"), text(t)[:90]))
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            new = CMP[type(node.ops[0])]
            out.append(("cmp", node.lineno, repl(node, f"({text(node.left)} {new} {text(node.comparators[0])})"), text(node)[:90]))
        if isinstance(node, ast.BoolOp):
            new = " or " if isinstance(node.op, ast.And) else " and "
            out.append(("bool", node.lineno, repl(node, "(" + new.join(f"({text(v)})" for v in node.values) + ")"), text(node)[:90]))
            for v in node.values:
                rest = (" and " if isinstance(node.op, ast.And) else " or ").join(f"({text(x)})" for x in node.values if x is not v)
                out.append(("drop-operand", v.lineno, repl(node, f"({rest})"), text(v)[:90]))
        if isinstance(node, ast.Continue):
            out.append(("break", node.lineno, repl(node, "break"), "continue"))
        if isinstance(node, ast.Break):
            out.append(("continue", node.lineno, repl(node, "continue"), "break"))
        if isinstance(node, ast.Constant) and not isinstance(node.value, str):
            if isinstance(node.value, bool):
                out.append(("const", node.lineno, repl(node, str(not node.value)), text(node)))
            elif isinstance(node.value, int):
                out.append(("const", node.lineno, repl(node, str(node.value + 1)), text(node)))
                out.append(("const", node.lineno, repl(node, str(node.value - 1)), text(node)))
        if isinstance(node, ast.BinOp):
            new = {ast.Add: "-", ast.Sub: "+", ast.BitOr: "&", ast.BitAnd: "|", ast.Mult: "+"}.get(type(node.op))
            if new and not isinstance(node.left, ast.JoinedStr):
                out.append(("arith", node.lineno, repl(node, f"({text(node.left)} {new} {text(node.right)})"), text(node)[:90]))
        if isinstance(node, ast.Call):
            for kw in node.keywords:
                if kw.arg:
                    a, b = seg(kw)
                    e = b
                    while raw[e:e + 1] in (b" ", b"\n"):
                        e += 1
                    if not when and raw[e:e + 1] == b",":
                        out.append(("drop-kw", kw.value.lineno, (raw[:a] + raw[e + 1:]).decode(), text(node)[:40] + " " + kw.arg))
            if isinstance(node.func, ast.Name) and node.func.id in ("deepcopy", "copy", "frozenset", "set", "list", "sorted") and len(node.args) >= 1:
                out.append(("unwrap", node.lineno, repl(node, f"({text(node.args[0])})"), text(node)[:90]))
            if isinstance(node.func, ast.Attribute) and node.func.attr in ("copy",) and not node.args:
                out.append(("unwrap", node.lineno, repl(node, f"({text(node.func.value)})"), text(node)[:90]))
        if isinstance(node, ast.ExceptHandler) and node.type is not None:
            out.append(("except-none", node.lineno, repl(node.type, "ZeroDivisionError"), text(node.type)[:60]))
    good, seen = [], set()
    for op, line, new, what in out:
        if new in seen or new == source:
            continue
        seen.add(new)
        try:
            compile(new, "x", "exec")
        except SyntaxError:
            continue
        good.append((op, line, new, what))
    return good


def judge(job):
    number, path, op, line, new, what, cases, seed = job
    scratch = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        repo = os.path.join(scratch, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "docs", "*.egg-info", "__pycache__", "build"))
        with open(os.path.join(repo, path), "w", encoding="utf8") as f:
            f.write(new)
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONPYCACHEPREFIX=scratch + "/pyc", VT_REPO=repo, TMPDIR=scratch,
                   PYTHONPATH=f"{repo}:{VERIF}", VT_EVIDENCE=scratch)
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=repo, env=env,
                               capture_output=True, timeout=120, check=False)
            if t.returncode != 0:
                return (number, op, line, what, "tests")
        except subprocess.TimeoutExpired:
            return (number, op, line, what, "tests-timeout")
        odd = []
        for prop in (os.environ.get("MUT_PROPS") or ORDER.get(path, DEFAULT)).split():
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "vt.runner", prop, "--workers", "1", "--seed", str(seed)]
                                   + (["--cases", str(cases)] if cases else []),
                                   cwd=VERIF, env=env, capture_output=True, timeout=400, check=False)
            except subprocess.TimeoutExpired:
                odd.append(prop + ":timeout")
                continue
            if r.returncode == 1 and b"VIOLATION" in r.stdout:
                return (number, op, line, what, prop)
            if r.returncode not in (0, 2):
                odd.append(f"{prop}:{r.returncode}:{r.stderr[-200:]}")
        return (number, op, line, what, "SURVIVED " + " ".join(odd))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("file")
    parser.add_argument("--cases", type=int, default=60)
    parser.add_argument("--seed", type=int, default=1)
    parser.add_argument("--sample", type=int)
    parser.add_argument("--ops")
    parser.add_argument("--only")
    parser.add_argument("--when", help="apply each change only under a condition, see mutants()")
    parser.add_argument("--out", default="/tmp/mutants.jsonl")
    parser.add_argument("--list", action="store_true")
    args = parser.parse_args()
    with open(os.path.join("/repo", args.file), encoding="utf8") as f:
        found = mutants(f.read(), args.when)
    jobs = [(n, args.file, op, line, new, what, args.cases, args.seed) for n, (op, line, new, what) in enumerate(found)
            if (not args.ops or op in args.ops.split(",")) and (not args.only or n in {int(x) for x in args.only.split(",")})]
    if os.path.exists(args.out):
        with open(args.out, encoding="utf8") as f:
            done = {r[1] for r in map(json.loads, f) if r[0] == args.file}
        jobs = [j for j in jobs if j[0] not in done]
    if args.sample and args.sample < len(jobs):
        jobs = random.Random(0).sample(jobs, args.sample)
    print(len(jobs), "mutants")
    if args.list:
        return
    with multiprocessing.Pool(8) as pool, open(args.out, "a", encoding="utf8") as out:
        for r in pool.imap_unordered(judge, jobs):
            out.write(json.dumps([args.file] + list(r)) + "\n")
            out.flush()
            if r[4].startswith("SURVIVED"):
                print(r, flush=True)


if __name__ == "__main__":
    main()
