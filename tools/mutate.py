#!/opt/venv/bin/python
"""Mutants of the code that the existing tests don't notice, and what the corpus says about them.

mutate.py OUT.jsonl [SEED [MAX [PART-OF-PATH...]]]   (needs build/corpus; works on copies of /repo)
Not a check: it is how the checks themselves are tested.
"""
import ast
import copy
import gzip
import json
import multiprocessing
import os
import pathlib
import pickle
import random
import shutil
import subprocess
import sys
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF / "lib"))
REPO = "/repo"
WORK = pathlib.Path("/tmp/mutants")

STRIPS = ["strip", "lstrip", "rstrip"]
COMPARE = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE],
           ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
           ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add]}


def mutations(tree):
    """Functions that mutate a copy of the tree (found by index of node), with descriptions."""
    docs = set()
    for node in ast.walk(tree):
        body = getattr(node, "body", None)
        if isinstance(body, list) and body and isinstance(body[0], ast.Expr) and isinstance(
            getattr(body[0], "value", None), ast.Constant
        ):
            docs.add(id(body[0].value))
            docs.add(id(body[0]))
    for index, node in enumerate(ast.walk(tree)):
        line = getattr(node, "lineno", 0)

        def m(what, change, index=index, line=line):
            return (line, what, index, change)

        if isinstance(node, ast.Compare):
            for k, op in enumerate(node.ops):
                for new in COMPARE.get(type(op), []):
                    yield m(f"{type(op).__name__}->{new.__name__}",
                            lambda n, k=k, new=new: n.ops.__setitem__(k, new()))
        if isinstance(node, ast.BoolOp):
            other = ast.Or if isinstance(node.op, ast.And) else ast.And
            yield m("and<->or", lambda n, other=other: setattr(n, "op", other()))
            for k in range(len(node.values)):
                yield m(f"drop operand {k}",
                        lambda n, k=k: n.values.pop(k) and None if len(n.values) > 2
                        else (n.values.pop(k), n.values.append(n.values[0]))[0] and None)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield m("not dropped", lambda n: (setattr(n, "op", ast.Not()),
                                              setattr(n, "operand", ast.UnaryOp(ast.Not(), n.operand)))[0])
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            yield m("condition negated",
                    lambda n: setattr(n, "test", ast.UnaryOp(ast.Not(), n.test)))
            if isinstance(node, ast.If):
                yield m("condition false", lambda n: setattr(n, "test", ast.Constant(False)))
                yield m("condition true", lambda n: setattr(n, "test", ast.Constant(True)))
        if isinstance(node, ast.BinOp):
            for new in BIN.get(type(node.op), []):
                yield m(f"{type(node.op).__name__}->{new.__name__}",
                        lambda n, new=new: setattr(n, "op", new()))
        if isinstance(node, ast.Constant) and id(node) not in docs:
            v = node.value
            if isinstance(v, bool):
                yield m(f"{v}->{not v}", lambda n, v=v: setattr(n, "value", not v))
            elif isinstance(v, int):
                for d in (1, -1):
                    yield m(f"{v}->{v + d}", lambda n, v=v, d=d: setattr(n, "value", v + d))
            elif isinstance(v, str) and len(v) < 80:
                if v:
                    for k in {0, len(v) // 2, len(v) - 1}:
                        yield m(f"{v!r} without [{k}]",
                                lambda n, v=v, k=k: setattr(n, "value", v[:k] + v[k + 1:]))
                else:
                    yield m("'' -> ' '", lambda n: setattr(n, "value", " "))
                if v == " ":
                    yield m("' '->'\\t'", lambda n: setattr(n, "value", "\t"))
        if isinstance(node, ast.Attribute) and node.attr in STRIPS:
            for new in STRIPS:
                if new != node.attr:
                    yield m(f"{node.attr}->{new}", lambda n, new=new: setattr(n, "attr", new))
        if isinstance(node, ast.Attribute) and node.attr in ("startswith", "endswith"):
            new = "endswith" if node.attr == "startswith" else "startswith"
            yield m(f"{node.attr}->{new}", lambda n, new=new: setattr(n, "attr", new))
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in STRIPS + ["lower", "expandtabs"]:
            def unwrap(n):
                n.func, n.args, n.keywords = ast.Name("str", ast.Load()), [n.func.value], []
            yield m(f"without {node.func.attr}", unwrap)
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("max", "min"):
            new = "min" if node.func.id == "max" else "max"
            yield m(f"{node.func.id}->{new}", lambda n, new=new: setattr(n.func, "id", new))
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("all", "any"):
            new = "any" if node.func.id == "all" else "all"
            yield m(f"{node.func.id}->{new}", lambda n, new=new: setattr(n.func, "id", new))
        for field in ("body", "orelse"):
            block = getattr(node, field, None)
            if isinstance(block, list):
                for k, statement in enumerate(block):
                    if isinstance(statement, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.Return)) and id(statement) not in docs:
                        if isinstance(statement, ast.Expr) and "logger" in ast.dump(statement):
                            continue
                        l = statement.lineno
                        yield (l, f"deleted: {ast.unparse(statement)[:50]}", index,
                               lambda n, k=k, field=field: getattr(n, field).__setitem__(k, ast.Pass()))


def mutants(seed, limit, parts):
    found = []
    for path in sorted(pathlib.Path(REPO, "markflow").rglob("*.py")):
        name = str(path.relative_to(REPO))
        if parts and not any(p in name for p in parts):
            continue
        source = path.read_text()
        tree = ast.parse(source)
        for line, what, index, change in mutations(tree):
            found.append((name, line, what, index))
    random.Random(seed).shuffle(found)
    return found[:limit]


def apply(directory, name, line, what, index):
    path = pathlib.Path(directory, name)
    original = pathlib.Path(REPO, name).read_text()
    tree = ast.parse(original)
    for l, w, i, change in mutations(tree):
        if (l, w, i) == (line, what, index):
            break
    else:
        raise KeyError(what)
    node = list(ast.walk(tree))[index]
    change(node)
    ast.fix_missing_locations(tree)
    try:
        path.write_text(ast.unparse(tree))
    except Exception:
        return False
    return True


def load_corpus(limit):
    batches = []
    for path in sorted((VERIF / "build/corpus").glob("[a-z]*.pkl.gz"),
                       key=lambda p: (p.name.rsplit("-", 1)[1], p.name)):
        with gzip.open(path, "rb") as file:
            batches += pickle.load(file)
        if len(batches) > limit:
            break
    # (Mixed, so that what matters comes early)
    random.Random(5).shuffle(batches)
    return batches


CASES = []


def replay(directory, pipe, seconds):
    """In a process of its own: mismatches with the corpus."""
    import signal

    sys.path.insert(0, directory)
    sys.dont_write_bytecode = True
    import logging

    logging.disable(logging.CRITICAL)
    import markflow
    import markflow.exceptions as ex
    import real

    assert markflow.__file__.startswith(directory)

    class Late(BaseException):
        pass

    def late(*_):
        raise Late

    signal.signal(signal.SIGALRM, late)
    until = time.monotonic() + seconds
    wrong = []
    n = 0
    for t, w, o, r in CASES:
        n += 1
        if time.monotonic() > until or len(wrong) >= 60:
            break
        signal.alarm(5)
        try:
            first = real.answer(markflow.reformat_markdown_text, ex, t, w)
        except Late:
            first = ("timeout", "")
        signal.alarm(0)
        if first != (o, r):
            second = None
            if first[0] == "ok":
                signal.alarm(5)
                try:
                    second = real.answer(markflow.reformat_markdown_text, ex, first[1], w)
                except Late:
                    second = ("timeout", "")
                signal.alarm(0)
                if second == first:
                    second = "same"
            wrong.append((t, w, first, second))
    pipe.send((n, wrong))
    pipe.close()


def one(job):
    number, (name, line, what, index), seconds = job
    directory = str(WORK / str(number))
    shutil.rmtree(directory, ignore_errors=True)
    os.makedirs(directory)
    for part in ("markflow", "tests", "pyproject.toml"):
        if os.path.isdir(f"{REPO}/{part}"):
            shutil.copytree(f"{REPO}/{part}", f"{directory}/{part}",
                            ignore=shutil.ignore_patterns("__pycache__"))
        else:
            shutil.copy(f"{REPO}/{part}", directory)
    record = dict(file=name, line=line, what=what)
    try:
        if not apply(directory, name, line, what, index):
            return None
        try:
            done = subprocess.run(
                ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"],
                cwd=directory, capture_output=True, text=True, timeout=60,
                env={**os.environ, "PYTHONPATH": directory, "PYTHONDONTWRITEBYTECODE": "1"})
        except subprocess.TimeoutExpired:
            return None
        if done.returncode != 0:
            return None
        ours, theirs = multiprocessing.Pipe(False)
        process = multiprocessing.get_context("fork").Process(
            target=replay, args=(directory, theirs, seconds))
        process.start()
        theirs.close()
        try:
            n, wrong = ours.recv() if ours.poll(seconds * 3 + 60) else (-1, [])
        except EOFError:
            n, wrong = -1, []
        process.kill()
        process.join()
        record.update(replayed=n, wrong=wrong, index=index)
        return record
    finally:
        shutil.rmtree(directory, ignore_errors=True)


def main():
    out = sys.argv[1]
    seed = sys.argv[2] if len(sys.argv) > 2 else "1"
    limit = int(sys.argv[3]) if len(sys.argv) > 3 else 400
    parts = sys.argv[4:]
    seconds = float(os.environ.get("MUTANT_S", "12"))
    CASES.extend(load_corpus(int(os.environ.get("MUTANT_CASES", "60000"))))
    chosen = mutants(seed, limit, parts)
    print(len(chosen), "mutants,", len(CASES), "cases", flush=True)
    survivors = []
    from concurrent.futures import ThreadPoolExecutor

    with ThreadPoolExecutor(int(os.environ.get("MUTANT_JOBS", "7"))) as pool:
        for record in pool.map(one, [(k, c, seconds) for k, c in enumerate(chosen)]):
            if record:
                survivors.append(record)
    print(len(survivors), "not noticed by the tests", flush=True)
    import docs

    noticed = [s for s in survivors if s["wrong"]]
    cases = [(t, w, tuple(a), b) for s in noticed for t, w, a, b in s["wrong"]]
    verdicts = docs.judge(cases)[0] if cases else []
    k = 0
    for s in noticed:
        counts = {}
        for _ in s["wrong"]:
            for pid in verdicts[k][0]:
                counts[pid] = counts.get(pid, 0) + 1
            k += 1
        s["verdicts"] = counts
    with open(out, "w") as file:
        for s in survivors:
            s["n"] = len(s["wrong"])
            s["wrong"] = sorted(s["wrong"], key=lambda c: len(c[0]))[:3]
            file.write(json.dumps(s) + "\n")
    for s in survivors:
        print(s["file"], s["line"], s["what"], "|", s["replayed"], s["n"], s.get("verdicts"))


if __name__ == "__main__":
    main()
