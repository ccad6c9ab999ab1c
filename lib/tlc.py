"""Runs TLC on the specification."""
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
TLA = pathlib.Path("/opt/veriftools/tla")
INFINITE = 1000000


class MachineryError(Exception):
    """Something of ours failed. This is never a verdict."""


def scratch(prefix="mf-"):
    return tempfile.mkdtemp(prefix=prefix, dir=os.environ.get("VERIF_SCRATCH") or None)


def run_tlc(module, config=None, env=None, workers=8, timeout=800, args=(), heap="8g"):
    """Runs TLC in a scratch directory. Returns its output (text) and exit code."""
    meta = scratch("tlc-")
    cmd = [
        "java",
        "-XX:+UseParallelGC",
        "-Xss256m",
        f"-Xmx{heap}",
        f"-Djava.io.tmpdir={meta}",
        f"-DTLA-Library={SPEC}",
        "-cp",
        f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar",
        "tlc2.TLC",
        "-workers",
        str(workers),
        "-metadir",
        meta,
        "-noGenerateSpecTE",
        *args,
        "-config",
        str(SPEC / f"{config or module}.cfg"),
        str(SPEC / f"{module}.tla"),
    ]
    environment = {**os.environ, **{k: str(v) for k, v in (env or {}).items()}}
    try:
        proc = subprocess.run(
            cmd, env=environment, cwd=meta, capture_output=True, text=True,
            timeout=timeout,
        )
    except subprocess.TimeoutExpired:
        raise MachineryError(f"TLC on {module} took more than {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return proc.returncode, proc.stdout + proc.stderr


def stats(output):
    """The number of transitions (generated states) and distinct states."""
    found = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", output)
    if not found:
        return 0, 0
    return tuple(int(x.replace(",", "")) for x in found[-1])


def must(module, code, output):
    if code != 0:
        raise MachineryError(f"TLC on {module} ended with {code}:\n{output[-3000:]}")


def codes(text):
    return [ord(c) for c in text]


def text(points):
    return "".join(map(chr, points))


def width(number):
    return INFINITE if number == float("inf") else number


def batches(module, items, batch=250, env=None, workers=8, timeout=1500):
    """Has a module that works on batches answer all items. Returns answers and stats."""
    if not items:
        return [], (0, 0)
    directory = scratch("batch-")
    try:
        parts = [items[i : i + batch] for i in range(0, len(items), batch)]
        for k, part in enumerate(parts, 1):
            with open(f"{directory}/{k}.in.json", "w") as file:
                json.dump(part, file)
        code, output = run_tlc(
            module,
            env={"ORACLE_DIR": directory, "ORACLE_BATCHES": len(parts), **(env or {})},
            workers=workers,
            timeout=timeout,
        )
        must(module, code, output)
        answers = []
        for k, part in enumerate(parts, 1):
            with open(f"{directory}/{k}.out.json") as file:
                found = json.load(file)
            if len(found) != len(part):
                raise MachineryError(f"{module} did not answer everything")
            answers += found
        return answers, stats(output)
    finally:
        shutil.rmtree(directory, ignore_errors=True)


def oracle(cases, batch=250, workers=8, timeout=1500):
    """What becomes of (text, width)s: a list of (outcome, text), and TLC's stats."""
    found, numbers = batches(
        "Oracle", [{"t": codes(t), "w": width(w)} for t, w in cases], batch, None, workers, timeout
    )
    return [(a["o"], text(a["r"])) for a in found], numbers
