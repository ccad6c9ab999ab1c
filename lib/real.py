"""Runs the real code, in processes that can be stopped."""
import importlib
import multiprocessing
import os
import sys
import time
import traceback

REPO = os.environ.get("MARKFLOW_REPO", "/repo")
sys.dont_write_bytecode = True


def load():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging

    logging.disable(logging.CRITICAL)
    import markflow
    import markflow.exceptions as ex

    here = os.path.realpath(markflow.__file__)
    if not here.startswith(os.path.realpath(REPO) + "/"):
        raise RuntimeError(f"imported {here}")
    return markflow.reformat_markdown_text, ex


def answer(function, ex, text, width):
    try:
        # (88 is what it has to be without one.)
        given = () if width == 88 and isinstance(width, int) and len(text) % 2 else (width,)
        out = function(text, *given)
        if not isinstance(out, str):
            return ("crash", "returned " + type(out).__name__)
        return ("ok", out)
    except ex.ReformatInconsistentException:
        return ("inconsistent", "")
    except ex.MarkdownFormatException:
        return ("malformed", "")
    except RecursionError:
        return ("crash", "RecursionError")
    except Exception as e:
        return ("crash", type(e).__name__)


def _serve(pipe):
    function, ex = load()
    while True:
        job = pipe.recv()
        if job is None:
            return
        k, cases, twice = job
        results = []
        for i, (text, width) in enumerate(cases):
            if i % 16 == 0:
                pipe.send(("at", k, i))
            first = answer(function, ex, text, width)
            second = None
            if twice and first[0] == "ok":
                second = answer(function, ex, first[1], width)
                if second == first:
                    second = "same"
            results.append((first, second))
        pipe.send(("done", k, results))


class Worker:
    def __init__(self, context):
        self.context = context
        self.job = None
        self.start()

    def start(self):
        self.pipe, other = self.context.Pipe()
        self.process = self.context.Process(target=_serve, args=(other,), daemon=True)
        self.process.start()
        other.close()
        self.since = time.monotonic()
        self.at = 0

    def stop(self):
        self.process.kill()
        self.process.join()
        self.pipe.close()


def run(cases, twice=False, workers=8, chunk=200, limit=20.0, deadline=None):
    """What the real code makes of (text, width)s: [(first, second)].

    An answer is (outcome, text).  The second one is what becomes of the text of the
    first one: "same" if that is the same, None if there is none.  Calls that take
    longer than limit are stopped ("timeout").  After the deadline (monotonic time),
    calls that haven't been made are None.
    """
    context = multiprocessing.get_context("spawn")
    jobs = [(k, cases[k : k + chunk]) for k in range(0, len(cases), chunk)]
    jobs.reverse()
    results = [None] * len(cases)
    if not jobs:
        return results
    pool = [Worker(context) for _ in range(min(workers, len(jobs)))]
    busy = 0
    from multiprocessing.connection import wait

    def give(worker):
        if deadline and time.monotonic() > deadline:
            jobs.clear()
        if jobs:
            job = jobs.pop()
            worker.job = job
            worker.at = 0
            worker.since = time.monotonic()
            worker.pipe.send((job[0], job[1], twice))
        else:
            worker.job = None

    timeouts = 0
    try:
        for w in pool:
            give(w)
        while any(w.job for w in pool):
            ready = wait([w.pipe for w in pool if w.job], timeout=0.5)
            for w in pool:
                if not w.job:
                    continue
                if w.pipe in ready:
                    try:
                        what, k, data = w.pipe.recv()
                    except (EOFError, OSError):
                        what, k, data = "dead", w.job[0], None
                    if what == "at":
                        w.at = data
                        w.since = time.monotonic()
                        continue
                    if what == "done":
                        for i, r in enumerate(data):
                            results[k + i] = r
                        give(w)
                        continue
                    late = "died"
                elif time.monotonic() - w.since > limit:
                    late = "timeout"
                else:
                    continue
                # It is one of the next 16: do these one at a time.
                base, part = w.job
                w.stop()
                if len(part) == 1:
                    results[base] = (("crash" if late == "died" else "timeout", late), None)
                    timeouts += 1
                    if timeouts > 20:
                        jobs.clear()
                else:
                    lo, hi = w.at, min(len(part), w.at + 16)
                    jobs += [(base, part[:lo])] if lo else []
                    jobs += [(base + hi, part[hi:])] if hi < len(part) else []
                    jobs += [(base + i, part[i : i + 1]) for i in range(lo, hi)]
                w.start()
                give(w)
    finally:
        for w in pool:
            w.stop()
    return results


# ------------------------------------------------------------------ other jobs
class Failure:
    """Something of ours failed."""

    def __init__(self, text):
        self.text = text


def _serve_jobs(pipe, target):
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    module, name = target.split(":")
    function = getattr(importlib.import_module(module), name)
    while True:
        job = pipe.recv()
        if job is None:
            return
        try:
            result = function(job)
        except Exception:
            result = Failure(traceback.format_exc())
        pipe.send(result)


def jobs(target, items, workers=8, limit=60.0, deadline=None):
    """Results of target ("module:function") for all items, from processes of their own.

    What takes too long yields "timeout", what ends its process "died", and what
    wasn't begun before the deadline None.
    """
    from multiprocessing.connection import wait

    context = multiprocessing.get_context("spawn")
    results = [None] * len(items)
    todo = list(range(len(items)))[::-1]
    pool = []

    def start(slot):
        pipe, other = context.Pipe()
        process = context.Process(target=_serve_jobs, args=(other, target), daemon=True)
        process.start()
        other.close()
        slot.update(pipe=pipe, process=process, item=None)

    def give(slot):
        if deadline and time.monotonic() > deadline:
            todo.clear()
        slot["item"] = None
        if todo:
            slot["item"] = todo.pop()
            slot["since"] = time.monotonic()
            slot["pipe"].send(items[slot["item"]])

    def stop(slot):
        slot["process"].kill()
        slot["process"].join()
        slot["pipe"].close()

    try:
        for _ in range(min(workers, len(items))):
            slot = {}
            start(slot)
            pool.append(slot)
            give(slot)
        while any(s["item"] is not None for s in pool):
            ready = wait([s["pipe"] for s in pool if s["item"] is not None], timeout=0.5)
            for s in pool:
                if s["item"] is None:
                    continue
                if s["pipe"] in ready:
                    try:
                        results[s["item"]] = s["pipe"].recv()
                        if isinstance(results[s["item"]], Failure):
                            raise RuntimeError(results[s["item"]].text)
                    except (EOFError, OSError):
                        results[s["item"]] = "died"
                        stop(s)
                        start(s)
                elif time.monotonic() - s["since"] > limit:
                    results[s["item"]] = "timeout"
                    stop(s)
                    start(s)
                else:
                    continue
                give(s)
    finally:
        for s in pool:
            stop(s)
    return results
