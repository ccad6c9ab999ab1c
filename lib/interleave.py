"""Results don't depend on earlier or concurrent calls (C19).

Histories of calls, and schedules of threads that are stopped at chosen lines of the
code, are recorded in processes of their own and judged by the specification (History):
every call has to be answered, and to log, what it does in a process in which nothing
else ever happened.
"""
import logging
import os
import pickle
import random
import select
import signal
import subprocess
import sys
import threading
import time

import docs
import gen
import real
import tlc

INFO, ERROR, DEBUG, WARNING = logging.INFO, logging.ERROR, logging.DEBUG, logging.WARNING

FAILED = 77

# Documents that are refused, or nearly so
REFUSED = ["a\n* ", "|a|\n|b|\n", "|a|b|\n|-|-|\n|c|\n", "> |a|\n> |b|\n", "* |a|\n  |b|\n"]


# -------------------------------------------------------------- in the process
def answer(function, ex, text, width):
    try:
        out = function(text, width)
        return ("ok", out if isinstance(out, str) else repr(type(out)))
    except ex.ReformatInconsistentException as e:
        return ("inconsistent", str(e))
    except ex.MarkdownFormatException as e:
        return ("malformed", str(e))
    except Exception as e:
        return ("crash", type(e).__name__)


class Recorder(logging.Handler):
    """Takes down what is logged, by whom."""

    def __init__(self):
        super().__init__(logging.NOTSET)
        self.events = []
        self.who = threading.local()

    def emit(self, record):
        try:
            message = record.getMessage()
        except Exception as e:
            message = type(e).__name__
        if record.name.startswith("markflow"):
            # What is of use for debugging only may well be left out (as of what is
            # remembered rather than done again), and so may repeated warnings.
            t = getattr(self.who, "t", None)
            if record.levelno > INFO:
                self.who.__dict__.setdefault("warnings", set()).add((record.levelno, record.name, message))
            if record.levelno != INFO:
                return
            self.events.append(("log", t, (record.levelno, record.name, message)))
        elif record.name == "bystander":
            self.events.append(("heard", 0, int(message)))

    def warned(self):
        """All different warnings since this was asked for by this thread"""
        found = sorted(self.who.__dict__.pop("warnings", ()))
        return [("log", getattr(self.who, "t", None), x) for x in found]

    # There is no need for a lock: only one thread runs at any time.
    def createLock(self):
        self.lock = None

    def acquire(self):
        pass

    release = acquire


def looks(markflow_too=True):
    """How logging is configured (apart from loggers that are merely there)"""
    root = logging.getLogger()
    out = [
        ("disabled", root.manager.disable),
        ("class", repr(logging.getLoggerClass())),
        ("raise", logging.raiseExceptions),
        ("factory", repr(logging.getLogRecordFactory())),
    ]
    loggers = {"": root}
    loggers.update(
        (n, l) for n, l in list(root.manager.loggerDict.items()) if isinstance(l, logging.Logger)
    )
    for name, l in sorted(loggers.items()):
        x = (l.level, l.disabled, l.propagate, [id(h) for h in l.handlers], [h.level for h in l.handlers],
             [id(f) for h in l.handlers for f in h.filters], [id(f) for f in l.filters])
        if name and x == (logging.NOTSET, False, True, [], [], [], []):
            continue
        out.append((name, x))
    return repr(out)


def install(level):
    logging.disable(logging.NOTSET)
    recorder = Recorder()
    root = logging.getLogger()
    root.handlers[:] = [recorder]
    root.setLevel(level)
    return recorder


def anew(text):
    """The same text, but another object"""
    return "".join(list(text))


def history(job):
    """Calls one after another: (text, width, level)s"""
    function, ex = real.load()
    recorder = install(ERROR)
    ev = recorder.events
    recorder.who.t = 1
    bystander = logging.getLogger("bystander")
    bystander.setLevel(INFO)
    root = logging.getLogger()
    last = None
    for n, (text, width, level) in enumerate(job["calls"], 1):
        if level != last:
            root.setLevel(level)
            last = level
            ev.append(("set", 0, looks()))
        ev.append(("begin", 1, (text, width, level)))
        a = answer(function, ex, anew(text), width)
        ev.extend(recorder.warned())
        ev.append(("end", 1, a))
        if not job.get("long") or n % 50 == 0:
            ev.append(("look", 0, looks()))
            ev.append(("say", 0, n))
            bystander.info(str(n))
    return ev


class Scheduler:
    """Lets exactly one of several threads run, according to a plan."""

    def __init__(self, plan, rng, quantum):
        self.plan = list(plan)  # [(thread, steps)]
        self.rng = rng
        self.quantum = quantum
        self.ready = threading.Condition()
        self.turn = None
        self.left = 0
        self.alive = set()
        self.steps = 0
        self.switched = None

    def next(self):
        while self.plan:
            t, steps = self.plan.pop(0)
            if t in self.alive:
                self.turn, self.left = t, steps
                return
        others = sorted(self.alive)
        if not others:
            self.turn = None
            return
        self.turn = self.rng.choice(others)
        self.left = self.rng.randint(1, 2 * self.quantum) if self.quantum else 10**9

    def wait(self, t):
        # Called with the condition held.  Threads that don't get on (since they wait for
        # one another in the code) lose their turn.
        seen = self.steps
        while self.turn != t:
            if not self.ready.wait(0.4) and self.steps == seen:
                self.next()
                self.ready.notify_all()
            seen = self.steps

    def step(self, t):
        if self.turn != t:
            with self.ready:
                self.wait(t)
        self.steps += 1
        self.left -= 1
        if self.left <= 0:
            with self.ready:
                self.next()
                if self.turn != t:
                    if self.switched:
                        self.switched()
                    self.ready.notify_all()
                    self.wait(t)

    def tracer(self, t, root, opcodes=False):
        def local(frame, event, arg):
            if event in ("line", "opcode"):
                self.step(t)
            return local

        def begin(frame, event, arg):
            if frame.f_code.co_filename.startswith(root):
                if opcodes:
                    frame.f_trace_opcodes = True
                self.step(t)
                return local
            return None

        return begin


def threads(job):
    """Threads with calls each, according to a plan"""
    function, ex = real.load()
    root = os.path.join(real.REPO, "markflow") + os.sep
    recorder = install(job["level"])
    ev = recorder.events
    logging.getLogger("bystander").setLevel(INFO)
    ev.append(("set", 0, looks()))
    s = Scheduler(job["plan"], random.Random(job["seed"]), job["quantum"])
    n = len(job["calls"])

    def guarded(function, *args):
        try:
            function(*args)
        except BaseException:
            import traceback

            traceback.print_exc()
            os._exit(FAILED)

    def work(t, calls):
        recorder.who.t = t
        with s.ready:
            s.wait(t)
        tracer = s.tracer(t, root, job.get("opcodes"))
        for text, width in calls:
            ev.append(("begin", t, (text, width, job["level"])))
            sys.settrace(tracer)
            try:
                a = answer(function, ex, anew(text), width)
            finally:
                sys.settrace(None)
            ev.extend(recorder.warned())
            ev.append(("end", t, a))
        with s.ready:
            s.alive.discard(t)
            s.next()
            s.ready.notify_all()

    def stand_by():
        # Everybody else waits while this one has its turn.
        bystander = logging.getLogger("bystander")
        number = 0
        while True:
            with s.ready:
                while s.turn != 0:
                    s.ready.wait(0.4)
                    if not s.alive - {0}:
                        return
            number += 1
            ev.append(("look", 0, looks()))
            ev.append(("say", 0, number))
            bystander.info(str(number))
            with s.ready:
                if not s.alive - {0}:
                    return
                s.next()
                while s.turn == 0:
                    s.left = 0
                    s.turn = s.rng.choice(sorted(s.alive - {0}))
                    s.left = s.rng.randint(1, 2 * s.quantum) if s.quantum else 10**9
                s.ready.notify_all()

    workers = [threading.Thread(target=guarded, args=(work, t, c), daemon=True) for t, c in enumerate(job["calls"], 1)]
    by = threading.Thread(target=guarded, args=(stand_by,), daemon=True)
    s.alive = set(range(1, n + 1)) | {0}
    for w in workers:
        w.start()
    by.start()
    with s.ready:
        s.next()
        s.ready.notify_all()
    for w in workers:
        w.join()
    with s.ready:
        s.alive.discard(0)
        s.ready.notify_all()
    by.join()
    ev.append(("look", 0, looks()))
    return ev


def shares(frame):
    """Whether a function uses something that may change and isn't its own"""
    code = frame.f_code
    values = [frame.f_globals.get(name) for name in code.co_names]
    values += [frame.f_locals.get(name) for name in code.co_freevars]
    function = frame.f_globals.get(code.co_name)
    values += list(getattr(function, "__defaults__", None) or ())
    return any(
        isinstance(v, (list, dict, set, bytearray)) or type(v).__module__.split(".")[0] in ("markflow", "collections", "queue")
        for v in values
    )


def profile(job):
    """The lines that are run for a call, in order"""
    function, ex = real.load()
    root = os.path.join(real.REPO, "markflow") + os.sep
    install(job["level"])
    seen = []
    known = {}

    def shared(frame):
        if frame.f_code not in known:
            known[frame.f_code] = shares(frame)
        return known[frame.f_code]

    def local(frame, event, arg):
        if event == "line":
            seen.append((frame.f_code.co_filename, frame.f_lineno, shared(frame)))
        return local

    def begin(frame, event, arg):
        if frame.f_code.co_filename.startswith(root):
            seen.append((frame.f_code.co_filename, frame.f_lineno, shared(frame)))
            return local

    text, width = job["call"]
    sys.settrace(begin)
    try:
        answer(function, ex, text, width)
    finally:
        sys.settrace(None)
    return seen


def solo(job):
    """A single call in a process of its own"""
    function, ex = real.load()
    text, width, level = job["call"]
    recorder = install(level)
    recorder.who.t = 1
    a = answer(function, ex, anew(text), width)
    return a, [x for e, t, x in recorder.events + recorder.warned() if e == "log"]


WHAT = {"history": history, "threads": threads, "profile": profile, "solo": solo}


def forked(job, limit=25):
    """Runs a job in a fork of this process, in which nothing was formatted yet."""
    out, into = os.pipe()
    child = os.fork()
    if child == 0:
        code = 0
        try:
            os.close(out)
            result = WHAT[job["what"]](job)
            data = pickle.dumps(result)
            while data:
                data = data[os.write(into, data) :]
        except BaseException:
            code = FAILED
            import traceback

            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(into)
    data = b""
    until = time.monotonic() + limit
    while True:
        ready, _, _ = select.select([out], [], [], max(0, until - time.monotonic()))
        if not ready:
            os.kill(child, signal.SIGKILL)
            break
        part = os.read(out, 1 << 16)
        if not part:
            break
        data += part
    os.close(out)
    _, status = os.waitpid(child, 0)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL:
        return "hangs"
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == FAILED:
        raise tlc.MachineryError("recording failed")
    if status:
        return "died"
    return pickle.loads(data)


def one(job):
    """A history with the answers of its calls on their own, or the points of a document"""
    real.load()
    if job["what"] == "apart":
        return apart(job)
    if job["what"] == "crowd":
        return crowd(job)
    recorded = forked(job)
    if job["what"] == "profile":
        return recorded
    if isinstance(recorded, str):
        again = forked(job)
        if isinstance(again, str):
            # Only if all of its calls on their own are answered, that's a matter of history.
            alone = [forked(dict(what="solo", call=c), 10) for c in asked(job)]
            return recorded if not any(isinstance(a, str) for a in alone) else None
        recorded = again
    known = {}
    for call in asked(job):
        if call not in known:
            known[call] = forked(dict(what="solo", call=call))
            if isinstance(known[call], str):
                return None
    return recorded, known


def asked(job):
    if job["what"] == "threads":
        return [(t, w, job["level"]) for calls in job["calls"] for t, w in calls]
    return job["calls"]


def crowd(job):
    """The same calls twice, in opposite orders

    Where calls aren't answered alike both times, a history as short as can be found of
    which the last call isn't answered as on its own."""
    runs = []
    for calls in (job["calls"], job["calls"][::-1]):
        x = forked(dict(what="history", calls=calls, long=True), 40)
        if isinstance(x, str):
            return None
        runs.append(x)
    known = answered(runs[1])
    first = answered(runs[0])
    different = [c for c in known if known[c] != first.get(c)]
    if not different:
        return runs[0], known
    for recorded, calls in zip(runs, (job["calls"], job["calls"][::-1])):
        got = answered(recorded)
        for call in different[:20]:
            alone = forked(dict(what="solo", call=call))
            if isinstance(alone, str) or alone == got[call]:
                continue
            before = calls[: calls.index(call)]
            size = len(before)
            while size:
                for k in range(0, len(before), size):
                    fewer = before[:k] + before[k + size :]
                    if answered(forked(dict(what="history", calls=fewer + [call], long=True)) or []).get(call) not in (
                        alone, None,
                    ):
                        before = fewer
                        break
                else:
                    size //= 2
            history = before + [call]
            recorded = forked(dict(what="history", calls=history, long=True))
            return recorded, {c: forked(dict(what="solo", call=c)) for c in history}
    return runs[0], known


def answered(events):
    """What calls one after another were answered, and what they logged (the last time)"""
    out, logs, call = {}, [], None
    for e, t, x in [] if isinstance(events, str) else events:
        if e == "begin":
            call, logs = x, []
        elif e == "log":
            logs.append(x)
        elif e == "end":
            out[call] = (x, logs)
    return out


def apart(job):
    """Single calls in processes that differ in all that shouldn't matter"""
    env = {**os.environ, **job["env"]}
    source = (
        "import sys,pickle;sys.path.insert(0,sys.argv[1]);import interleave,logging,os;"
        "job=pickle.load(sys.stdin.buffer);os.chdir(job['cwd']);"
        "out=[interleave.solo(dict(call=c)) for c in job['calls']];"
        "sys.stdout.buffer.write(pickle.dumps(out))"
    )
    done = subprocess.run(
        [sys.executable, "-c", source, os.path.dirname(os.path.abspath(__file__))],
        input=pickle.dumps(job), capture_output=True, env=env, timeout=100,
    )
    if done.returncode:
        raise tlc.MachineryError(done.stderr.decode()[-2000:])
    found = pickle.loads(done.stdout)
    events = []
    for call, (a, logs) in zip(job["calls"], found):
        events.append(("begin", 1, call))
        events += [("log", 1, x) for x in logs]
        events.append(("end", 1, a))
    known = {}
    for call in job["calls"]:
        if call not in known:
            known[call] = forked(dict(what="solo", call=call))
    return events, known


# ------------------------------------------------------------------- the specification
def encode(job, recorded, known):
    """A history for the specification: everything becomes numbers."""
    numbers = {}

    def number(x):
        return numbers.setdefault(x, len(numbers) + 1)

    calls = list(known)
    index = {c: k for k, c in enumerate(calls, 1)}
    answers = [
        dict(ans=number(("a",) + known[c][0]), logs=[number(("l",) + x) for x in known[c][1]]) for c in calls
    ]
    events = []
    for e, t, x in recorded:
        if e == "begin":
            x = index[x]
        elif e == "end":
            x = number(("a",) + x)
        elif e == "log":
            x = number(("l",) + x)
        elif e in ("set", "look"):
            x = number(("c", x))
        events.append(dict(e=e, t=t or 0, x=x))
    return dict(solo=answers, events=events, threads=len(job["calls"]) if job["what"] == "threads" else 1, conf=0)


# ---------------------------------------------------------------------------- generation
def small(g, r, focus=None):
    for _ in range(20):
        text, width = g.case(focus)
        if len(text) <= 300:
            return text
    return "a\n"


def relatives(g, r, text):
    """Documents that have something to do with this one"""
    lines = text.split("\n")
    for k in range(r.randint(1, 4)):
        x = r.random()
        if x < 0.15 and text:
            # Of the same length
            i = r.randrange(len(text))
            yield text[:i] + r.choice("ab *>`|-1.") + text[i + 1 :]
        elif x < 0.3:
            yield "\n".join("> " + l for l in lines)
        elif x < 0.45:
            yield "* " + "\n  ".join(lines)
        elif x < 0.55:
            yield text + "\n\n" + text
        elif x < 0.65:
            yield "\n".join(lines[: r.randint(0, len(lines))])
        elif x < 0.75:
            yield text.swapcase()
        elif x < 0.85:
            yield text + "\n\n" + small(g, r)
        else:
            yield text + r.choice(["\n", "  ", "\n\n", " ", "x", "\n* ", "\n```"])


def some_width(r):
    return r.choice([88, 88, 80, 40, 20, 10, 5, 3, 1, float("inf"), r.randint(1, 60)])


def make_history(g, r):
    texts = []
    for _ in range(r.randint(1, 3)):
        text = small(g, r)
        texts.append(text)
        texts += relatives(g, r, text)
    texts += r.sample(REFUSED, r.randint(0, 2))
    levels = [r.choice([ERROR, INFO, DEBUG])] if r.random() < 0.6 else [ERROR, INFO, DEBUG, WARNING]
    widths = [some_width(r) for _ in range(r.randint(1, 4))]
    calls = []
    level = r.choice(levels)
    for _ in range(r.randint(6, 18)):
        if r.random() < 0.3:
            level = r.choice(levels)
        calls.append((r.choice(texts), r.choice(widths), level))
    if r.random() < 0.5:
        calls += calls[::-1][: r.randint(1, 6)]
    return dict(what="history", calls=calls)


def make_long(g, r):
    texts = [small(g, r)[:60] for _ in range(12)] + REFUSED[:3]
    calls = [(r.choice(texts), r.choice([20, 88]), ERROR) for _ in range(r.choice([150, 300, 600]))]
    return dict(what="history", calls=calls, long=True)


CROWDED = ["a", "b c", "# d", "```", "~~~", "---", "===", "> e", "* f", "1. g", "", "    h", "|i|", "|-|", "[j]: k", "`l"]


PIECES = ["`a b`", "`a  b`", "`a b c`", "``a ` b``", "[a b](c)", "[a b](c 'd e')", "<br>", "<br />", "a b", "c", "d.", "e,", "*f g*"]
STARTS = ["", "", "", "# ", "#", "* ", "- ", "1. ", "2. ", "> ", ">", "    ", "```\n", "~~~ x\n", "|", "[a]: ", "> ```\n> ", "* ```\n  "]


def twin(r, text):
    """A document that can be taken for this one if white space, case, order, or some such is
    disregarded"""
    x = r.random()
    gaps = [i for i, c in enumerate(text) if c == " "]
    i = r.choice(gaps) if gaps else 0
    if x < 0.35 and gaps:
        return text[:i] + r.choice(["  ", "  ", "   ", "\t", "\n", ""]) + text[i + 1 :]
    if x < 0.45:
        i = r.randrange(len(text) + 1)
        return text[:i] + " " + text[i:]
    if x < 0.55:
        return r.choice([str.upper, str.title, str.swapcase])(text)
    if x < 0.65:
        return r.choice([" ", "  ", "   ", "    ", "\n"]) + text
    if x < 0.75:
        return text.rstrip("\n") + r.choice(["", "  ", "\n\n", "  \n", "\na\n"])
    if x < 0.85:
        parts = text.split(" ")
        r.shuffle(parts)
        return " ".join(parts)
    if x < 0.93:
        i = r.randrange(len(text))
        return text[:i] + r.choice("`.*'") + text[i + 1 :]
    return "\n".join(sorted(text.split("\n"), key=lambda l: r.random()))


def make_crowd(g, r):
    """Hundreds of documents that are much alike, in which what is remembered of one could
    be taken for what was asked of another"""
    kind = r.random()
    if kind < 0.25:
        # Few different lines in all kinds of orders
        pool = [r.choice(["> ", "> ", ">", "* ", "  ", ""]) + r.choice(CROWDED) for _ in range(12)]
        texts = {"\n".join(r.choice(pool) for _ in range(r.randint(2, 5))) + "\n" for _ in range(400)}
        return dict(what="crowd", calls=[(t, r.choice([88, 88, 5]), ERROR) for t in sorted(texts)])
    if kind < 0.5:
        texts = set()
        for _ in range(15):
            text = r.choice(STARTS) + " ".join(r.choice(PIECES) for _ in range(r.randint(1, 6))) + "\n"
            if r.random() < 0.4:
                text += r.choice(["", "\n"]) + r.choice(STARTS) + " ".join(r.choice(PIECES) for _ in range(r.randint(1, 4))) + "\n"
            texts.add(text)
            for _ in range(24):
                texts.add(twin(r, r.choice([text, twin(r, text)])))
        texts = sorted(texts)
        widths = [88, 88, 88, r.choice([12, 5, float("inf")])]
        return dict(what="crowd", calls=list(dict.fromkeys((t, r.choice(widths), ERROR) for t in texts)))
    if kind < 0.7:
        words = [r.choice(["ab", "cde", "fghi", "`j k`", "[l](m)", "no", "*p*", "qrstuvw"]) for _ in range(r.randint(14, 40))]
        base = " ".join(words)
        base = r.choice(["", "", "> ", "* ", "1. "]) + base
    else:
        base, _ = g.case()
        base = base[:400]
    if len(base) < 10:
        base += " some more words to be told apart"
    widths = [some_width(r) for _ in range(3)]
    calls = []
    for k in range(r.choice([150, 300, 400])):
        text = base
        x = r.random()
        i = r.randrange(len(text) // 2, len(text)) if r.random() < 0.7 else r.randrange(len(text))
        if x < 0.5:
            text = text[:i] + r.choice("abcdefghijklmnopqrstuvwxyz0123456789 ") + text[i + 1 :]
        elif x < 0.65:
            parts = text.split(" ")
            a, b = r.randrange(len(parts)), r.randrange(len(parts))
            parts[a], parts[b] = parts[b], parts[a]
            text = " ".join(parts)
        elif x < 0.75:
            text = text[:i] + "".join(r.choice("abcdefgh ") for _ in range(r.randint(1, 9))) + text[i:]
        elif x < 0.85:
            text = text[:i] + text[i + r.randint(1, 9) :]
        elif x < 0.95:
            calls.append((text, r.randint(1, 150), ERROR))
            continue
        else:
            text = text + "\n\n" + r.choice(["a", "* b", "> c", base[: r.randint(1, 40)]])
        calls.append((text, r.choice(widths), ERROR))
    return dict(what="crowd", calls=list(dict.fromkeys(calls)))


def make_threads(g, r, profiles):
    """Plans: mostly a single switch at a line that is rarely run"""
    k = r.randrange(len(profiles))
    (text, width), points = profiles[k]
    (text2, width2), points2 = profiles[r.randrange(len(profiles))]
    if r.random() < 0.4:
        text2, width2 = text, some_width(r)
    n = 2 if r.random() < 0.75 else 3
    calls = [[(text, width)], [(text2, width2)]]
    if n == 3:
        calls.append([profiles[r.randrange(len(profiles))][0]])
    for c in calls:
        if r.random() < 0.4:
            c.append(r.choice([text, text2] + REFUSED[:2]) and (r.choice([text, text2] + REFUSED[:3]), some_width(r)))
    kind = r.random()
    quantum = 0
    if kind < 0.1 and len(points) < 4000:
        # Step by step together, in documents that are alike
        other = "".join(chr((ord(c) - 97 + 7) % 26 + 97) if "a" <= c <= "z" else c for c in text)
        calls = [[(text, width)], [(r.choice([other, other, text2]), width)]]
        ahead, stride = r.choice([0, 0, 1, 1, 2, 3, 10]), r.choice([1, 1, 2, 3])
        plan = [(1, ahead)] if ahead else []
        plan += [(t, stride) for _ in range(len(points) // stride) for t in (2, 1)]
    elif kind < 0.7 and points:
        lines = sorted(set(points))
        if r.random() < 0.5:
            lines = [x for x in lines if x[2]] or lines
        line = r.choice(lines)
        places = [i for i, p in enumerate(points, 1) if p == line]
        p = r.choice([places[0], places[-1], r.choice(places)])
        plan = [(1, p), (2, 10**9)]
        if kind < 0.36:
            q = r.randint(1, len(points2) or 1)
            there = [i for i, x in enumerate(points2, 1) if x == line]
            if there and r.random() < 0.7:
                # Both are at the same line, or one is a few ahead.
                q = r.choice([there[0], there[-1], r.choice(there)]) + r.choice([0, 0, 0, 1, 2, 5])
            plan = [(1, p), (2, q), (0, 1), (1, 10**9), (2, 10**9)]
        elif kind < 0.52:
            plan = [(1, p), (0, 1), (2, 10**9), (0, 1)]
    else:
        plan = []
        quantum = r.choice([3, 10, 30, 100, 300])
    return dict(what="threads", calls=calls, plan=plan, quantum=quantum, seed=r.randrange(1 << 30),
                level=r.choice([DEBUG, INFO, INFO, ERROR]))


def show(job, recorded, known, bad):
    at = recorded[bad - 1] if 0 < bad <= len(recorded) else ("the end is missing", 0, "")
    before = [e for e in recorded[:bad] if e[0] in ("begin", "end")][-4:]
    return dict(
        kind=job["what"],
        calls=[[repr(x) for x in c] for c in (job["calls"] if job["what"] == "threads" else [c[:2] for c in job["calls"]][:40])],
        plan=job.get("plan"),
        event=repr(at)[:600],
        before=[repr(e)[:300] for e in before],
        job=repr({k: v for k, v in job.items() if k != "calls"})[:400],
    )


def design(result):
    """The specification of threads itself, and that it notices what it must"""
    code, output = tlc.run_tlc("MC_Threads", heap="2g")
    tlc.must("MC_Threads", code, output)
    result.count(tlc.stats(output))
    code, output = tlc.run_tlc("MC_Threads", "MC_ThreadsShared", heap="2g")
    if code == 0 or "is violated" not in output:
        raise tlc.MachineryError("shared flags were not noticed")


def check(pid, seed, tier):
    result = docs.Result()
    quick = tier == "quick"
    design(result)
    hints = gen.harvest(os.path.join(real.REPO, "markflow"))
    start = time.monotonic()
    budget = 9 if quick else 420
    rounds = 0
    kinds = {"history": 0, "threads": 0, "apart": 0, "crowd": 0}
    while rounds == 0 or time.monotonic() - start < budget:
        rounds += 1
        r = random.Random(f"{seed}-{pid}-{rounds}")
        g = gen.Gen(r, *hints)
        pool = []
        for _ in range(40):
            text = small(g, r)
            pool.append((text, some_width(r)))
        pool += [(t, 88) for t in REFUSED[:3]]
        points = real.jobs("interleave:one", [dict(what="profile", call=c, level=ERROR) for c in pool], limit=30)
        profiles = [(c, p) for c, p in zip(pool, points) if isinstance(p, list) and len(p) < 20000]
        work = []
        for k in range(1500):
            if k % 3:
                job = make_threads(g, r, profiles)
                if not quick and k % 10 == 0:
                    job["opcodes"] = True
                work.append(job)
            else:
                work.append(make_history(g, r))
        work += [make_long(g, r) for _ in range(3)]
        for env in ({"PYTHONHASHSEED": "1", "COLUMNS": "20", "LINES": "5"},
                    {"PYTHONHASHSEED": "7", "TZ": "Asia/Tokyo", "LC_ALL": "C", "PYTHONOPTIMIZE": "1"}):
            work.append(dict(what="apart", env=env, cwd="/",
                             calls=[(t, w, INFO) for t, w in pool + [g.case() for _ in range(100)]]))
        r.shuffle(work)
        work = [make_crowd(g, r) for _ in range(24 if quick else 80)] + work
        found = real.jobs("interleave:one", work, limit=90,
                          deadline=time.monotonic() + (8 if quick else 60))
        cases, kept = [], []
        for job, x in zip(work, found):
            if x == "hangs":
                result.violations.append(dict(kind=job["what"], wrong="no answer", calls=repr(job["calls"])[:3000],
                                              plan=job.get("plan")))
            elif x == "died":
                result.violations.append(dict(kind=job["what"], wrong="the process ended", calls=repr(job["calls"])[:3000],
                                              plan=job.get("plan")))
            elif isinstance(x, tuple):
                cases.append(encode(job, *x))
                kept.append((job, x))
        verdicts, stats = tlc.batches("History", cases, 25)
        result.count(stats)
        for (job, (recorded, known)), v in zip(kept, verdicts):
            kinds[job["what"]] += 1
            result.evaluations += 1
            result.judged += len(recorded)
            result.nontrivial.add(hash(repr(job["calls"])) ^ hash(repr(job.get("plan"))))
            if v["bad"]:
                result.violations.append(show(job, recorded, known, v["bad"]))
            elif len(result.samples) < 3 and job["what"] == "threads" and job["plan"]:
                result.samples.append(dict(calls=repr(job["calls"])[:500], plan=job["plan"],
                                           events=len(recorded)))
        if result.violations:
            break
    result.notes = dict(recorded=kinds, design="MC_Threads (and MC_ThreadsShared, which must fail)")
    return result
