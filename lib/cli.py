"""The process (C20 to C25).

Scenarios (a tree of files, arguments, permissions, limits) are run in a forked process,
as an unprivileged user, in a scratch directory.  Whenever it has changed anything there,
it is stopped until the state of all files was recorded.  These recordings, what was
printed, and the exit code are judged by the specification (Cli, CliTrace).
"""
import io
import itertools
import json
import os
import pickle
import random
import re
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

import docs
import gen
import real
import tlc

UID = GID = 65534
T0 = 1_500_000_000_000_000_000
LIMIT_S = 30


# --------------------------------------------------------------------- in the process
def behave(scenario, base, ask, told):
    """In the forked child: becomes markflow."""
    import logging
    import runpy

    if scenario["unprivileged"]:
        os.setgroups([])
        os.setgid(GID)
        os.setuid(UID)
    if scenario["limit"]:
        resource.setrlimit(resource.RLIMIT_FSIZE, (scenario["limit"], scenario["limit"]))
        if scenario["deadly"]:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    os.chdir(base)
    os.environ["COLUMNS"] = str(scenario["columns"])
    os.environ.pop("FORCE_COLOR", None)
    os.environ["HOME"] = base
    sys.stdin = open(0, encoding="utf-8", errors="surrogateescape", closefd=False)
    sys.stdout = open(1, "w", encoding="utf-8", errors="surrogateescape", closefd=False)
    sys.stderr = open(2, "w", encoding="utf-8", errors="backslashreplace", closefd=False)
    logging.disable(logging.NOTSET)
    logging.getLogger().handlers[:] = []
    logging.getLogger().setLevel(logging.WARNING)
    sys.argv = ["markflow", *scenario["argv"]]
    watched = os.path.join(real.REPO, "markflow") + os.sep
    known = scenario["known"]
    stat = os.stat

    def look():
        seen = []
        for path in known:
            try:
                s = stat(path)
                seen.append((s.st_ino, s.st_mtime_ns, s.st_size, s.st_mode))
            except OSError:
                seen.append(None)
        return seen

    state = dict(last=look(), steps=0)

    def local(frame, event, arg):
        state["steps"] += 1
        if state["steps"] == scenario["die"]:
            os.kill(os.getpid(), scenario.get("signal", signal.SIGKILL))
        # Long ones aren't looked at that often.
        if state["steps"] > 2000 and state["steps"] % 64:
            return local
        if look() != state["last"]:
            os.write(ask, b"s")
            n = int(os.read(told, 16))
            if n:
                known[:] = pickle.loads(os.read(told, n))
            state["last"] = look()
        return local

    def tracer(frame, event, arg):
        name = frame.f_code.co_filename
        if name.startswith(watched) and "/" not in name[len(watched) :]:
            return local(frame, event, arg)
        return None

    code = 0
    sys.settrace(tracer)
    try:
        runpy.run_module("markflow", run_name="__main__", alter_sys=True)
    except SystemExit as e:
        if e.code is None:
            code = 0
        elif isinstance(e.code, int):
            code = e.code & 0xFF
        else:
            print(e.code, file=sys.stderr)
            code = 1
    except BaseException:
        import traceback

        sys.settrace(None)
        traceback.print_exc()
        code = 1
    sys.settrace(None)
    try:
        sys.stdout.flush()
    except OSError:
        code = 120
    sys.stderr.flush()
    os._exit(code)


# ---------------------------------------------------------------------- around the process
class Tree:
    """The files in a scratch directory, and what has happened to them"""

    def __init__(self, base):
        self.base = base
        self.last = {}

    def all(self):
        found = {}
        for directory, names, files in os.walk(self.base):
            for name in names + files:
                path = os.path.join(directory, name)
                found[os.path.relpath(path, self.base)] = path
        found["."] = self.base
        return found

    def record(self):
        """(contents of all files, the paths that were touched)"""
        contents, touched, now = {}, [], {}
        found = self.all()
        for name, path in found.items():
            try:
                s = os.stat(path)
            except OSError:
                # A link to nothing
                continue
            if os.path.isfile(path):
                with open(path, "rb") as file:
                    contents[name] = file.read()
            sign = (s.st_ino, s.st_mtime_ns, s.st_size, s.st_mode)
            if self.last.get(name) != sign:
                touched.append(name)
                os.utime(path, ns=(T0, T0))
                s = os.stat(path)
                sign = (s.st_ino, s.st_mtime_ns, s.st_size, s.st_mode)
            now[name] = sign
        touched += [name for name in self.last if name not in now]
        self.last = now
        return contents, touched

    def modes(self):
        """What may be done with what, other than directories and what was made meanwhile"""
        return {name: sign[3] for name, sign in self.last.items()}


def build(base, entries, own):
    for name, (kind, data, mode) in entries.items():
        path = os.path.join(base, name)
        if kind == "dir":
            os.makedirs(path, exist_ok=True)
        elif kind == "file":
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "wb") as file:
                file.write(data)
        elif kind == "link":
            os.symlink(data, path)
    for name, (kind, data, mode) in entries.items():
        # Other names of files that are there
        path, there = os.path.join(base, name), os.path.join(base, str(data))
        if kind in ("soft", "hard"):
            os.makedirs(os.path.dirname(path), exist_ok=True)
        if kind == "soft":
            os.symlink(os.path.relpath(there, os.path.dirname(path)), path)
        elif kind == "hard":
            os.link(there, path)
    for name, (kind, data, mode) in entries.items():
        if kind in ("dir", "file"):
            os.chmod(os.path.join(base, name), mode)
    if own:
        for directory, names, files in os.walk(base):
            os.chown(directory, UID, GID)
            for name in files:
                os.lchown(os.path.join(directory, name), UID, GID)


def observe(scenario, base, tree):
    """Runs it. Returns the recordings and how it ended."""
    ask_out, ask_in = os.pipe()
    told_out, told_in = os.pipe()
    out_out, out_in = os.pipe()
    err_out, err_in = os.pipe()
    typing = None
    if scenario.get("terminal"):
        typing, source = os.openpty()
        os.write(typing, scenario["unread"].encode() + b"\x04")
    elif scenario["stdin"] is None:
        source = os.open(os.devnull, os.O_RDONLY)
    else:
        source, name = tempfile.mkstemp(dir=os.path.dirname(base))
        os.unlink(name)
        os.write(source, scenario["stdin"])
        os.lseek(source, 0, os.SEEK_SET)
    scenario = dict(scenario, known=[os.path.join(base, n) for n in tree.all()])
    child = os.fork()
    if child == 0:
        try:
            os.dup2(source, 0)
            os.dup2(out_in, 1)
            os.dup2(err_in, 2)
            for fd in (ask_out, told_in, out_out, err_out):
                os.close(fd)
            if typing is not None:
                os.close(typing)
            behave(scenario, base, ask_in, told_out)
        except BaseException:
            import traceback

            traceback.print_exc()
        finally:
            os._exit(99)
    for fd in (ask_in, told_out, out_in, err_in, source):
        os.close(fd)
    texts = {out_out: b"", err_out: b""}
    open_ = {out_out, err_out, ask_out}
    trace = []
    until = time.monotonic() + LIMIT_S
    killed = False
    while open_:
        ready, _, _ = select.select(list(open_), [], [], max(0, until - time.monotonic()))
        if not ready:
            os.kill(child, signal.SIGKILL)
            killed = True
            break
        for fd in ready:
            data = os.read(fd, 65536)
            if not data:
                open_.discard(fd)
            elif fd == ask_out:
                trace.append(tree.record())
                data = pickle.dumps([os.path.join(base, n) for n in tree.all()])
                os.write(told_in, b"%16d" % len(data))
                os.write(told_in, data)
            else:
                texts[fd] += data
    for fd in (ask_out, told_in, out_out, err_out):
        os.close(fd)
    if typing is not None:
        os.close(typing)
    _, status = os.waitpid(child, 0)
    code = os.waitstatus_to_exitcode(status)
    trace.append(tree.record())
    end = dict(
        out=texts[out_out].decode("utf-8", "surrogateescape"),
        err=texts[err_out].decode("utf-8", "backslashreplace"),
        code=code, hangs=killed,
    )
    return trace, end


def observe_plainly(scenario, base, tree):
    """The same with an ordinary process"""
    env = {**os.environ, "COLUMNS": str(scenario["columns"]), "PYTHONPATH": real.REPO, "PYTHONDONTWRITEBYTECODE": "1",
           "PYTHONUTF8": "1"}
    try:
        done = subprocess.run(
            [sys.executable, "-m", "markflow", *scenario["argv"]],
            input=scenario["stdin"] if scenario["stdin"] is not None else b"",
            capture_output=True, cwd=base, env=env, timeout=LIMIT_S,
        )
    except subprocess.TimeoutExpired:
        return [tree.record()], dict(out="", err="", code=0, hangs=True)
    return [tree.record()], dict(
        out=done.stdout.decode("utf-8", "surrogateescape"), err=done.stderr.decode("utf-8", "backslashreplace"),
        code=done.returncode, hangs=False,
    )


def forked(function, *args):
    """The result of a function in a fork"""
    out, into = os.pipe()
    child = os.fork()
    if child == 0:
        try:
            os.close(out)
            data = pickle.dumps(function(*args))
            with os.fdopen(into, "wb") as file:
                file.write(data)
        except BaseException:
            import traceback

            traceback.print_exc()
            os._exit(77)
        os._exit(0)
    os.close(into)
    with os.fdopen(out, "rb") as file:
        data = file.read()
    _, status = os.waitpid(child, 0)
    if status:
        raise tlc.MachineryError("a fork failed")
    return pickle.loads(data)


def classify(cases):
    """(contents, line length) -> (outcome, contents or reason), and of what comes of them"""
    function, ex = real.load()
    known = {}

    def one(data, width, deep):
        if (data, width) in known:
            return
        try:
            text = data.decode("utf-8")
        except UnicodeDecodeError:
            known[data, width] = ("unreadable", "")
            return
        try:
            signal.alarm(20)
            result = function(text, width)
            known[data, width] = ("ok", result.encode())
            if deep:
                one(result.encode(), width, deep - 1)
        except ex.ReformatInconsistentException as e:
            known[data, width] = ("inconsistent", str(e))
        except ex.MarkdownFormatException as e:
            known[data, width] = ("malformed", str(e))
        except Exception as e:
            known[data, width] = ("unreadable", "")
        finally:
            signal.alarm(0)

    for data, width in cases:
        one(data, width, 2)
    return known


def privileges():
    """Whether we can do without"""

    def drop():
        try:
            os.setgroups([])
            os.setgid(GID)
            os.setuid(UID)
            return not os.access("/root", os.R_OK) or True
        except OSError:
            return False

    return forked(drop)


def one(job):
    """Runs some scenarios: [(scenario, recordings, end, classification)]"""
    real.load()
    import runpy  # noqa: F401
    import rich.console, rich.logging, rich.markdown, rich.text  # noqa: F401,E401
    import markflow._argparse  # noqa: F401

    drop = privileges()
    results = []
    known = forked(classify, [(d, s["width"]) for s in job for d in s["contents"]])
    home = tempfile.mkdtemp(prefix="mf-cli-", dir=os.environ.get("VERIF_SCRATCH") or None)
    os.chmod(home, 0o755)
    try:
        for number, s in enumerate(job):
            base = os.path.join(home, str(number))
            os.mkdir(base)
            s["unprivileged"] = drop and not s.get("plain")
            build(base, s["entries"], s["unprivileged"])
            os.chmod(base, 0o755)
            s["argv"] = [a.replace("@BASE@", base) for a in s["argv"]]
            tree = Tree(base)
            tree.record()
            runs = []
            for turn in range(s.get("turns", 1)):
                before = tree.record()
                modes = tree.modes()
                trace, end = (observe_plainly if s.get("plain") else observe)(s, base, tree)
                end["modes"] = all(m == modes[n] for n, m in tree.modes().items() if n in modes)
                runs.append((before, trace, end, base))
            results.append((s, runs, {k: v for k, v in known.items() if k[1] == s["width"]}))
            for directory, names, files in os.walk(base):
                os.chmod(directory, 0o755)
    finally:
        shutil.rmtree(home, ignore_errors=True)
    return results


# ---------------------------------------------------------------------- the specification
def renders_of(path):
    if path.endswith(".md"):
        return path[:-3] + ".1.md", path[:-3] + ".2.md"
    return path + ".1", path + ".2"


def printed(data):
    """Renders (of which blank lines and the end are up to them) on standard output"""
    return b"printed:" + re.sub(rb"\s*\n\s*", b"\n", data).strip()


def squeezed(text):
    return re.sub(r"\s+", "", text)


def encode(s, run, known, passes):
    """A run for the specification: paths and contents become numbers."""
    (before, _), trace, end, base = run
    paths = {}

    def path(name):
        name = os.path.normpath(name)
        if name not in paths:
            paths[name] = len(paths) + 1
            if name != "." and not name.startswith(".."):
                path(os.path.dirname(name) or ".")
        return paths[name]

    path(".")
    for name in s["entries"]:
        path(name)
    for name in s["args"]:
        path(name)
    for name in s["outs"]:
        path(name)
    # Outputs that could be
    if s["mode"] == "dir":
        for name, (kind, _, _) in list(s["entries"].items()):
            if kind in ("file", "soft", "hard"):
                path(os.path.join(s["outs"][0], os.path.basename(name)))
    for name in list(paths):
        if s["renders"]:
            for r in renders_of(name):
                path(r)
    killed = bool((end["code"] < 0 or (s["die"] and end["code"] != 0)) and s["deadly"])
    if s["args"] and not s["check"]:
        # How a file is written is up to the implementation: others may be of help
        # meanwhile, if they're gone at the end.
        helpers = {n for c, t in trace for n in [*c, *t] if n not in before and os.path.normpath(n) not in paths}
        if not killed:
            helpers -= set(trace[-1][0])
        trace = [
            ({n: data for n, data in c.items() if n not in helpers}, [n for n in t if n not in helpers])
            for c, t in trace
        ]
    for contents, touched in [(before, [])] + trace:
        for name in list(contents) + touched:
            path(name)
    names = list(paths)
    ids = {}

    def content(data):
        return ids.setdefault(data, len(ids) + 1)

    rendered = {r for n in names for r in renders_of(n)} if s["renders"] else set()

    def of_file(name, data):
        # How renders end is up to them.
        return content(data.rstrip() + b"\n" if name in rendered else data)

    def table(contents):
        return [of_file(n, contents[n]) if n in contents else 0 for n in names]

    start = table(before)
    states = [dict(fs=table(c), touched=[
        paths[os.path.normpath(n)] for n in t
        if n in c or n in before or (s["check"] and not s["renders"])
    ]) for c, t in trace]
    if not (s["check"] and not s["renders"]):
        directories = {paths[n] for n, (kind, _, _) in s["entries"].items() if kind == "dir"} | {1}
        for state in states:
            state["touched"] = [t for t in state["touched"] if t not in directories]
    source = content(s["stdin"]) if s["stdin"] is not None else 0
    width = s["width"]
    fmt = []
    reasons = []
    k = 0
    while k < len(ids):
        data = list(ids)[k]
        k += 1
        outcome, result = known.get((data, width), ("unknown", ""))
        entry = dict(o=outcome, r=0, r1=0, r2=0, rr=0)
        if outcome == "ok":
            entry["r"] = content(result)
        elif outcome == "inconsistent":
            if (data, width) in passes:
                a, b = passes[data, width]
                entry["r1"] = content(a.rstrip() + b"\n")
                entry["r2"] = content(b.rstrip() + b"\n")
                if s["renders"] and not s["args"]:
                    entry["rr"] = content(printed(a + b"\n" + b))
        fmt.append(entry)
        reasons.append(result if outcome in ("malformed", "inconsistent") else None)
    out_id = 0
    if s.get("unread") and squeezed(s["unread"]) in squeezed(end["out"]):
        out_id = -1
    stdout = end["out"].encode("utf-8", "surrogateescape")
    filtering = not s["args"] and not s.get("info") and not s.get("terminal")
    if filtering and stdout and not s["check"]:
        out_id = ids.get(stdout, -1)
    contents = list(ids)
    pre = [
        [j for j, whole in enumerate(contents, 1) if len(part) < len(whole) and whole.startswith(part)]
        for part in contents
    ]
    limit = s["limit"]
    entries = s["entries"]

    def entry(name, k, default):
        return entries[name][k] if name in entries else default

    def is_really(name):
        return os.path.normpath(entries[name][1]) if entry(name, 0, "") in ("soft", "hard") else name

    kinds, canread, canwrite = [], [], []
    for n in names:
        kind = "dir" if n == "." else entry(n, 0, "none")
        if kind == "link":
            kind = "none"
        if kind in ("soft", "hard"):
            kind = "file"
        if kind == "none" and n in before:
            kind = "file"
        kinds.append(kind)
        mode = 0o755 if n == "." else entry(is_really(n), 2, 0o755)
        canread.append(bool(mode & 0o400) or not s["unprivileged"])
        canwrite.append(bool(mode & 0o200) or not s["unprivileged"])
    # Where something is in a directory we can't write to, only existing files are written.
    base_names = [os.path.basename(n) for n in names]
    scenario = dict(
        kind=kinds,
        parent=[0 if n == "." or n.startswith("..") else paths[os.path.dirname(n) or "."] for n in names],
        hidden=[b.startswith(".") and n != "." for n, b in zip(names, base_names)],
        md=[b.endswith(".md") for b in base_names],
        canread=canread, canwrite=canwrite, fs=start, real=[paths[is_really(n)] for n in names],
        args=[paths[os.path.normpath(a)] for a in s["args"]],
        mode=s["mode"], outs=[paths[os.path.normpath(o)] for o in s["outs"]],
        named=[
            paths.get(os.path.normpath(os.path.join(s["outs"][0], b)), 0) if s["mode"] == "dir" else 0
            for b in base_names
        ],
        rend=[[paths[r] for r in renders_of(n) if r in paths] if s["renders"] else [] for n in names],
        check=s["check"], renders=s["renders"], invalid=s["invalid"], info=bool(s.get("info")),
        fmt=fmt, pre=pre,
        large=[k for k, data in enumerate(contents, 1) if limit and len(data) > limit],
        stdin=source,
    )
    for k, n in enumerate(names):
        if len(scenario["rend"][k]) != 2:
            scenario["rend"][k] = []
    # What was printed
    lines = end["out"].split("\n")
    said = []
    for line in lines:
        match = re.match(r"(?:would reformat|reformatted) (.*)$", line)
        if match:
            name = os.path.normpath(os.path.join(base, match.group(1).rstrip()))
            said.append(paths.get(os.path.relpath(name, base), -1))
    # (In a narrow terminal even words are wrapped.)
    flat = squeezed(end["out"])

    def number(pattern):
        found = re.search(r"(\d+)files?" + pattern.replace(" ", ""), flat)
        return int(found.group(1)) if found else 0

    everything = squeezed(end["out"] + end["err"])
    blamed = [i for n, i in paths.items() if squeezed(n) in everything]
    # The file at hand is refused for its own reason.
    reason = any(r and squeezed(r)[:60] in everything for r in reasons)
    quiet = s.get("quiet")
    obs = dict(
        killed=killed, code=end["code"],
        modes=end["modes"], told=s.get("told", 0), names=said,
        changed=number("(?:would be|was|were) reformatted"), same=number("(?:would be|was|were) left unchanged"),
        out=out_id, would="wouldbereformatted" in flat,
        reported=bool(end["out"].strip() or end["err"].strip()),
        blamed=list(range(1, len(names) + 1)) if quiet else blamed, reason=bool(reason or quiet),
    )
    if filtering and end["code"] != 0 and not (s["check"] and "STDINwouldbe" in flat):
        obs["out"] = ids.get(printed(stdout), -1) if stdout.strip() else 0
    return dict(sc=scenario, trace=states, obs=obs)


def judge(cases):
    """Which of the cases are accepted"""
    directory = tlc.scratch("cli-")
    try:
        with open(f"{directory}/cases.json", "w") as file:
            json.dump(cases, file)
        code, output = tlc.run_tlc("CliTrace", env={"ORACLE_DIR": directory}, heap="6g")
        tlc.must("CliTrace", code, output)
        accepted = [os.path.exists(f"{directory}/{k}.ok") for k in range(1, len(cases) + 1)]
        return accepted, tlc.stats(output)
    finally:
        shutil.rmtree(directory, ignore_errors=True)


# ------------------------------------------------------------------------------- scenarios
NAMES = [
    "a.md", "b.md", "c.md", "README.md", "x y.md", "[x].md", "star*.md", "what?.md", "\u00e9.md",
    "__init__.md", "*.md", "{a,b}.md", "~.md", "$HOME.md", "#1.md", "%s.md", "a\\b.md", "'q'.md",
    "1. a.md", "a.b.md", ":smile:.md", "[red]x[/].md", "a.md.md", "-.md", "%20.md", "!a.md", "\u2028.md",
]
OTHERS = ["notes.txt", "a.markdown", "UPPER.MD", "noext", "x.md.bak", "md", "amd", ".md.txt", "b.mdx"]
HIDDEN = [".hidden.md", ".md", ".git/x.md", ".a/b/c.md"]
DIRECTORIES = ["d", "docs", "d/e", "d/e/f", "[d]", "d*", "x y", "d/.h", "z.md", "d/sub.md", "__pycache__", "d/e/f/g/h/i/j", "a/b/c/d/e/f/g/h/i/j/k/l"]


class Writer:
    def __init__(self, r, hints, inconsistent):
        self.r = r
        self.g = gen.Gen(r, *hints)
        self.inconsistent = inconsistent

    def text(self):
        for _ in range(20):
            text, _ = self.g.case(None)
            if len(text) <= 400:
                return text
        return "a\n"

    def document(self, refused=True, big=True):
        r = self.r
        x = r.random()
        if x < 0.28:
            text = "\n".join(self.g.plain(1, 4) for _ in range(r.randint(1, 3))) + "\n"
        elif x < 0.36:
            text = r.choice(["", "\n", "a", "a\n", "a\n\n", "# a\n", " a\n", "\n\n", "a  \nb\n", "a\n\nb\n"])
        elif x < 0.44:
            text = r.choice(["a\r\nb\r\n", "a\rb\r", "a\nb\r\n", "# x\r\n", "a\u2028b\n", "\ufeffa\n", "a\x0cb\n"])
        elif x < 0.52 and big:
            text = r.choice(["word word\n" * 900, "x " * 3000 + "\n", "some more words\n\n" * 500, "# a\n\n" * 200 + "b  c " * 2000 + "\n"])
        elif x < 0.525 and big:
            n = r.randint(9000, 40000)
            text = r.choice(["~~~\n" + "x y z \n" * n + "~~~\n", "```\n" + "x y z\n" * n + "```\n", "|a|\n|-|\n" + "|bcd|\n" * n])
        elif x < 0.60 and refused:
            text = r.choice(["|a|\n|b|\n", "|a|b|\n|-|-|\n|c|\n", "ok\n\n|a|\n|-|-|\n"])
        elif x < 0.66 and refused and self.inconsistent:
            return r.choice(self.inconsistent).encode()
        elif x < 0.70 and refused:
            return r.choice([b"\xff\xfe", b"a\n\xe9\n", b"ok\n" * 3000 + b"\x80"])
        else:
            text = self.text()
        return text.encode("utf-8", "surrogateescape")


def width_args(r):
    w = r.choice([None, None, 88, 20, 10, 5, 1, 0, -1, 40, 60, 120, r.randint(1, 100)])
    if w is None:
        return [], 88
    return r.choice([["--line-length", str(w)], [f"--line-length={w}"]]), (w if w > 0 else float("inf"))


def blank(r, width=None):
    args, w = width_args(r)
    if width is not None:
        w = width
        args = ["--line-length", str(0 if w == float("inf") else w)]
    options = list(args)
    quiet, columns = False, 2000
    if r.random() < 0.25:
        loud = r.choice([["-v"], ["-vv"], ["--verbose"], ["-v", "-q"], ["-vv", "-q"], ["-vvv"], ["-vvvv"],
                         ["-v", "--verbose", "-vvv"], ["-q"], ["-qq"], ["-qqq"], ["--quiet", "-qqqq"], ["-vqqq"]])
        options += loud
        quiet = "q" in "".join(loud)
    if r.random() < 0.15:
        columns, quiet = r.choice([10, 20, 40, 79]), True
    return dict(entries={}, options=options, quiet=quiet, columns=columns, width=w, args=[], tokens=[], mode="inplace", outs=[], out_args=[],
                check=False, renders=False, invalid=False, limit=0, die=0, deadly=False, stdin=None)


def finish(s, r):
    """Puts the arguments together"""
    options = list(s["options"])
    if sum(len(d) for k, d, m in s["entries"].values() if k == "file") + len(s["stdin"] or b"") > 3000:
        # It takes far too long to print all that.
        options = [o for o in options if o not in ("-v", "--verbose") and not o.startswith("-vv")]
    if s["check"]:
        options.append("--check")
    if s["renders"]:
        options.append("--write-renders")
    tokens = list(s["tokens"])
    if any(t.startswith("-") for t in tokens) or r.random() < 0.1:
        s["argv"] = options + s["out_args"] + ["--"] + tokens
    elif r.random() < 0.5:
        s["argv"] = options + s["out_args"] + tokens
    else:
        s["argv"] = tokens + s["out_args"] + options
    if s["stdin"] is None and tokens and r.random() < 0.6:
        s["unread"] = "this  is\nfor nobody\n\n\n"
        s["stdin"] = s["unread"].encode()
    s["contents"] = [d for k, d, m in s["entries"].values() if k == "file"]
    if s["stdin"] is not None:
        s["contents"].append(s["stdin"])
    return s


def token(r, name):
    """A way to refer to a path"""
    x = r.random()
    if x < 0.7:
        return name
    if x < 0.8:
        return "./" + name
    if x < 0.9:
        return "@BASE@/" + name
    return name.rsplit("/", 1)[0] + "/../" + name if "/" in name and name.count("/") == 1 else name


def files(s, r, n, writer, pool=None, **kw):
    names = r.sample(pool or NAMES + OTHERS, n)
    for name in names:
        if r.random() < 0.25:
            name = r.choice(["d", "x y", "d/e"]) + "/" + name
        s["entries"][name] = ("file", writer.document(**kw), r.choice([0o644, 0o644, 0o600, 0o664]))
    return [n for n, e in s["entries"].items() if e[0] == "file"]


def with_dirs(s):
    """All directories that are needed"""
    for name in list(s["entries"]):
        parts = name.split("/")[:-1]
        for k in range(1, len(parts) + 1):
            s["entries"].setdefault("/".join(parts[:k]), ("dir", None, 0o755))
    s["entries"] = dict(sorted(s["entries"].items(), key=lambda e: (e[0].count("/"), e[0])))
    return s


def bystanders(s, r, writer):
    for name in r.sample(NAMES + OTHERS + HIDDEN, r.randint(0, 3)):
        s["entries"].setdefault(name, ("file", writer.document(), 0o644))


def linked(s, r, args=None):
    """Another name for a file that's there, which may be named as well"""
    there = [n for n, e in s["entries"].items() if e[0] == "file"]
    if not there:
        return
    for _ in range(r.choice([1, 1, 2])):
        name = r.choice(NAMES + OTHERS[:4])
        if r.random() < 0.4:
            name = r.choice(["d", "docs", "d/e"]) + "/" + name
        if name in s["entries"]:
            continue
        s["entries"][name] = (r.choice(["soft", "soft", "hard"]), r.choice(there), 0o777)
        if args is not None:
            x = r.random()
            if x < 0.6:
                args.insert(r.randint(0, len(args)), name)
            elif x < 0.8 and "/" in name:
                args.append(name.split("/")[0])


def name_args(s, r, names):
    for n in names:
        s["args"].append(n)
        s["tokens"].append(token(r, n))


def outputs(s, r, names, free=True):
    """Somewhere else to write to"""
    if r.random() < 0.5:
        s["mode"] = "dir"
        s["outs"] = [r.choice(["out", "out dir", "d/out", "out", "out dir", "d/out", ".", "d"])]
        if s["outs"] != ["."]:
            s["entries"][s["outs"][0]] = ("dir", None, 0o755)
        s["out_args"] = r.choice([["--output-dir", s["outs"][0]], ["--output-directory", "./" + s["outs"][0]]])
        for n in names:
            if r.random() < 0.3:
                there = os.path.normpath(s["outs"][0] + "/" + os.path.basename(n))
                s["entries"].setdefault(there, ("file", r.choice([b"old\n", b"", b"old  old\n" * 50]), 0o644))
    else:
        s["mode"] = "files"
        pool = ["o1.md", "o2", "o3.txt", "out/o4.md", "out/o5.x.md", "o 6.md", "o7.md.txt"]
        s["entries"]["out"] = ("dir", None, 0o755)
        s["outs"] = r.sample(pool, min(len(names), len(pool)))
        for o in s["outs"]:
            if r.random() < 0.3:
                s["entries"].setdefault(o, ("file", b"old\n", 0o644))
        s["out_args"] = [x for o in s["outs"] for x in ("--output-file", o)]


def some_inputs(s, r, writer, **kw):
    """Files, some of them in directories that are named instead"""
    many = r.random() < 0.03
    if many:
        # Enough for their number to have two digits
        kw["refused"] = False
    names = files(s, r, r.choice([10, 10, 11]) if many else r.randint(1, 4), writer, **kw)
    chosen = r.sample(names, len(names))
    tops = sorted({n.split("/")[0] for n in names if "/" in n})
    args = []
    for n in chosen:
        if "/" in n and r.random() < 0.5:
            args.append(r.choice(tops))
        else:
            args.append(n)
    if r.random() < 0.15:
        args.append(r.choice(args))
    return args


# Each of these makes a scenario for a property.
def c20(r, w):
    s = blank(r)
    s["check"] = True
    args = some_inputs(s, r, w, refused=r.random() < 0.4)
    bystanders(s, r, w)
    if r.random() < 0.15:
        linked(s, r, args)
    name_args(s, r, args)
    if r.random() < 0.3 and all(n in s["entries"] and s["entries"][n][0] == "file" for n in args):
        outputs(s, r, args)
    if r.random() < 0.3:
        s["renders"] = True
    return s


def c21(r, w):
    s = blank(r)
    args = some_inputs(s, r, w, refused=False)
    bystanders(s, r, w)
    if r.random() < 0.15:
        linked(s, r, args)
    name_args(s, r, args)
    s["turns"] = 2
    return s


def c22(r, w):
    s = blank(r)
    x = r.random()
    args = some_inputs(s, r, w, refused=x < 0.6)
    bystanders(s, r, w)
    if r.random() < 0.15:
        linked(s, r, args)
    name_args(s, r, args)
    named = [n for n, e in s["entries"].items() if e[0] == "file"]
    if x < 0.5:
        pass
    elif x < 0.7:
        s["limit"] = r.choice([1, 5, 20, 100, 4096, 5000, 8192, 10000])
        s["deadly"] = r.random() < 0.5
    elif x < 0.85:
        # Output files that can't be written although they're in a directory that can be
        s["mode"] = "dir"
        s["outs"] = ["out"]
        s["entries"]["out"] = ("dir", None, 0o755)
        s["out_args"] = ["--output-dir", "out"]
        s["entries"]["out/" + os.path.basename(r.choice(named))] = ("file", b"old\n", 0o444)
    else:
        s["die"] = r.randint(100, 900)
        s["deadly"] = True
        s["signal"] = r.choice([signal.SIGKILL, signal.SIGINT, signal.SIGTERM])
    if r.random() < 0.15:
        n = r.choice(named)
        if n not in s["args"]:
            s["entries"][n] = s["entries"][n][:2] + (0o200,)
    return s


def c23(r, w):
    s = blank(r)
    names = files(s, r, r.randint(1, 4), w, refused=r.random() < 0.35)
    args = r.sample(names, r.randint(1, len(names)))
    bystanders(s, r, w)
    tops = sorted({n.split("/")[0] for n in names if "/" in n})
    outputs(s, r, args)
    if s["mode"] == "dir" and tops and r.random() < 0.4:
        args.append(r.choice(tops))
    if r.random() < 0.12 and s["mode"] == "files":
        # As many outputs as inputs are needed.
        if r.random() < 0.5:
            s["outs"] = s["outs"][:-1]
        else:
            s["outs"].append("o9.md")
        s["out_args"] = [x for o in s["outs"] for x in ("--output-file", o)]
        if not s["outs"]:
            s["mode"] = "inplace"
    if r.random() < 0.2 and s["mode"] != "inplace":
        # Outputs that are other names of something
        there = [n for n, e in s["entries"].items() if e[0] == "file"]
        for o in s["outs"] if s["mode"] == "files" else [
            os.path.normpath(s["outs"][0] + "/" + os.path.basename(n)) for n in args
        ]:
            if o not in s["entries"] and not any(n.startswith(o + "/") for n in s["entries"]) and r.random() < 0.6:
                s["entries"][o] = (r.choice(["soft", "hard"]), r.choice(there), 0o777)
    if r.random() < 0.1 and s["mode"] == "dir":
        linked(s, r, args)
    name_args(s, r, args)
    if r.random() < 0.4:
        s["renders"] = True
    if r.random() < 0.1:
        s["check"] = True
    return s


def c24(r, w):
    s = blank(r)
    s["stdin"] = w.document(refused=r.random() < 0.4)
    while b"\xff" in s["stdin"] or b"\x80" in s["stdin"] or b"\xe9" in s["stdin"]:
        s["stdin"] = w.document(refused=False)
    bystanders(s, r, w)
    files(s, r, r.randint(0, 2), w)
    s["check"] = r.random() < 0.4
    s["renders"] = r.random() < 0.3
    if s["renders"] and r.random() < 0.5 and w.inconsistent:
        s["stdin"] = r.choice(w.inconsistent).encode()
    if r.random() < 0.08:
        s["stdin"] = None
        s["terminal"] = True
        s["unread"] = "this  is\nfor nobody\n\n\n"
    if r.random() < 0.1:
        s["mode"] = "dir"
        s["outs"] = ["out"]
        s["entries"]["out"] = ("dir", None, 0o755)
        s["out_args"] = ["--output-dir", "out"]
    return s


def c25(r, w):
    s = blank(r)
    s["check"] = r.random() < 0.3
    if r.random() < 0.6:
        pool = NAMES + OTHERS + HIDDEN
        for _ in range(r.randint(1, 7)):
            name = r.choice(pool)
            if r.random() < 0.7:
                name = r.choice(DIRECTORIES) + "/" + name
            s["entries"][name] = ("file", r.choice([b"a\n", b"a  b\n", b" x\n", b"# a\n\n\n", w.document(False, False)]), 0o644)
        if r.random() < 0.3:
            s["entries"][r.choice(["empty", "d/empty", "dir.md", "d/dir.md"])] = ("dir", None, 0o755)
        if r.random() < 0.25:
            s["entries"][r.choice(["dangling.md", "d/dangling.md", "docs/x.md"])] = ("link", "nowhere", 0o777)
        if r.random() < 0.3:
            linked(s, r)
        with_dirs(s)
        if r.random() < 0.2:
            n = r.choice([n for n, e in s["entries"].items() if e[0] == "dir"] or ["locked"])
            s["entries"][n] = ("dir", None, 0o300)
        candidates = list(s["entries"])
        args = [r.choice(candidates + [".", "."]) for _ in range(r.randint(1, 3))]
        name_args(s, r, args)
        return s
    # Arguments that are wrong
    args = some_inputs(s, r, w, refused=False, big=False)
    bystanders(s, r, w)
    kind = r.randrange(12)
    if kind == 11:
        name_args(s, r, args)
        s["info"] = True
        option, s["told"] = r.choice([("--help", 0), ("-h", 0), ("--version", 0), ("--dev-help", 255), ("--developer-help", 255)])
        if r.random() < 0.3:
            s["args"], s["tokens"] = [], []
        s["options"].append(option)
        return s
    if kind == 0:
        args.insert(r.randint(0, len(args)), r.choice(["missing.md", "missing", "d/missing.md", "[d]/x.md"]))
        args = [a for a in args]
    elif kind == 1:
        s["options"] += r.choice([["--no-such-option"], ["--line-length", "x"], ["--line-length"], ["--checks"], ["-x"],
                                  ["--line-length", "1.5"], ["--line-length", ""]])
        s["invalid"] = True
    elif kind == 2:
        s["out_args"] = ["--output-dir", "out", "--output-file", "o.md"]
        s["entries"]["out"] = ("dir", None, 0o755)
        s["invalid"] = True
    elif kind == 3:
        args = [a for a in args if s["entries"].get(a, "")[:1] == ("file",)] or [a for a, e in s["entries"].items() if e[0] == "file"][:1]
        s["mode"] = "files"
        s["outs"] = [f"o{k}.md" for k in range(r.choice([1, 2, 3, 4, 5]))]
        s["out_args"] = [x for o in s["outs"] for x in ("--output-file", o)]
    elif kind == 4:
        s["mode"] = "dir"
        s["outs"] = [r.choice(["nowhere", "file.txt", "locked"])]
        s["entries"]["file.txt"] = ("file", b"x\n", 0o644)
        s["entries"]["locked"] = ("dir", None, 0o555)
        s["out_args"] = ["--output-dir", s["outs"][0]]
    elif kind in (5, 6):
        # All outputs are looked at before anything is written.
        args = [a for a, e in s["entries"].items() if e[0] == "file"][:3]
        s["mode"] = "files"
        s["entries"]["adir"] = ("dir", None, 0o755)
        s["entries"]["locked"] = ("dir", None, 0o555)
        s["entries"]["ro.md"] = ("file", b"old\n", 0o444)
        s["entries"]["file.txt"] = ("file", b"x\n", 0o644)
        s["outs"] = [f"o{k}.md" for k in range(len(args) - 1)] + [
            r.choice(["adir", "nowhere/o.md", "locked/o.md", "ro.md", "file.txt/o.md"])
        ]
        if r.random() < 0.3:
            s["outs"] = s["outs"][::-1]
        s["out_args"] = [x for o in s["outs"] for x in ("--output-file", o)]
    elif kind in (7, 8, 9):
        victims = [n for n, e in s["entries"].items() if e[0] == "file"]
        n = r.choice(victims)
        s["entries"][n] = s["entries"][n][:2] + (r.choice([0o444, 0o444, 0o200, 0o000]),)
    else:
        s["options"] += ["--output-file"]
        s["invalid"] = True
        name_args(s, r, args)
        s = finish(with_dirs(s), r)
        s["argv"] = [a for a in s["argv"] if a not in ("--", "--output-file")] + ["--output-file"]
        return s
    name_args(s, r, args)
    return s


MAKERS = {"C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24, "C25": c25}


def make(pid, r, writer, inconsistent):
    s = MAKERS[pid](r, writer)
    if "argv" not in s:
        s = finish(with_dirs(s), r)
    return s


# All combinations of a few kinds of files, as in MC_Cli
def systematic(pid, r, widths):
    same, change, table = b"a\n", b"a  b\n", b"|a|\n|b|\n"
    for (text, width), (c1, c2) in itertools.product(widths, itertools.product(range(6), repeat=2)):
        contents = [same, change, table, text, b"\xff", b""]
        for order in (["a.md", "b.md"], ["b.md", "a.md"], ["d"], ["a.md", "a.md"]):
            s = blank(r, width)
            at = "d/" if order == ["d"] else ""
            s["entries"] = {at + "a.md": ("file", contents[c1], 0o644), at + "b.md": ("file", contents[c2], 0o644)}
            if pid == "C20":
                s["check"] = True
                s["renders"] = c1 == 3 or c2 == 3
            elif pid == "C21":
                if {c1, c2} & {2, 3, 4}:
                    continue
                s["turns"] = 2
            elif pid == "C22":
                if not {c1, c2} & {2, 3, 4}:
                    continue
            elif pid == "C23":
                if order == ["a.md", "a.md"]:
                    continue
                if order == ["d"] or r.random() < 0.5:
                    s["mode"], s["outs"], s["out_args"] = "dir", ["out"], ["--output-dir", "out"]
                    s["entries"]["out"] = ("dir", None, 0o755)
                else:
                    s["mode"], s["outs"] = "files", r.sample(["o1.md", "o2", "o3.txt", "o4.x.md"], 2)
                    s["out_args"] = [x for o in s["outs"] for x in ("--output-file", o)]
                s["renders"] = r.random() < 0.5
            s["args"] = list(order)
            s["tokens"] = list(order)
            yield finish(with_dirs(s), r)


def passes_of(pairs):
    found, stats = tlc.batches("Passes", [{"t": tlc.codes(t), "w": tlc.width(w)} for t, w in pairs], 50)
    return {
        (t.encode(), w): (tlc.text(f["p1"]).encode(), tlc.text(f["p2"]).encode())
        for (t, w), f in zip(pairs, found) if f["o"] == "inconsistent"
    }, stats


LONG = (
    "some words that are long enough to be wrapped at all kinds of line lengths, even at eighty-eight or more, "
    "as it goes on for quite a while"
)
REFUSED = ["a\n* ", "* a\n  * b\n* ", "> a\n> * ", "x\n1. ", "# h\n\na\n* ", f"{LONG}\n* ", f"- a\n\n{LONG}\n+ ", f"> {LONG}\n> * "]


def check(pid, seed, tier):
    os.environ["PYTHONUTF8"] = "1"
    result = docs.Result()
    quick = tier == "quick"
    code, output = tlc.run_tlc("MC_Cli", "MC_CliFew" if quick else "MC_Cli", heap="6g", timeout=3000)
    tlc.must("MC_Cli", code, output)
    result.count(tlc.stats(output))
    hints = gen.harvest(os.path.join(real.REPO, "markflow"))
    passes = {}
    widths = [88, 20, 10, 5, 1, 40, 60, 120, float("inf")]
    if pid in ("C20", "C22", "C23", "C24"):
        passes, stats = passes_of([(t, w) for t in REFUSED for w in widths])
        result.count(stats)
    # Only those that the implementation refuses as well are of use.
    known = {}
    if passes:
        known = real.jobs("cli:classify", [list(passes)], limit=60)[0]
    refused = {k for k in passes if isinstance(known, dict) and known.get(k, ("",))[0] == "inconsistent"}
    rounds = 0
    start = time.monotonic()
    kinds = {}
    while rounds == 0 or time.monotonic() - start < (8 if quick else 420):
        rounds += 1
        r = random.Random(f"{seed}-{pid}-{rounds}")
        everywhere = [t for t in REFUSED if all((t.encode(), w) in refused for w in widths)]
        writer = Writer(r, hints, everywhere)
        scenarios = []
        if rounds == 1 and pid not in ("C24", "C25"):
            pairs = sorted(refused, key=repr)
            some = [r.choice([k for k in pairs if k[1] == w and len(k[0]) > 88] or [(b"a\n* ", w)]) for w in [r.choice([20, 40, 88, 120])]]
            scenarios += list(systematic(pid, r, some))
        for _ in range(500 if quick else 1500):
            s = make(pid, r, writer, everywhere)
            if s["renders"] and not all(
                (d, s["width"]) in passes or d.decode("utf-8", "replace") not in REFUSED for d in s["contents"]
            ):
                s["renders"] = False
                s["argv"] = [a for a in s["argv"] if a != "--write-renders"]
            if s["renders"]:
                # Whatever else is inconsistent would need its renders as well.
                s["needs"] = True
            scenarios.append(s)
        for s in r.sample(scenarios, 8 if quick else 40):
            locked = any(e[2] & 0o600 != 0o600 for e in s["entries"].values())
            if not (s["limit"] or s["die"] or s.get("terminal") or locked):
                s["plain"] = True
        r.shuffle(scenarios)
        parts = [scenarios[i : i + 12] for i in range(0, len(scenarios), 12)]
        found = real.jobs("cli:one", parts, limit=200, deadline=time.monotonic() + (10 if quick else 120))
        cases, kept = [], []
        for part in found:
            if part is None:
                continue
            if isinstance(part, str):
                raise tlc.MachineryError(f"scenarios {part}")
            for s, runs, classes in part:
                if s.get("needs") and any(
                    o == "inconsistent" and k not in passes for k, (o, _) in classes.items() if k[0] in s["contents"]
                ):
                    continue
                for run in runs:
                    if run[2]["hangs"]:
                        result.violations.append(dict(argv=s["argv"], wrong="it doesn't end"))
                        continue
                    cases.append(encode(s, run, classes, passes))
                    kept.append((s, run))
        accepted, stats = judge(cases)
        result.count(stats)
        for (s, run), case, fine in zip(kept, cases, accepted):
            result.evaluations += 1
            result.judged += len(run[1])
            result.nontrivial.add(hash(repr(s["argv"]) + repr(s["entries"])))
            key = ("refused" if run[2]["code"] not in (0, 1) or "Traceback" in run[2]["err"] else str(run[2]["code"]))
            kinds[key] = kinds.get(key, 0) + 1
            if not fine:
                result.violations.append(
                    dict(argv=s["argv"], files={n: repr(e)[:200] for n, e in s["entries"].items()},
                         width=repr(s["width"]), stdin=repr(s["stdin"])[:300], code=run[2]["code"],
                         out=" ".join(run[2]["out"].split())[:400], err=run[2]["err"][-600:],
                         plain=bool(s.get("plain")), limit=s["limit"], die=s["die"],
                         states=[({n: repr(d)[:80] for n, d in c.items()}, t) for c, t in run[1]][:6])
                )
            elif len(result.samples) < 3 and (len(run[1]) > 2 or pid in ("C20", "C24")):
                result.samples.append(dict(argv=s["argv"], files=list(s["entries"]), code=run[2]["code"],
                                           states=len(run[1])))
        if result.violations:
            break
    result.notes = dict(ended=kinds, refused_documents=len(refused))
    return result
