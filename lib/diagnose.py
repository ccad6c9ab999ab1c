"""What is reported (C26), warned and complained about documents (C27)."""
import logging
import math
import os
import random
import re
import subprocess
import sys
import tempfile

import big
import docs
import gen
import real
import tlc

KINDS = {
    "atx": "atxheading", "blank": "blankline", "quote": "blockquote", "bullets": "bulletlist",
    "numbers": "orderedlist", "fenced": "fencedcodeblock", "indented": "indentedcodeblock",
    "definition": "linkreferencedefinition", "paragraph": "paragraph", "setext": "setextheading",
    "table": "table", "thematic": "thematicbreak",
}
LEVELS = [logging.INFO, logging.ERROR, logging.DEBUG, logging.WARNING, logging.CRITICAL]


class Collect(logging.Handler):
    def __init__(self):
        super().__init__(logging.NOTSET)
        self.records = []

    def emit(self, record):
        try:
            message = record.getMessage()
        except Exception as e:
            message = f"(not formattable: {type(e).__name__})"
        self.records.append((record.levelno, record.name, message))


def one(job):
    """[answer, records, message of a refusal] at all levels, for (text, width)s"""
    function, ex = real.load()
    logging.disable(logging.NOTSET)
    root = logging.getLogger()
    out = []
    for text, width in job:
        answers = []
        for level in LEVELS:
            handler = Collect()
            root.handlers[:] = [handler]
            root.setLevel(level)
            said = []

            def listening(*args):
                try:
                    return function(*args)
                except ex.MarkdownFormatException as e:
                    said.append(str(e))
                    raise

            answer = real.answer(listening, ex, text, width)
            answers.append((answer, handler.records, said))
        out.append(answers)
    return out


REPORT = re.compile(r"^Lines? (\d+)(?:-(\d+))?\b(.*)", re.S)


def reports(records, level):
    """The sections that were reported [(first line, last line, kind)]"""
    found = []
    for levelno, name, message in records:
        if levelno != level or not name.startswith("markflow"):
            continue
        match = REPORT.match(message)
        if not match:
            continue
        a = int(match.group(1))
        b = int(match.group(2) or a)
        said = re.sub("[^a-z]", "", match.group(3)[:48].lower())
        kind = next((k for k, v in KINDS.items() if said.startswith(("markdown" + v, v))), None)
        found.append((a, b, kind))
    return found


NAMED = re.compile(r"\bline (\d+)", re.I)
WARNINGS = {"atx": "space", "fence": "fence", "linkreference": "link", "setext": "apart"}


def warnings(records):
    """The lines that were warned about [(line, why)]"""
    found = []
    for levelno, name, message in records:
        match = NAMED.search(message)
        if levelno != logging.WARNING or not name.startswith("markflow") or not match:
            continue
        said = re.sub("[^a-z]", "", message.lower())
        why = [v for k, v in WARNINGS.items() if k in said]
        found.append((int(match.group(1)), why[0] if len(why) == 1 else None))
    return sorted(found, key=lambda f: f[0])


def judge_reports(expected, answers):
    """What is wrong with what was reported (C26)"""
    wanted = [(s["a"], s["b"], s["k"]) for s in expected["s"]]
    (answer, records, _), (quiet_answer, quiet, _), (debug_answer, debugged, _) = answers[:3]
    (warn_answer, warned, _), (_, none, _) = answers[3:]
    found = reports(records, logging.INFO)
    if any(a != answer for a in (quiet_answer, debug_answer, warn_answer)):
        return "what is delivered depends on the verbosity"
    if quiet or none:
        return f"reported although quiet: {(quiet + none)[0]}"
    if any(level < logging.WARNING for level, _, _ in warned):
        return "less than a warning was reported at that level"
    if answer[0] in ("crash", "timeout"):
        return None
    line = 1
    for a, b, _ in found:
        if a != line or b < a:
            return f"reported lines {a}-{b} where line {line} was next"
        line = b + 1
    if line != expected["n"] + 1:
        return f"lines {line}-{expected['n']} were not reported"
    if answer != (expected["o"], tlc.text(expected["r"])):
        return None
    if [f[:2] for f in found] != [w[:2] for w in wanted]:
        return f"reported {found} instead of {wanted}"
    for f, w in zip(found, wanted):
        if f[2] is not None and f[2] != w[2]:
            return f"lines {f[0]}-{f[1]} were reported to be {f[2]} instead of {w[2]}"
    if answer[0] == "ok":
        # Everything in containers, too
        every = reports(debugged, logging.DEBUG) + reports(debugged, logging.INFO)
        every = {f[:2] for f in every if f[2] is None} | {f for f in every}
        for s in expected["i"]:
            w = (s["a"], s["b"], s["k"])
            if w not in every and w[:2] not in every:
                return f"{w} was not reported at level debug"
    return None


def judge_warnings(expected, answers):
    """What is wrong with the lines that were warned about or refused (C27)"""
    for answer, records, said in answers:
        if answer != (expected["o"], tlc.text(expected["r"])):
            continue
        if answer[0] == "malformed" and expected["f"]:
            named = NAMED.findall(said[0])
            if named != [str(expected["f"])]:
                return f"line {expected['f']} is at fault, not {said[0]!r}"
    answer, records, _ = answers[3]
    if answer != (expected["o"], tlc.text(expected["r"])) or answer[0] != "ok":
        return None
    found = warnings(records)
    wanted = sorted((w["a"], w["k"]) for w in expected["w"])
    if [f[0] for f in found] != [w[0] for w in wanted]:
        return f"warned about {found} instead of {wanted}: {records[:5]}"
    for line in {w[0] for w in wanted}:
        mine = [f[1] for f in found if f[0] == line]
        if None not in mine and sorted(mine) != [w[1] for w in wanted if w[0] == line]:
            return f"warned about {found} instead of {wanted}: {records[:5]}"
    return None


# --------------------------------------------------------------------- as a process
FLAGS = [
    [], ["-q"], ["-v"], ["-vv"], ["-vvv"], ["-vvvv"], ["-v"] * 6, ["-qq"], ["-qqq"], ["-q"] * 5, ["-vvq"], ["-vvvq"],
    ["-q", "-vvvv"], ["--verbose", "--verbose"], ["--verbose", "--quiet"], ["-vvv", "-qqq"], ["-vvvv", "-qq"], ["-qvv"],
]
PRINTED = re.compile(r"\b(DEBUG|INFO|WARNING|ERROR|CRITICAL) +(.*\S)")


def net(flags):
    letters = "".join(f[2] if f.startswith("--") else f for f in flags)
    return letters.count("v") - letters.count("q")


def told(job):
    """[what is printed for a document (level, name, message), standard output, exit code]"""
    answers = []
    for text, flags, check in job:
        with tempfile.TemporaryDirectory(prefix="mf-told-") as base:
            path = os.path.join(base, "a.md")
            with open(path, "wb") as file:
                file.write(text.encode())
            env = {**os.environ, "COLUMNS": "3000", "PYTHONPATH": real.REPO, "PYTHONDONTWRITEBYTECODE": "1",
                   "PYTHONUTF8": "1", "HOME": base}
            env.pop("FORCE_COLOR", None)
            done = subprocess.run(
                [sys.executable, "-m", "markflow", *flags, *(["--check"] if check else []), "a.md"],
                stdin=subprocess.DEVNULL, capture_output=True, cwd=base, env=env, timeout=60,
            )
            with open(path, "rb") as file:
                left = file.read().decode("utf-8", "replace")
        records = []
        for line in done.stderr.decode("utf-8", "replace").split("\n"):
            match = PRINTED.search(line)
            if match:
                records.append((getattr(logging, match.group(1)), "markflow", " ".join(match.group(2).split())))
        answers.append((records, left))
    return answers


def judge_told(expected, text, check, records, left):
    """What is wrong with what was printed (C26)"""
    shown = {getattr(logging, level.upper()) for level in expected["l"]}
    wanted = [(s["a"], s["b"]) for s in expected["s"]]
    found = [f[:2] for f in reports(records, logging.INFO)]
    if expected["o"] != "ok":
        return None
    if left != (text if check else tlc.text(expected["r"])):
        return f"{left!r} was delivered"
    # (The second pass may be reported as well when debugging.)
    if logging.INFO in shown and (found[: len(wanted)] if logging.DEBUG in shown else found) != wanted:
        return f"{found} were printed instead of {wanted}"
    if logging.DEBUG in shown:
        every = {f[:2] for f in reports(records, logging.DEBUG)} | set(found)
        for s in expected["i"]:
            if (s["a"], s["b"]) not in every:
                return f"{s} was not printed"
    for level, _, message in records:
        if level not in shown and (REPORT.match(message) or NAMED.search(message)):
            return f"{message!r} was printed"
    warned = sorted(f[0] for f in warnings(records)) if logging.DEBUG not in shown else None
    if logging.WARNING in shown and warned is not None and warned != sorted(w["a"] for w in expected["w"]):
        return f"warnings about {warned} were printed"
    return None


def verbosity(result, seed, number, cases):
    """Documents formatted by processes with all kinds of flags"""
    rng = random.Random(f"{seed}-told")
    some = [t for t, w in cases if 10 < len(t) < 150 and all(c == "\n" or " " <= c <= "~" for c in t)]
    few = rng.sample(some, min(number, len(some)))
    few = few[: number // 2] + [t for t, w in faulty(f"{seed}-told", number) if len(t) < 200][: number - number // 2]
    jobs = [(t, flags, rng.random() < 0.5) for t in few for flags in rng.sample(FLAGS, 9) + [["-vvvv"], ["-vv"]]]
    expected, stats = tlc.batches(
        "Diagnose", [{"t": tlc.codes(t), "w": tlc.width(88), "v": net(flags)} for t, flags, _ in jobs], 25
    )
    result.count(stats)
    parts = [jobs[i : i + 6] for i in range(0, len(jobs), 6)]
    for part, k, answers in zip(parts, range(0, len(jobs), 6), real.jobs("diagnose:told", parts)):
        if not isinstance(answers, list):
            continue
        for (text, flags, check), f, (records, left) in zip(part, expected[k:], answers):
            result.evaluations += 1
            result.judged += 1
            wrong = judge_told(f, text, check, records, left)
            if wrong:
                result.violations.append(dict(text=text, flags=flags, wrong=wrong, records=records[:30]))


JUDGES = {"C26": judge_reports, "C27": judge_warnings}


def interesting(pid, f):
    """Whether there's anything to get wrong"""
    return len(f["i"]) > 1 if pid == "C26" else bool(f["w"] or f["f"])


FAULTS = [
    "#a", "##", " ###b c", "#\ta", "#\u00a0a", "[a]:", " [b c]:", "> q\na\n===", "```\na\n    ```",
    "~~~\n     ~~~", " ```x\na\n     ```", "> > q\nt\n--", "# fine", "[a]: b", "```\n   ```",
    "|a|b|\n|-|-|\n|c|d|", "|a|b|\n|-|-|\n|c|", "|a|\n|-|-|", "|a|\n|x|", "|a|", "para\n#b", "a\n[b]:",
    "|a|b|\n|-|-|\n|-|-|\n|c|d|\n|e|f|g|", "> #q", "> [a]:", "* #i\n* [i]:", "1. #i\n\n2. #j",
]


def contained(lines, rng):
    """Somewhere in a quote or list"""
    how = rng.randrange(5)
    if how == 0:
        return ["> " + line if line else ">" for line in lines]
    if how == 1:
        return [">" + line for line in lines]
    if how == 4:
        return lines
    marker = rng.choice(["* ", "- ", "+ "]) if how == 2 else rng.choice(["1. ", "9. ", "10. ", "007. "])
    before = [marker + "x", " " * len(marker) + "y"][: rng.randrange(3)]
    pad = " " * len(marker)
    # Blank lines end lists, other than those of code.
    if rng.randrange(3) == 0:
        before += [marker + "```", pad + "x", "", "", pad + "```"]
    return before + [(marker if i == 0 else pad) + line for i, line in enumerate(lines) if line]


def faulty(seed, number):
    """Documents with lots to warn about at many places"""
    rng = random.Random(f"{seed}-faulty")
    cases = []
    for _ in range(number):
        lines = []
        for _ in range(rng.randrange(1, 5)):
            block = rng.choice(FAULTS).split("\n")
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                block = contained(block, rng)
            lines += block + [""] * rng.randrange(3)
        cases.append(("\n".join(lines) + "\n", rng.choice([88, 88, 20, 7, math.inf])))
    return cases


def check(pid, seed, tier):
    result = docs.Result()
    quick = tier == "quick"
    hints = gen.harvest(os.path.join(real.REPO, "markflow"))
    for k in range(1 if quick else 12):
        cases = []
        for family in docs.FAMILIES:
            cases += docs.make(family, f"{seed}-{pid}-{k}", 420 if quick else 700, hints)
        cases += faulty(f"{seed}-{pid}-{k}", 1200 if quick else 3000)
        cases += big.documents(f"{seed}-{pid}-{k}", 1 if quick else 4)
        random.Random(f"{seed}-{k}").shuffle(cases)
        found, stats = tlc.batches("Diagnose", [{"t": tlc.codes(t), "w": tlc.width(w)} for t, w in cases])
        result.count(stats)
        parts = [cases[i : i + 50] for i in range(0, len(cases), 50)]
        answers = real.jobs("diagnose:one", parts)
        # Whatever takes too long or ends processes is none of our business here.
        for i, (part, all_answers) in enumerate(zip(parts, answers)):
            if not isinstance(all_answers, list):
                continue
            for (t, w), f, a in zip(part, found[50 * i :], all_answers):
                result.evaluations += len(LEVELS)
                result.judged += 1
                if interesting(pid, f):
                    result.nontrivial.add(hash((t, w)))
                wrong = JUDGES[pid](f, a)
                if wrong:
                    result.violations.append(
                        dict(text=t, width=repr(w), wrong=wrong, sections=f["i"], reported=a[0][1][:40])
                    )
                elif len(result.samples) < 3 and len(f["s"]) > 3 and interesting(pid, f):
                    result.samples.append(
                        dict(text=t, reported=[r[2] for r in a[0][1]], refused=a[0][2])
                    )
        if pid == "C26" and not result.violations:
            verbosity(result, f"{seed}-{k}", 10 if quick else 40, cases)
        if result.violations:
            break
    return result
