"""Checks of what becomes of documents: the corpus, fresh documents, verdicts."""
import gzip
import json
import os
import pathlib
import pickle
import random
import shutil
import time

import big
import gen
import large
import real
import tiny
import tlc

BUILD = tlc.VERIF / "build"
CORPUS = BUILD / "corpus"

# What documents of a family are mostly made of
FAMILIES = {
    "all": None,
    "code": ["fenced", "indented", "fenced"],
    "inline": ["inline", "inline", "paragraph", "soup"],
    "text": ["paragraph", "paragraph", "inline"],
    "headings": ["atx", "setext", "setext"],
    "lists": ["bullets", "numbers"],
    "quotes": ["quote"],
    "tables": ["table"],
    "definitions": ["definitions"],
    "breaks": ["thematic", "thematic", "setext"],
    "odd": ["odd", "odd", "soup"],
}
# The families a property is about (the others matter as well, but less)
OF_PROPERTY = {
    "C01": ["odd", "all", "lists", "quotes"],
    "C02": ["odd", "all", "tables", "inline"],
    "C03": ["all", "inline", "definitions", "tables"],
    "C04": ["code"],
    "C05": ["all", "lists", "quotes", "odd"],
    "C06": ["inline"],
    "C07": ["text", "inline"],
    "C08": ["headings"],
    "C09": ["lists"],
    "C10": ["quotes"],
    "C11": ["tables"],
    "C12": ["definitions"],
    "C13": ["all", "odd", "lists", "code"],
    "C14": ["breaks"],
}


def make(family, seed, n, hints=((), ())):
    g = gen.Gen(random.Random(f"{family}-{seed}"), *hints)
    return [g.case(FAMILIES[family]) for _ in range(n)]


def build_corpus(budget, per_round=3000, exhaustive=300):
    """Has the specification say what becomes of documents until the budget is spent.

    First some large ones, then all small ones (see tiny.py; for at most the given number of
    seconds), then others.
    """
    shutil.rmtree(CORPUS, ignore_errors=True)
    CORPUS.mkdir(parents=True)
    start = time.monotonic()
    hints = gen.harvest()
    total = 0

    def save(name, cases, batch=250):
        nonlocal total
        answers, _ = tlc.oracle(cases, batch)
        with gzip.open(CORPUS / f"{name}.pkl.gz", "wb", compresslevel=3) as file:
            pickle.dump([(t, w, o, r) for (t, w), (o, r) in zip(cases, answers)], file)
        total += len(cases)

    save("big-000", big.documents("corpus", 40 if exhaustive > 100 else 8, hints), 5)
    complete = {}
    for name in [*tiny.LINES, *tiny.TOKENS]:
        cases = list(tiny.documents(name))
        if time.monotonic() - start < exhaustive:
            save(f"{name}-000", cases)
            complete[name] = len(cases)
    (CORPUS / "complete.json").write_text(json.dumps(complete))
    start = time.monotonic()
    number = 0
    cost = 0.0
    while time.monotonic() - start + cost < budget:
        number += 1
        for family in FAMILIES:
            before = time.monotonic()
            n = per_round * (2 if family == "all" else 1)
            save(f"{family}-{number:03d}", make(family, f"corpus{number}", n, hints))
            cost = time.monotonic() - before
            if before + 2 * cost - start > budget:
                break
    return total


def corpus(families):
    """Batches of the corpus, the given families first"""
    files = sorted(CORPUS.glob("[a-z]*.pkl.gz")) if CORPUS.exists() else []

    def rank(path):
        family, number = path.name.split(".")[0].rsplit("-", 1)
        n = int(number)
        own = family in families
        if n == 0:
            return (0, not own, path.name) if own or family in ("tiny", "big") else (5, True, path.name)
        return (n if own else 1 + 3 * n, not own, path.name)

    for path in sorted(files, key=rank):
        with gzip.open(path, "rb") as file:
            yield path.name.split(".")[0], pickle.load(file)


def judge(cases, batch=100, timeout=800):
    """Verdicts on (text, width, first answer, second answer): [(ids, expected)]."""
    found, stats = tlc.batches(
        "Judge",
        [
            {
                "t": tlc.codes(t),
                "w": tlc.width(w),
                "o": first[0],
                "r": tlc.codes(first[1]) if first[0] == "ok" else [],
                "s": "none" if second is None else "same" if second == "same" else "other",
            }
            for t, w, first, second in cases
        ],
        batch,
        timeout=timeout,
    )
    return [(set(v["ids"]), (v["exp"]["o"], tlc.text(v["exp"]["r"]))) for v in found], stats


def some(mismatches, limit):
    """Some of them: mostly short ones, but not only"""
    ordered = sorted(mismatches, key=lambda m: len(m[0]))
    if len(ordered) <= limit:
        return ordered
    short = ordered[: limit // 2]
    rest = ordered[limit // 2 :]
    step = len(rest) / (limit - len(short))
    return short + [rest[int(k * step)] for k in range(limit - len(short))]


def check_large(result, seed, size, pid="C02"):
    """Documents that are large have the outcome of small ones of their shape, in seconds."""
    cases = list(large.pairs(seed, size, pid == "C01"))
    r = random.Random(f"width-{seed}")
    widths = [r.choice([20, 40, 88, 200]) for _ in cases]
    expected, stats = tlc.oracle([(small, w) for (_, small, _), w in zip(cases, widths)], 10)
    result.count(stats)
    answers = real.run([(c[2], w) for c, w in zip(cases, widths)], twice=True, chunk=1, limit=25)
    for (name, _, text), w, (o, _), (first, second) in zip(cases, widths, expected, answers):
        result.evaluations += 1
        result.saw(text, w, first)
        stable = first[0] != "ok" or second == "same"
        if not stable or (pid == "C02" and first[0] != o):
            result.violations.append(
                dict(shape=name, length=len(text), text=text[:3000], width=w,
                     outcome=first[0], again=None if second is None else second[0],
                     expected=o)
            )
    result.notes["large_documents"] = len(cases)


def check_theorems(result, cases):
    """What the specification says about these documents preserves what it should.

    That's about the specification rather than the code, so it's only counted.
    """
    answers, stats = tlc.batches(
        "Theorems", [{"t": tlc.codes(t), "w": tlc.width(w)} for t, w in cases], 50
    )
    result.count(stats)
    noted = result.notes.setdefault("theorems", {"documents": 0, "exceptions": [], "refused": 0})
    noted["documents"] += len(cases)
    for (t, w), failing in zip(cases, answers):
        if "malformed" in failing or "inconsistent" in failing:
            noted["refused"] += 1
        elif failing:
            noted["exceptions"] = (noted["exceptions"] + [[failing, t[:200], repr(w)]])[:20]


class Result:
    def __init__(self):
        self.evaluations = 0
        self.replayed = 0
        self.judged = 0
        self.mismatches = 0
        self.states = 0
        self.transitions = 0
        self.samples = []
        self.violations = []
        self.nontrivial = set()
        self.notes = {}

    def count(self, stats):
        self.transitions += stats[0]
        self.states += stats[1]

    def saw(self, text, width, answer):
        if answer[0] != "ok" or answer[1] != text:
            self.nontrivial.add(hash((text, width)))


def check(pid, seed, tier):
    """Documents for one property.

    First the corpus (of which we know what is supposed to become of it), then fresh
    documents.  Whatever isn't as expected is judged by the specification.
    """
    result = Result()
    quick = tier == "quick"
    families = OF_PROPERTY[pid]
    twice = pid == "C01"
    start = time.monotonic()
    replay_until = start + (11 if quick else 400)
    mismatches = []
    if not CORPUS.exists():
        build_corpus(60 if quick else 300, exhaustive=40)
        replay_until = time.monotonic() + 15

    def judged(cases):
        verdicts, stats = judge(cases)
        result.count(stats)
        result.judged += len(cases)
        for (t, w, first, second), (ids, expected) in zip(cases, verdicts):
            if pid in ids:
                result.violations.append(
                    dict(text=t, width=repr(w), real=first, again=second, expected=expected)
                )
        return bool(result.violations)

    exhaustive = []
    for name, cases in corpus(families):
        if time.monotonic() > replay_until:
            break
        answers = real.run([c[:2] for c in cases], twice=twice, deadline=replay_until)
        if name.endswith("-000") and name != "big-000" and None not in answers:
            exhaustive.append(name[:-4])
        for (t, w, o, r), answer in zip(cases, answers):
            if answer is None:
                continue
            first, second = answer
            result.evaluations += 1
            result.replayed += 1
            result.saw(t, w, first)
            if first != (o, r) or (twice and first[0] == "ok" and second != "same"):
                mismatches.append((t, w, first, second))
        if len(mismatches) > 3000:
            break
    result.mismatches += len(mismatches)
    result.notes["all_small_documents_of"] = exhaustive
    if mismatches:
        chosen = some(mismatches, 300)
        if not twice:
            again = real.run([m[:2] for m in chosen], twice=True)
            chosen = [
                (t, w, a[0], a[1]) if a else m for (m, a) in zip(chosen, again) for t, w in [m[:2]]
            ]
        if judged(chosen):
            return result
        more = [m for m in mismatches if m not in chosen]
        if more and judged(some(more, 1500)):
            return result

    if pid in ("C01", "C02"):
        for k in range(1 if quick else 6):
            check_large(result, f"{seed}-{k}", 600 if quick else 2500, pid)
        if result.violations:
            return result

    # Fresh ones
    hints = gen.harvest(os.path.join(real.REPO, "markflow"))
    rounds = 1 if quick else 1000
    until = time.monotonic() + (25 if quick else 600)
    for k in range(rounds):
        fresh = []
        share = 2500 // len(families)
        for family in families:
            fresh += make(family, f"{seed}-{pid}-{k}", share, hints)
        if "all" not in families:
            fresh += make("all", f"{seed}-{pid}-{k}", 700, hints)
        fresh += big.documents(f"{seed}-{pid}-{k}", 2 if quick else 8, hints)
        # Those that take longer are spread evenly.
        random.Random(k).shuffle(fresh)
        answers = real.run(fresh, twice=True)
        batch = [(t, w, a[0], a[1]) for (t, w), a in zip(fresh, answers) if a is not None]
        for t, w, first, _ in batch:
            result.evaluations += 1
            result.saw(t, w, first)
        if judged(batch):
            break
        if not quick and k % 4 == 0:
            check_theorems(result, [c[:2] for c in batch[:600]])
        if not result.samples or k == 0:
            for t, w, first, _ in batch[:: max(1, len(batch) // 3)][:3]:
                result.samples.append(dict(text=t, width=repr(w), outcome=first[0], delivered=first[1]))
        if time.monotonic() > until:
            break
    return result
