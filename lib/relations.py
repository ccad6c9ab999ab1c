"""Properties that relate several formattings to each other (see spec/Relations.tla)."""
import gzip
import itertools
import json
import os
import pickle
import random
import time

import big
import docs
import gen
import real
import tiny
import tlc

RELATIONS = ["C15", "C16", "C17", "C18"]
# What a relation is mostly tried with
FOCUS = {
    "C15": [None, None, ["paragraph", "inline"], ["bullets", "numbers"], ["quote"], ["definitions"], ["setext", "thematic"]],
    "C16": [None, None, ["paragraph"], ["bullets", "numbers"], ["quote"], ["table"], ["setext", "thematic", "atx"],
            ["definitions"], ["fenced", "indented"]],
    "C17": [None],
    "C18": [None, None, ["paragraph", "inline"], ["bullets", "numbers"], ["quote"], ["fenced", "table", "atx"]],
}
# Ways of respelling (see spec/Respell.tla) that matter for a focus
WAYS = {
    None: list(range(1, 10)),
    "paragraph": [1, 2, 2, 3], "bullets": [6, 6, 3, 1], "quote": [8, 8, 1], "table": [5, 5, 3, 1],
    "setext": [4, 4, 3, 2, 1, 9], "definitions": [9, 9, 3], "fenced": [7, 7, 1],
}


def lines_of(text):
    return [tlc.codes(l) for l in text.splitlines()]


class Maker(big.Big):
    def some_widths(self, text):
        w = tlc.width(self.widths(text))
        return w

    def contexts(self, least=1):
        out = []
        for _ in range(max(least, self.pick([0, 1, 1, 1, 2, 2, 3]))):
            kind = self.pick(["quote", "quote", "tight", "bullets", "bullets", "numbers", "numbers"])
            m = ""
            if kind == "bullets":
                m = self.pick("*-+")
            elif kind == "numbers":
                m = str(self.pick([0, 1, 1, 2, 8, 9, 10, 98, 99, 999, 12345]))
            out.append(dict(k=kind, m=tlc.codes(m)))
        return out

    def document(self, focus=None):
        if self.chance(0.03):
            return "\n".join(getattr(self, self.pick(self.SHAPES))()) + "\n"
        return super().document(focus)

    def block_text(self, focus, n=None, blanks=True):
        lines = self.blocks(n or self.pick([1, 1, 2, 3]), focus=focus, apart=None if blanks else 0)
        if not blanks:
            lines = [l for l in lines if l.strip()] or ["a"]
        return "\n".join(lines) + "\n"

    def case(self, kind):
        focus = self.pick(FOCUS[kind])
        c = dict(k=kind, ds=[], w=88, v=88, ctx=[], ways=[], z=[])
        if kind == "C15":
            text = self.document(focus)
            c["ds"] = [lines_of(text)]
            c["w"] = self.some_widths(text)
            c["v"] = self.some_widths(text)
        elif kind == "C16":
            text = self.document(focus) if self.chance(0.5) else self.block_text(focus)
            c["ds"] = [lines_of(text)]
            c["w"] = self.some_widths(text)
            ways = WAYS[focus[0] if focus else None]
            c["ways"] = [self.pick(ways) for _ in range(self.pick([1, 1, 2, 3, 4]))]
            c["z"] = [self.r.randrange(0, 5040) for _ in range(23)]
            c["ctx"] = self.contexts() if self.chance(0.25) else []
        elif kind == "C17":
            n = self.pick([2, 2, 2, 3, 4])
            texts = [self.block_text(None, self.pick([1, 1, 1, 2])) for _ in range(n)]
            if self.chance(0.35):
                for k in range(1, n):
                    if self.chance(0.7):
                        texts[k] = "\n".join(self.alike(texts[0].split("\n")))
            c["ds"] = [lines_of(t) for t in texts]
            c["w"] = self.some_widths("".join(texts))
        else:
            ctx = self.contexts()
            quotes = all(x["k"] in ("quote", "tight") for x in ctx)
            n = 1 if ctx[0]["k"] in ("quote", "tight") else self.pick([1, 1, 2, 3])
            if n == 3 and self.chance(0.2):
                n = 12
            texts = [self.block_text(focus, blanks=quotes) for _ in range(n)]
            c["ds"] = [lines_of(t) for t in texts]
            c["ctx"] = ctx
            c["w"] = self.some_widths("".join(texts))
        if any(not d for d in c["ds"]):
            return self.case(kind)
        return c


    def big_case(self, kind):
        """The same with documents that are large, and line lengths to match"""
        some = lambda: tlc.width(self.pick([88, 120, 200, 201, 256, 300, 500, 1000, gen.INF, 40, 20, 5]))
        shape = getattr(self, self.pick(self.SHAPES))
        lines = shape() if self.chance(0.7) else self.lines(self.r.randint(12, 60), 3, 12)
        c = dict(k=kind, ds=[], w=some(), v=some(), ctx=[], ways=[], z=[])
        if kind == "C16":
            c["ways"] = [self.pick(WAYS[None]) for _ in range(self.pick([1, 2, 3]))]
            if self.chance(0.5):
                # Code keeps the lines of text from being divided in other places.
                lines = ["".join("'" if x == "`" or x != " " and x.isspace() else x for x in l) for l in lines]
                c["ways"][0] = 2
            c["z"] = [self.r.randrange(0, 5040) for _ in range(23)]
        elif kind == "C18":
            c["ctx"] = self.contexts()
            if not all(x["k"] in ("quote", "tight") for x in c["ctx"]):
                lines = [l for l in lines if l.strip()] or ["a"]
        texts = ["\n".join(lines) + "\n"]
        if kind == "C17":
            other = self.alike(lines) if self.chance(0.5) else self.block_text(None, 2).split("\n")
            texts.insert(self.pick([0, 1]), "\n".join(other) + "\n")
        c["ds"] = [lines_of(t) for t in texts]
        return c if all(c["ds"]) else self.big_case(kind)


def make_big(kind, seed, n, hints=((), ())):
    g = Maker(random.Random(f"big-{kind}-{seed}"), *hints)
    return [g.big_case(kind) for _ in range(n)]


def make(kind, seed, n, hints=((), ())):
    g = Maker(random.Random(f"{kind}-{seed}"), *hints)
    return [g.case(kind) for _ in range(n)]


# Small documents that are combined with each other in all ways
SMALL = [
    "a b c", "a\nb", "a  \nb", "a<br>b", "`a b` c", "[a b](c) d", "# a", "## a b c d", "a b c\n===", "a\n-", "---", "* * *",
    "___", "* a", "* a b c d\n  e", "- a\n- b c d", "+ a\n  * b", "* a\n\n  b", "1. a\n2. b", "9. a b\n10. c d", "0. a",
    "* ```\n  a\n  ```", "* > a", "* a\n* b\n* c", "> a\n> b\n> c", "a\nb\nc", "|a|\n|-|\n|b|\n|c|", "> a b c d", ">a\n>b", "> a\nb", "> > a\n>\n> b", "> * a", "> ```\n> a\n> ```",
    "> # a\n> b", "```\na\n```", "~~~ b\n\n  a\n~~~", "````\n```\n````", "    a\n      b", "    a\n\n    b",
    "|a|b|\n|-|:-:|", "|a|\n|-|\n|b c|", "[a]: b", "[a]:\n  b\n  'c'", "[a]: b 'c\nd'", "[a]: b\n\"c d e\"", "-", "1.", "a\\",
    "*a*", "#a", ">", "a\n\n\n# b", "<b>", "1) a",
]


def exhaustive(kind):
    """All cases of a kind that are made of these"""
    base = dict(k=kind, ds=[], w=8, v=8, ctx=[], ways=[], z=[])
    ds = [lines_of(t) for t in SMALL]
    more = [lines_of("\n".join(ls)) for n in (1, 2) for ls in itertools.product(tiny.LINES["tiny"][2], repeat=n)]
    more = [d for d in more if d and d not in ds]

    def context(k, m=""):
        return dict(k=k, m=tlc.codes(m))

    if kind == "C15":
        for d in ds:
            for w, v in itertools.permutations([1, 3, 5, 8, 12, tlc.INFINITE], 2):
                yield dict(base, ds=[d], w=w, v=v)
        for d in more:
            for w, v in itertools.permutations([1, 4, 7, tlc.INFINITE], 2):
                yield dict(base, ds=[d], w=w, v=v)
    elif kind == "C16":
        r = random.Random("z")
        for d in ds + more:
            for way in range(1, 10):
                for w in (5, 88):
                    yield dict(base, ds=[d], w=w, ways=[way], z=[r.randrange(0, 5040) for _ in range(23)])
    elif kind == "C17":
        for a in ds:
            for b in ds:
                yield dict(base, ds=[a, b], w=7)
            # Those that are like it but for a letter
            for k, l in enumerate(a):
                for i, x in enumerate(l):
                    if 97 <= x <= 122:
                        yield dict(base, ds=[a, a[:k] + [l[:i] + [113] + l[i + 1 :]] + a[k + 1 :]], w=7)
            for b in more:
                yield dict(base, ds=[a, b], w=7)
                yield dict(base, ds=[b, a], w=7)
    else:
        contexts = [context("quote"), context("tight"), *(context("bullets", m) for m in "*-+"),
                    *(context("numbers", m) for m in ("0", "1", "9", "99"))]
        for x in contexts:
            for d in ds + more:
                for w in (6, 9, 88):
                    yield dict(base, ds=[d], ctx=[x], w=w)
            for y in contexts:
                for d in ds:
                    yield dict(base, ds=[d], ctx=[x, y], w=12)


def _tlc(mode, items, batch, timeout):
    return tlc.batches("Relate", items, batch, {"ORACLE_MODE": mode}, timeout=timeout)


def plan(cases, batch=50, timeout=900):
    """[(case, runs, expected answers, whether these are related)]"""
    if not cases:
        return [], (0, 0)
    found, stats = _tlc("plan", cases, batch, timeout)
    out = []
    for c, f in zip(cases, found):
        runs = [(tlc.text(r["t"]), r["w"], r["of"]) for r in f["runs"]]
        exp = [(e["o"], tlc.text(e["r"])) for e in f["exp"]]
        out.append((c, runs, exp, f["holds"]))
    return out, stats


def judge(items, batch=50, timeout=800):
    """Whether the answers in [(case, answers)] are related as they should be"""
    if not items:
        return [], (0, 0)
    return _tlc(
        "judge",
        [dict(c=c, **{"as": [dict(o=o, r=tlc.codes(r) if o == "ok" else []) for o, r in answers]}) for c, answers in items],
        batch,
        timeout,
    )


def width(w):
    return float("inf") if w >= tlc.INFINITE / 2 else w


def answer(planned, deadline=None):
    """What the real code answers to all runs (None if there was no time)"""
    first = []
    for i, (c, runs, exp, holds) in enumerate(planned):
        for j, (t, w, of) in enumerate(runs):
            if not of:
                first.append((i, j, (t, width(w))))
    got = {}
    for (i, j, _), a in zip(first, real.run([x[2] for x in first], deadline=deadline)):
        got[i, j] = a and a[0]
    second = []
    for i, (c, runs, exp, holds) in enumerate(planned):
        for j, (t, w, of) in enumerate(runs):
            if of:
                before = got.get((i, of - 1))
                if before and before[0] == "ok":
                    second.append((i, j, (before[1], width(w))))
                else:
                    got[i, j] = before
    for (i, j, _), a in zip(second, real.run([x[2] for x in second], deadline=deadline)):
        got[i, j] = a and a[0]
    return [
        [got[i, j] for j in range(len(runs))] if all(got[i, j] for j in range(len(runs))) else None
        for i, (c, runs, exp, holds) in enumerate(planned)
    ]


def build_corpus(budget, per_round=800):
    start = time.monotonic()
    hints = gen.harvest()
    number = 0
    total = 0
    cost = 0

    def save(kind, number, cases, batch=50):
        planned = [p for p in plan(cases, batch)[0] if p[3]]
        with gzip.open(docs.CORPUS / f"R{kind}-{number:03d}.pkl.gz", "wb", compresslevel=3) as file:
            pickle.dump(planned, file)
        return len(planned)

    if budget > 60:
        for kind in RELATIONS:
            total += save(kind, 0, list(exhaustive(kind)))
            total += save(kind, 1, make_big(kind, "corpus", 120, hints), batch=2)
    number = 1
    start = time.monotonic()
    while time.monotonic() - start + cost < budget:
        number += 1
        before = time.monotonic()
        for kind in RELATIONS:
            total += save(kind, number, make(kind, f"corpus{number}", per_round, hints))
        cost = time.monotonic() - before
    return total


def corpus(kind):
    for path in sorted(docs.CORPUS.glob(f"R{kind}-*.pkl.gz")):
        with gzip.open(path, "rb") as file:
            yield pickle.load(file)


def check(pid, seed, tier):
    result = docs.Result()
    result.related = 0
    quick = tier == "quick"
    start = time.monotonic()
    replay_until = start + (12 if quick else 240)

    def decide(planned, deadline=None):
        answers = answer(planned, deadline)
        suspects = []
        for p, a in zip(planned, answers):
            if a is None:
                continue
            c, runs, exp, holds = p
            result.evaluations += len(a)
            result.related += 1
            if any(r[0] == "ok" and r[1] != t for r, (t, _, _) in zip(a, runs)):
                result.nontrivial.add(hash(json.dumps(c, sort_keys=True)))
            if a != exp:
                suspects.append((c, a, runs, exp))
        result.mismatches += len(suspects)
        suspects.sort(key=lambda s: sum(len(d) for d in s[0]["ds"]))
        suspects = suspects[:800]
        verdicts, stats = judge([(c, a) for c, a, _, _ in suspects])
        result.count(stats)
        result.judged += len(suspects)
        for (c, a, runs, exp), fine in zip(suspects, verdicts):
            if not fine:
                result.violations.append(
                    dict(
                        relation=pid,
                        runs=[dict(text=t, width=w, of=of) for t, w, of in runs],
                        real=a,
                        expected=exp,
                    )
                )
        return bool(result.violations)

    for number, planned in enumerate(corpus(pid)):
        if time.monotonic() > replay_until:
            break
        result.replayed += len(planned)
        if decide(planned, replay_until):
            return result
        if number == 0:
            result.notes["all_combinations_of_small_documents"] = len(planned)
    hints = gen.harvest(os.path.join(real.REPO, "markflow"))
    until = time.monotonic() + (5 if quick else 500)
    k = 0
    while True:
        planned, stats = plan(make(pid, f"{seed}-{pid}-{k}", 1200 if quick else 3000, hints))
        if not quick:
            large, more = plan(make_big(pid, f"{seed}-{pid}-{k}", 150, hints), 2)
            planned += large
            result.count(more)
        result.count(stats)
        usable = [p for p in planned if p[3]]
        result.notes["applicable"] = f"{len(usable)} of {len(planned)}"
        if not result.samples:
            for c, runs, exp, _ in usable[:: max(1, len(usable) // 3)][:3]:
                result.samples.append([dict(text=t, width=w, of=of, delivered=e[1]) for (t, w, of), e in zip(runs, exp)])
        if decide(usable):
            break
        k += 1
        if time.monotonic() > until:
            break
    return result
