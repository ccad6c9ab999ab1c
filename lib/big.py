"""Documents that are larger than usual, but that the specification can still evaluate."""
import random

import gen


class Big(gen.Gen):
    def lines(self, n, low=1, high=8):
        return [self.plain(low, high) if self.chance(0.8) else self.safe_text(low, high) for _ in range(n)]

    def long_list(self):
        n = self.r.randint(20, 160)
        first = self.pick([0, 1, 1, 2, 5, 90, 95, 985, 9970, 99990, 12345678])
        bullet = self.pick(["*", "-", "+", "#", "#", "#"])
        lines = []
        for k in range(n):
            mark = f"{first + k}. " if bullet == "#" else bullet + " "
            lines.append(mark + self.plain(1, 6))
            x = self.r.random()
            if x < 0.1:
                lines.append(" " * len(mark) + self.plain(1, 9))
            elif x < 0.15:
                lines += [" " * len(mark) + m + self.plain(1, 3) for m in ("* ", "* ")]
        return lines

    def deep_list(self):
        lines, indent = [], ""
        for _ in range(self.r.randint(8, 24)):
            m = self.pick(["* ", "- ", "1. ", "10. ", "+ "])
            lines.append(indent + m + self.plain(1, 9))
            indent += " " * len(m)
            if self.chance(0.2):
                lines.append(indent + self.plain(1, 9))
        return lines

    def deep_quote(self):
        n = self.r.randint(5, 13)
        gap = self.pick(["> ", "> ", ">"])
        lines = [gap * n + self.plain(1, 12)]
        for _ in range(self.r.randint(0, 4)):
            lines.append((gap * n if self.chance(0.7) else "") + self.plain(1, 12))
        for k in range(n - 1, 0, -1):
            if self.chance(0.5):
                lines += [(gap * k).rstrip(), gap * k + self.plain(1, 6)]
        return lines

    def long_quote(self):
        gap = self.pick(["> ", ">"])
        inner = self.big_document(self.r.randint(8, 20))
        return [gap + l if l.strip() else ">" for l in inner]

    def mixed_depth(self):
        lines = ["x"] if self.chance(0.5) else ["# x"]
        for _ in range(self.r.randint(5, 14)):
            if self.chance(0.5):
                lines = ["> " + l if l else ">" for l in lines]
            else:
                m = self.pick(["* ", "1. ", "23. "])
                lines = [m + lines[0]] + [" " * len(m) + l for l in lines[1:]]
                if self.chance(0.3):
                    lines.append(m + self.plain(1, 4))
        return lines

    def big_table(self):
        cols = self.pick([1, 2, 3, 8, 13, 25, 40])
        rows = max(1, self.r.randint(40, 260) // cols)
        div = [self.pick(["-", "---", ":--", "--:", ":-:", ":---:"]) for _ in range(cols)]
        high = self.pick([2, 2, 2, 40 // cols + 2])
        some = lambda: self.plain(1, high) if self.chance(0.8) else self.cell()
        return ["|" + "|".join(some() for _ in range(cols)) + "|", "|" + "|".join(div) + "|"] + [
            "|" + "|".join(some() for _ in range(cols)) + "|" for _ in range(rows)
        ]

    def long_code(self):
        fence = self.pick("`~") * self.pick([3, 3, 4, 12, 40])
        n = self.r.randint(30, 200)
        body = [self.pick(["", "    ", "  "]) + self.pick([self.plain(1, 9), "", "* x", "# y", "> z", "```", "---"])
                + self.pick(["", "", "", "", "  ", "\t", " ;", " ; ;"]) for _ in range(n)]
        if self.chance(0.3):
            lines = ["    " + (l or "x") if self.chance(0.9) or k == 0 else "" for k, l in enumerate(body)]
        else:
            lines = [fence + self.pick(["", "python"])] + [l for l in body if l.strip() != fence] + [fence]
        if self.chance(0.5):
            return lines
        if self.chance(0.4):
            return ["> " + l if l else self.pick([">", "> "]) for l in lines]
        mark = self.pick(["* ", "1. ", "10. "])
        lines = [" " * len(mark) + l if l.strip() or self.chance(0.2) else "" for l in lines]
        return self.pick([[mark + "x"] + lines, [mark + lines[0].lstrip()] + lines[1:]])

    def long_paragraph(self):
        return self.lines(self.r.randint(20, 90), 3, 15)

    def long_line(self):
        return [self.text(100, 500, self.pick([0, 0.1, 0.5]))]

    def long_words(self):
        return [" ".join(self.pick("abc") * self.pick([1, 5, 87, 88, 89, 120, 255, 256, 300, 600]) for _ in range(9))]

    def many_atoms(self):
        atom = self.pick(["`a b`", "[a b](c)", "![a](b c)", "a<br>", "[a][b c]", "`` ` ``"])
        return [" ".join([atom, self.plain(1, 2)]) for _ in range(self.r.randint(20, 60))]

    def many_breaks(self):
        return [self.plain(1, 20) + self.pick(["  ", "   ", "<br>", "<br/>", ""]) for _ in range(self.r.randint(10, 50))]

    def headings(self):
        lines = []
        for _ in range(self.r.randint(10, 40)):
            lines += self.pick([self.atx, self.setext])() + [""]
        return lines

    def long_heading(self):
        return self.pick([["## " + self.text(60, 200)], self.lines(self.r.randint(8, 30)) + ["==="],
                          self.lines(1, 60, 200) + ["-" * 300]])

    def many_definitions(self):
        lines = []
        for _ in range(self.r.randint(10, 50)):
            lines += self.definition()
        return lines

    def many_numbers(self):
        """Things that are counted"""
        n = self.pick([8, 9, 10, 16, 17, 20, 32, 33, 64, 65, 100, 101, 128])
        line = self.pick(["x" * n, "x " * n, "`" * n + " a " + "`" * n, "[a](b) " * n, "|x" * n + "|", "#" * n + " x",
                          "a<br>" * n, "\\" * n + "x", "    " + " " * n + "x", "* " * (n // 4) + "x", "> " * min(12, n // 4) + "x",
                          "`" * n + "\nx\n" + "`" * n, "~" * n + "x\n" + "`" * n + "\n" + "~" * n, "(" * n + ")" * n,
                          "[a]: " + "b" * n + " '" + "c " * n + "d'", "a" + "\n" * n + "b", "x  \n" * n + "y",
                          "* x\n" * n, "1. x\n" * n, "> x\n" * n, "x\n===\n" * n, "|x|\n|-|\n" + "|y|\n" * n])
        return self.pick([[], self.lines(1) + [""]]) + line.split("\n")

    def long_title(self):
        return ["[a]: b '" + self.plain(1, 9)] + self.lines(self.r.randint(5, 30)) + ["c'"]

    def many_blanks(self):
        return self.plain(1, 3).split(" ") + [""] * self.r.randint(10, 70) + ["* a"] + [""] * 30 + ["b"]

    def big_document(self, n=None):
        return self.blocks(n or self.r.randint(15, 50), apart=self.pick([1.0, 0.95, 0.9]))

    def focused(self):
        kind = self.pick(self.KINDS)
        return self.blocks(self.r.randint(10, 30), focus=[kind])

    SHAPES = ["long_list", "long_list", "deep_list", "deep_quote", "long_quote", "mixed_depth", "big_table",
              "big_table", "long_code", "long_paragraph", "long_line", "long_words", "many_atoms", "many_breaks",
              "headings", "long_heading", "many_definitions", "many_numbers", "many_numbers", "long_title", "many_blanks", "big_document",
              "big_document", "focused", "focused"]


def documents(seed, rounds, hints=((), ())):
    """Some of every shape: [(text, line length)]"""
    g = Big(random.Random(f"big-{seed}"), *hints)
    cases = []
    for k in range(rounds):
        for shape in Big.SHAPES:
            lines = getattr(g, shape)()
            if g.chance(0.3):
                lines = g.lines(1) + [""] + lines
            if g.chance(0.3):
                lines = lines + [""] + g.block()
            text = "\n".join(lines) + "\n"
            cases.append((text, g.pick([88, 88, 40, 120, 20, gen.INF, 1, 200, 1000, g.widths(text)])))
    return cases
