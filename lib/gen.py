"""Documents to reformat.

A document is made of blocks of all kinds, which are written in all of the ways (people
come up with) there are, nested, put next to each other, and then sometimes damaged.
Nothing in here knows what is supposed to become of them: that is what the
specification is for.
"""
import ast
import pathlib

INF = float("inf")

WORDS = (
    "a I to of the and lorem ipsum dolor sit amet consectetur adipiscing elit sed do "
    "x1 e.g. i.e. 3.14 v2.0 10% C++ naïve über 日本語 emoji🎉 don't \"quoted\" (paren) "
    "end. stop! what? semi; colon: dash- -dash under_score *emph* **strong** _em_ "
    "`code` <b> </b> http://example.com/path?x=1&y=2 foo@bar.com \\* \\_ \\` \\[ &amp; "
    "1) 2 42 1a ~tilde~ ~~strike~~ ^ $math$ |bar a|b #tag !bang = == -- +plus "
    "pneumonoultramicroscopicsilicovolcanoconiosis "
    "e\u0301a \ufb01n \u201cq\u201d so\u00adft x\u200by \u2116 \u212b x\0y \x07 \u0130x stra\u00dfe \u2026 a\u2014b \u00bd \u0661 "
    "&lt;a&gt; <BR> A\u030a \U0001f468\u200d\U0001f469 \u05d0\u05d1 \x7f"
).split(" ")
STARTERS = (
    "* - + # ## > | ``` ~~~ --- === *** ___ 1. 10. 123. 1) - -- = == == ** __ _ #x >x "
    "|x * * 0. 1234567890. ####### ```` ~~ `` [ ] ( ) ! < > . .. ... , : ; ' \""
).split()
ATOM_LIST = [
    "`code`", "`` a`b ``", "`a  b`", "```x y```", "`a b c d e f g h`", "[text](url)",
    "[two words](url)", "[text][label]", "[two words][a label]", "![img](src.png)",
    "![alt text](src.png)", "[x](<a b>)", "[x](url 'title here')", '[x](url "t").',
    "[a text](- url)", "[label][1. one]", "[x](* 'title')", "[l][+ m]", "pre[x](y)", "[x](y)post", "[a](b)[c](d)", "[a](b) [c](d)", "[![img](i)](l)",
    "[a [b] c](d)", "[a]( b )", "[a][]", "[]()", "[](x)", "<br>", "<br/>", "<br />", "<br  />",
    "<br >", "a<br>b", "a <br> b", "[x] (y)", "[x]:", "`a `b``", "**[x](y)**", "[x](y),",
    "([x](y))", "`a`.", "`a`..", "[x](y)..", "[x](a_(b)_c)", "[l1\tl2](u)", "`un closed",
    "[un closed", "](x)[y", "`a`b", "a`b`", "`a``b`", "[`c`](d)", "[a`b](c`d)", "`<br>`",
    "[a<br>b](c)", "`[a](b)`", "<br><br>", "...", ".", "`x`.y", "[x](y).z", "[a](b)(c)",
    "[a](b)[", "[a][b](c)", "[a](b)`c`", "`c`[a](b)", "[long text of a link](and-its-url)",
    "`a`.`b`", "[a](b).`c`", "`c`.[a](b)", "[a](b).[c](d)", "<br>.a", "`a`.<br>`b`", "_ _ _", "* * *", "- - -",
    "** **", "_ __",
]


def harvest(root="/repo/markflow"):
    """Numbers and short strings the implementation mentions.

    These only are hints on what is worth trying, as with the dictionaries of fuzzers.
    """
    numbers, strings = set(), set()
    for path in sorted(pathlib.Path(root).rglob("*.py")):
        try:
            tree = ast.parse(path.read_text())
        except (SyntaxError, UnicodeDecodeError, OSError):
            continue
        docs = set()
        for node in ast.walk(tree):
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                docs.add(id(node.value))
            if not isinstance(node, ast.Constant) or id(node) in docs:
                continue
            value = node.value
            if isinstance(value, bool):
                continue
            if isinstance(value, int) and 0 < abs(value) < 3000:
                numbers.add(abs(value))
            elif isinstance(value, str) and 0 < len(value) <= 12:
                strings.add(value)
    return sorted(numbers), sorted(strings)


class Gen:
    """All choices come from r, so they can be repeated."""

    def __init__(self, r, numbers=(), strings=()):
        self.r = r
        self.hints = [n for n in numbers] or [3, 4, 9]
        self.strings = [s for s in strings] or [" "]

    # -------------------------------------------------------------- small things
    def chance(self, p):
        return self.r.random() < p

    def pick(self, options):
        return options[int(self.r.random() * len(options))]

    def count(self, low, high, mean=None):
        return self.r.randint(low, high)

    def word(self):
        r = self.r.random()
        if r < 0.62:
            return self.pick(WORDS)
        if r < 0.86:
            return "".join(
                self.pick("abcdefghijklmnopqrstuvwxyz")
                for _ in range(self.r.randint(1, 11))
            )
        if r < 0.92:
            return self.pick(STARTERS)
        if r < 0.97:
            return self.pick(ATOM_LIST)
        if r < 0.98:
            return self.pick(self.strings).strip() or "s"
        if r < 0.99:
            return self.pick("abcXYZ09é") * self.pick(
                [1, 2, 3, 5, 10, 30] + [n for n in self.hints if n < 200]
            )
        return "".join(self.pick("ab.`[]()<>*-_#~|!\\'\"=+1 ") for _ in range(6)).strip() or "w"

    def plain(self, low=1, high=8):
        return " ".join(
            "".join(self.pick("abcdefghilmnoprstu") for _ in range(self.r.randint(1, 9)))
            for _ in range(self.r.randint(low, high))
        )

    def text(self, low=1, high=10, atoms=0.15):
        """A line of text"""
        parts = []
        for _ in range(self.r.randint(low, high)):
            parts.append(self.pick(ATOM_LIST) if self.chance(atoms) else self.word())
        gap = " " if self.chance(0.93) else self.pick(["  ", "   ", "\t", " \t", "\xa0", ""])
        return gap.join(parts)

    def safe_text(self, low=1, high=10, atoms=0.1):
        """A line of text that starts with a word"""
        return self.plain(1, 1) + (
            " " + self.text(low, high, atoms) if self.chance(0.9) else ""
        )

    # -------------------------------------------------------------------- blocks
    def paragraph(self):
        lines = []
        for k in range(self.pick([1, 1, 1, 1, 2, 2, 3, 5])):
            line = (
                self.safe_text(0, self.pick([3, 6, 12]))
                if self.chance(0.8)
                else self.text(1, 8, self.pick([0, 0.3, 0.8]))
            )
            if self.chance(0.1):
                line = " " * self.r.randint(1, 3 if k == 0 else 8) + line
            if self.chance(0.07):
                line += self.pick(["  ", "   ", " ", "\t", "\\", "  \t"])
            lines.append(line)
        return lines

    def inline(self):
        """A paragraph that is all about what may not be broken"""
        parts = []
        for _ in range(self.r.randint(1, 7)):
            parts.append(
                self.pick(ATOM_LIST) if self.chance(0.6) else self.pick([self.word(), self.plain(1, 3)])
            )
        s = ""
        for p in parts:
            s += (self.pick([" ", " ", " ", " ", "", "  ", ".", ". "]) if s else "") + p
        lines = [s]
        if self.chance(0.4):
            at = [i for i, c in enumerate(s) if c == " "]
            if at:
                i = self.pick(at)
                lines = [s[:i], s[i + 1 :]]
        if self.chance(0.3):
            lines = [self.plain(1, 4)] + lines
        return [l for l in lines if l.strip()] or ["x"]

    def soup(self):
        """Anything"""
        abc = self.pick(
            ["ab `[]()<>br/!. ", "ab #*+-1.>`~|:[]()'\"\\_=<br/  \t", "[]()` ab!.", "a `"]
        )
        return [
            "".join(self.pick(abc) for _ in range(self.r.randint(1, 25)))
            for _ in range(self.r.randint(1, 3))
        ]

    def atx(self):
        n = self.pick([1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8])
        s = "#" * n + self.pick([" ", " ", " ", " ", "  ", "   ", "", "\t"])
        s += self.pick(
            ["", self.text(1, 6, 0.1), self.text(8, 15), self.free(1, 9), "# x", "a # b #", "*", "1. x", "x ##"]
        )
        s += self.pick(["", "", "", "", " #", " ##", "  ", " ###  ", "\t", "#"])
        return [self.pick(["", "", "", "", " ", "  ", "   "]) + s]

    def setext(self):
        lines = self.paragraph()
        if self.chance(0.85):
            lines = [l.rstrip(" ") or "h" for l in lines]
        if self.chance(0.5):
            lines = lines[:1]
        mark = self.pick("=-")
        n = self.pick([1, 1, 2, 3, 3, 5, 10, len(lines[0]), 40, 100])
        return lines + [
            self.pick(["", "", "", " ", "   "]) + mark * max(n, 1) + self.pick(["", "", "", "  "])
        ]

    def thematic(self):
        c = self.pick("*-_")
        n = self.pick([3, 3, 3, 4, 5, 10, 20, 60, 88, 100])
        s = self.pick(["", "", " ", "  "]).join([c] * n)
        return [self.pick(["", "", "", " ", "   "]) + s + self.pick(["", "", " ", "  "])]

    def fenced(self, nested=False):
        c = self.pick("``~")
        n = self.pick([3, 3, 3, 3, 4, 5, 7])
        fence = c * n
        pad = self.pick(["", "", "", "", "", " ", "  ", "   "])
        info = self.pick(
            ["", "", "", "python", " python", "  sh  ", "js {1,3}", "c++", "text  more", " ", "~x", "a=b c"]
        )
        if self.chance(0.12):
            info = self.free(1, self.pick([2, 5]), "`")
        if c == "~" and self.chance(0.1):
            info = self.pick(["`x`", " ~~", "```", "a ~ b"])
        body = []
        for _ in range(self.pick([0, 1, 1, 2, 3, 5])):
            body.append(
                self.pick(
                    [
                        "", "", "    indented", "  two", "\ttab", "code  ", "x = 1 # y", "* item",
                        "- - item", "1. item", "> quote", "# heading", "---", "===", "| a | b |",
                        "```", "~~~", "````", "``` x", " ```", "[a]: b", "a" * 30 + " " + "b" * 30,
                        self.text(3, 9), self.plain(10, 20), "   ", "  * x", "`a", "    ```",
                        "\\", "<br>", "a  b   c", "word\t\tword", self.pick(self.strings),
                    ]
                )
            )
        if self.chance(0.93):
            body = [l for l in body if l.strip() != fence]
            end = [self.pick([pad, pad, "", " ", "    "]) + fence + self.pick(["", "", "", " ", "  "])]
        else:
            end = []
        return [pad + fence + info] + [(pad + l if self.chance(0.8) else l) for l in body] + end

    def indented(self):
        lines = [self.pick(["    ", "    ", "     ", "      ", "        ", "\t   ", "\t    "]) + self.pick(
            ["code", "x = 1", "* item", "# h", "> q", "```", "a  b   c", "code  ", "| a |", "1. x",
             self.text(1, 6), self.plain(10, 15)])]
        for _ in range(self.pick([0, 0, 1, 2, 4])):
            lines.append(
                self.pick(["    ", "    ", "      ", "          "])
                + self.pick(["more", "* x", "y  ", "\tz", self.text(1, 5)])
                if self.chance(0.75)
                else self.pick(["", "", "  ", "     "])
            )
        return lines

    def free(self, low, high, without=""):
        """Any text, also with capitals, without some characters"""
        s = self.text(low, high, 0.05)
        if self.chance(0.3):
            s = self.pick([s.title, s.upper, s.swapcase])()
        if self.chance(0.15):
            i = self.r.randrange(len(s) + 1)
            s = s[:i] + self.pick(["\\\\", "\\", "'", '"', "&amp;", "%20", "\\_", "«é»", "(", ")"]) + s[i:]
        return "".join(c for c in s if c not in without) or "F"

    def definition(self):
        label = self.pick(
            ["a", "label", "two words", "a\\]b", "1", "^note", "É", "a" * self.pick([5, 40]), "*x*", "`c`", " x "]
        )
        if self.chance(0.25):
            label = self.free(1, self.pick([2, 3, 9]), "[]")
        if self.chance(0.03):
            label = "l" * self.pick([990, 997, 998, 999, 1000, 1001])
        url = self.pick(
            ["/u", "http://example.com", "<a", "url'", "x" * 50, "#frag", "mailto:a@b.c", "u(r)l", "a:b", "[x"]
        )
        if self.chance(0.2):
            url = self.free(1, 2, " \t\xa0\u2003") + self.pick(["", "", "/" + "p" * self.pick([40, 100])])
        title = self.pick(
            ["title", "two words", "a  b", "x" * 30 + " " + "y" * 40, self.plain(5, 20), "a \\' b", 'a \\" b', "", "it"]
        )
        if self.chance(0.3):
            title = self.free(1, self.pick([2, 6, 30]))
        q = self.pick("\"'\"'\"")
        quoted = q + title + q
        if self.chance(0.1):
            quoted = self.pick(["(title)", q + title, title + q, quoted + " x", quoted + "x", title])
        head = self.pick(["", "", "", " ", "   ", "    "]) + f"[{label}]:"
        style = self.r.random()
        gap = self.pick([" ", " ", " ", "  ", "\t", ""])
        if style < 0.3:
            lines = [head + gap + url]
        elif style < 0.5:
            lines = [head + gap + url + self.pick([" ", "  "]) + quoted]
        elif style < 0.65:
            lines = [head + gap + url, self.pick(["", "  ", "    "]) + quoted]
        elif style < 0.75:
            lines = [head, self.pick(["", " ", "    "]) + url]
        elif style < 0.82:
            lines = [head, url + " " + quoted]
        elif style < 0.9:
            lines = [head, "  " + url, "  " + quoted]
        elif style < 0.97:
            a, b = title[: len(title) // 2], title[len(title) // 2 :]
            lines = [head + gap + url + " " + q + a, b + q]
            if self.chance(0.4):
                lines = [head + gap + url, q + a, b + q]
        else:
            lines = [head]
        if self.chance(0.05):
            lines[-1] += self.pick([" ", "  ", " extra"])
        return lines

    def definitions(self):
        out = []
        for _ in range(self.pick([1, 1, 2, 3])):
            out += self.definition()
        return out

    def cell(self):
        if self.chance(0.12):
            return self.free(1, self.pick([2, 6, 30]), "|")
        return self.pick(
            ["", "a", "b c", "long cell text", "`x`", "a\\|b", "\\|", "日本", "[l](u)", "1", "-1.5",
             ":--", "**b**", "x" * 20, self.plain(1, 6), self.word().replace("|", "/"), "\\\\", "a\\", "--", ":"]
        )

    def table(self):
        cols = self.pick([1, 2, 2, 3, 3, 4, 6])
        rows = self.pick([0, 1, 1, 2, 3])
        space = self.pick([" ", " ", "", "  "])

        def row(cells, end=True):
            s = "|" + "|".join(space + c + space for c in cells)
            if end or not cells or not cells[-1].strip():
                s += "|"
            return self.pick(["", "", "", " ", "    "] if self.chance(0.1) else [""]) + s + (
                self.pick([" ", "  "]) if self.chance(0.07) else ""
            )

        head = [self.cell() for _ in range(cols)]
        div = [
            self.pick(["-", "--", "---", "---", ":--", "--:", ":-:", ":---:", ":-", "-:", "-" * 10])
            for _ in range(cols)
        ]
        lines = [row(head, self.chance(0.93)), row(div, self.chance(0.95))]
        for _ in range(rows):
            n = cols
            if self.chance(0.02):
                n = max(1, cols + self.pick([-1, 1]))
            lines.append(row([self.cell() for _ in range(n)], self.chance(0.93)))
        if self.chance(0.03):
            lines.pop(self.r.randrange(len(lines)))
        if self.chance(0.02) and len(lines) > 1:
            lines[1] = lines[1].replace("-", self.pick(["", "=", "- -", "x", ":"]), 1)
        return lines or ["| a |"]

    def quote(self, depth=0):
        inner = self.blocks(self.pick([1, 1, 1, 2, 3]), depth + 1, inner=True)
        style = self.r.random()
        if style < 0.55:
            lines = [("> " + l) if l.strip() else self.pick([">", ">", "> "]) for l in inner]
        elif style < 0.7:
            lines = [">" + l for l in inner]
        elif style < 0.8:
            pad = self.pick([" ", "  ", "   "])
            lines = [pad + "> " + l if l.strip() else pad + ">" for l in inner]
        elif style < 0.9:
            lines = [self.pick([">", "> ", ">  ", " >", "   > "]) + l for l in inner]
        else:
            lines = [
                "> " + l if k == 0 or not l.strip() or self.chance(0.5) else l
                for k, l in enumerate(inner)
            ]
        if self.chance(0.08):
            lines.append(self.pick(["lazy line", self.safe_text(1, 5), "  lazy", "* not lazy", "    four"]))
        if self.chance(0.05):
            lines.insert(0, ">")
        if self.chance(0.05):
            lines.append(self.pick([">", "> ", ">>"]))
        return lines

    def entry(self, marker, depth):
        pad = " " * len(marker)
        inner = []
        kind = self.r.random()
        if kind < 0.5:
            inner = self.paragraph()
        elif kind < 0.55:
            inner = [""]
        else:
            for _ in range(self.pick([1, 1, 2])):
                block = self.block(depth + 1, inner=True)
                if not any(l.strip() for l in block):
                    continue
                inner += block
        keep_blank = any(l.strip()[:3] in ("```", "~~~") for l in inner)
        if not keep_blank:
            inner = [l for l in inner if l.strip()] or [self.plain(1, 3)]
        if self.chance(0.1):
            pad = self.pick([" " * max(0, len(marker) - 1), " " * (len(marker) + 1), "", "  ", "    "])
        return [marker + inner[0]] + [pad + l if l else l for l in inner[1:]]

    def bullets(self, depth=0):
        bullet = self.pick("*-+*-")
        indent = self.pick(["", "", "", "", "", " ", "  ", "   "])
        gap = self.pick([" ", " ", " ", " ", "  ", "   "])
        lines = []
        for k in range(self.pick([1, 2, 2, 3, 4]) if depth == 0 else self.pick([1, 1, 2])):
            b = bullet if self.chance(0.95) else self.pick(["*", "-", "+", "1."])
            i = indent if self.chance(0.93) else self.pick(["", " ", "  ", "   ", "    "])
            lines += self.entry(i + b + gap, depth)
        return lines

    def numbers(self, depth=0):
        n = self.pick([1, 1, 1, 1, 0, 2, 3, 7, 8, 9, 10, 42, 98, 99, 100, 999, 12345, 99999999, 999999998,
                       999999999, 1000000000])
        if self.chance(0.1):
            n = self.pick(self.numbers_hint())
        indent = self.pick(["", "", "", "", "", " ", "  ", "   "])
        gap = self.pick([" ", " ", " ", " ", "  ", "   "])
        style = self.pick(["up", "up", "same", "random", "zeros", "down"])
        lines = []
        for k in range(self.pick([1, 2, 2, 2, 3, 3, 4, 11]) if depth == 0 else self.pick([1, 1, 2, 3])):
            m = {"up": n + k, "same": n, "random": self.r.randint(0, 120), "zeros": n + k,
                 "down": max(0, n - k)}[style]
            s = str(m)
            if style == "zeros":
                s = "0" * self.r.randint(0, 3) + s
            if self.chance(0.03):
                s = self.pick(["*", "-", "1)", "a"])
                mark = s + " "
            else:
                mark = s + "." + gap
            i = indent if self.chance(0.93) else self.pick(["", " ", "  ", "   ", "    "])
            lines += self.entry(i + mark, depth)
        return lines

    def numbers_hint(self):
        return self.hints

    def blank(self):
        return [self.pick(["", "", "", "", "", " ", "  ", "    ", "\t", " \t "])]

    def odd(self):
        return self.pick(
                [
                    "* ", "- ", "+ ", "1. ", "*", "-", "+", "1.", "#", "##", ">", "> ", ">>", "```", "~~~",
                    "``` `", "~~~ ~", "``` a`b", "=", "==", "---", "--", "- - -", "* * *", "***", "_ _ _",
                    "|", "||", "| |", "|-|", "[", "[a]", "[a]:", "[a]: b 'c", "'t'", ".", "..", "<br>", "<br/>",
                    "  a", "   a", "    a", "     a", "\ta", "\t", "a  ", "a\\", "1.a", "1) a", "*a", "-a",
                    "#a", ">a", "  * a", "    * a", "   1. a", "    1. a", "0. a", "[a](b", "`a", "a `", "``",
                    "<div>", "</div>", "<!-- c -->", "---a", "a---", "===a", "* # a", "* > a", "> * a",
                    "> # a", "> 1. a", "1. * a", "* 1. a", "* * a", "- - a", "> > a", ">>> a", "> ```", "* ```",
                    "> ---", "* ---", "> a\\", "+ a", "* a  ", "> a  ", "1234567890. a", "# a #", "\\# a", "\\* a",
                    "-- -", "  -- -", "   - --", "_ _ _ a", "* a\n   -- -", "* a\n   - - -", "* a\n  ___", "* a\n    ***",
                    "1. a\n  | |", "* a\n|", "* a\n   |", "#\ta", "##\t\ta", "#\xa0a",
                    "&nbsp;", "\xa0", "\u3000a", "a\x0cb", "a\x0bb", "\x85", "a\u2028b", "\x1c", "a\rb",
                    "\u0661. a", "\u00b2. a", "\uff0a a", "\u2212 a", "\u2022 a", "\uff03 a", "\u2014\u2014\u2014", "\0", "a\0", "* \u0301",
                    "\u200b", "\u200b* a", "<BR>", "a<BR>b", "\xa0* a", "#\xa0a", "*\xa0a", "1.\xa0a", ">\xa0a", "\xa0\xa0\xa0\xa0a",
                ]
            ).split("\n")

    KINDS = ["paragraph", "inline", "atx", "setext", "thematic", "fenced", "indented", "definitions",
             "table", "quote", "bullets", "numbers", "odd", "soup"]
    WEIGHTS = [14, 10, 7, 6, 4, 9, 6, 6, 6, 9, 10, 9, 6, 2]

    def block(self, depth=0, inner=False, focus=None):
        if focus and self.chance(0.6 if depth == 0 else 0.3):
            kind = self.pick(focus)
        else:
            kind = self.r.choices(self.KINDS, self.WEIGHTS)[0]
        if depth >= 3 and kind in ("quote", "bullets", "numbers"):
            kind = "paragraph"
        make = getattr(self, kind)
        return make(depth) if kind in ("quote", "bullets", "numbers") else make()

    def blocks(self, n, depth=0, inner=False, focus=None, apart=None):
        lines = []
        apart = self.pick([1.0, 0.9, 0.6, 0.2]) if apart is None else apart
        for k in range(n):
            if k and self.chance(apart):
                for _ in range(self.pick([1, 1, 1, 1, 2, 3])):
                    lines += self.blank() if self.chance(0.2) else [""]
            start = len(lines)
            lines += self.block(depth, inner, focus)
            if self.chance(0.06):
                # Much like it, but not quite
                lines += [""] * self.pick([1, 1, 0, 2]) + self.alike(lines[start:])
        return lines

    def alike(self, lines):
        """These lines but for a bit of one of them"""
        lines = list(lines)
        for _ in range(self.pick([1, 1, 1, 2])):
            full = [k for k, l in enumerate(lines) if any(x.isalnum() for x in l)]
            if not full:
                return lines
            k = self.pick(full[1:-1] or full) if self.chance(0.6) else self.pick(full)
            l = lines[k]
            i = self.pick([i for i, x in enumerate(l) if x.isalnum()])
            if l[i].isdigit():
                new = self.pick("0123456789")
            else:
                new = self.pick("abcxyzABXY") if self.chance(0.7) else self.pick(["", "xx", "a b", "w" * 9])
            lines[k] = l[:i] + new + l[i + 1 :]
        return lines

    def damaged(self, s):
        for _ in range(self.pick([1, 1, 2, 3])):
            i = self.r.randrange(len(s) + 1)
            what = self.r.random()
            if what < 0.35:
                s = s[:i] + s[i + 1 :]
            elif what < 0.75:
                s = s[:i] + self.pick(" \n\t*#>-=|`~[]()<>:.1'\"\\_+!\r\xa0é" + "  \n\n") + s[i:]
            elif what < 0.85:
                j = self.r.randrange(len(s) + 1)
                s = s[: min(i, j)] + s[max(i, j) :] if abs(i - j) < 20 else s
            elif what < 0.95:
                j = min(len(s), i + self.r.randint(1, 12))
                s = s[:j] + s[i:j] + s[j:]
            else:
                s = s[:i] + self.pick(self.strings) + s[i:]
        return s

    def tiny(self):
        return "\n".join("\n".join(self.odd()) for _ in range(self.r.randint(1, 5)))

    def extreme(self):
        kind = self.pick(["word", "deep", "deepquote", "long", "wide", "code", "para", "blank", "para"])
        if kind == "word":
            n = self.pick([50, 88, 89, 200, 400])
            return self.plain(0, 5) + " " + "w" * n + " " + self.plain(1, 9)
        if kind == "deep":
            n = self.r.randint(3, 7)
            lines = []
            indent = ""
            for _ in range(n):
                m = self.pick(["* ", "- ", "1. ", "10. "])
                lines.append(indent + m + self.plain(1, 12))
                indent += " " * len(m)
            return "\n".join(lines)
        if kind == "deepquote":
            n = self.r.randint(3, 7)
            return "\n".join(
                "> " * self.r.randint(1, n) + self.plain(1, 12) for _ in range(self.r.randint(1, 5))
            )
        if kind == "long":
            n = self.r.randint(9, 40)
            m = self.pick(["*", "1"])
            first = self.pick([1, 1, 90, 95])
            return "\n".join(
                ("* " if m == "*" else f"{first + k}. ") + self.plain(1, 4) for k in range(n)
            )
        if kind == "wide":
            cols = self.r.randint(5, 12)
            return "\n".join(
                ["|" + "|".join(self.plain(1, 2) for _ in range(cols)) + "|", "|" + "---|" * cols]
                + ["|" + "|".join(self.plain(1, 2) for _ in range(cols)) + "|" for _ in range(4)]
            )
        if kind == "code":
            return "```\n" + "\n".join(self.text(1, 30) for _ in range(20)) + "\n```"
        if kind == "blank":
            return "\n" * self.r.randint(1, 12) + self.plain(1, 3) + "\n" * self.r.randint(0, 12)
        return "\n".join(self.text(5, 25) for _ in range(self.r.randint(3, 8)))

    def widths(self, text):
        r = self.r.random()
        if r < 0.35:
            return self.pick([88, 88, 80, 79, 72, 60, 100, 120])
        if r < 0.6:
            return self.r.randint(1, 60)
        if r < 0.72:
            lines = [len(l) for l in text.splitlines()] or [1]
            return max(1, self.pick(lines) + self.pick([-2, -1, 0, 0, 1]))
        if r < 0.8:
            return self.pick([1, 2, 3, 4, 5, 6, 7, 8, 10])
        if r < 0.9:
            return INF
        if r < 0.95:
            return self.pick([0, -1, -3, -100])
        return self.pick(self.hints)

    def document(self, focus=None):
        r = self.r.random()
        if r < 0.04:
            s = self.tiny()
        elif r < 0.06:
            s = self.extreme()
        else:
            n = self.pick([1, 1, 1, 2, 2, 3, 4]) if r < 0.98 else self.r.randint(6, 14)
            s = "\n".join(self.blocks(n, focus=focus))
        if self.chance(0.12):
            s = self.damaged(s)
        s += self.pick(["\n", "\n", "\n", "", "\n\n", "\n \n", "  \n", "\n\n\n"])
        if self.chance(0.03):
            s = self.pick(["\n", "\n\n", " \n", "  ", "\ufeff"]) + s
        if self.chance(0.03):
            s = s.replace("\n", self.pick(["\r\n", "\r", "\u2028", "\x0b", "\x0c"]))
        return s

    def case(self, focus=None):
        s = self.document(focus)
        return s, self.widths(s)
