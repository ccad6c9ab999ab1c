"""All documents of a few lines (or, of running text, a few tokens) out of those that matter."""
import itertools

LINES = {
    "tiny": (3, (3, 88), ["", "a", "a b  ", "# a", "* a", "  b", "1. a", "> a", "```", "    a",
                          "---", "===", "|a|", "|-|", "[a]: b", "'t'", "* "]),
    "code": (4, (9,), ["", "a", "```", "  ```", "~~~", "````", "```b", "``` `", "    c", "  \t",
                       "* ```", "> ```"]),
    "lists": (4, (6,), ["", "* a b", "- c", "  * d", "9. e", "   f", "   2. g", "    h", "*", "# i"]),
    "quotes": (4, (6,), ["", "> a b", ">c", "> > d", ">", "> * e", "f", ">   ", "===", ">     g"]),
    "definitions": (4, (7,), ["", "[a]:", "[a]: b", "[a]: b 'c", "b", "'c", "d e'", "'f'", "(g)",
                              "  [h]: i \"j\" "]),
    "tables": (4, (5,), ["", "|a|b|", "|-|-|", "|:-:|-:|", "|a\\|b|:-|", "|", "||", " | c | d",
                         "|-", "e"]),
    "headings": (4, (5,), ["", "# a", "##b #", "a b", "c  ", "===", "-", "---", "    d", "  - -",
                          "* * *", "#"]),
    "entries": (4, (9,), ["* a", " 1. b", "   -- -", "  ---", "     _ _", "   | |", "||", "***", "    c  "]),
}
TOKENS = {
    "inline": (4, (4,), ["a", "b c", " ", "`", "``", "[d", "](", "][", "]", ")", "<br>", "\\", ".",
                         "  \n"]),
    "links": (4, (4,), ["](", "][", ")", "]", "b", "- c", "1. ", "* ", " ", "<br>", "\n", "`", "#", "."]),
    "points": (4, (3,), ["`a`", "`b", "[c](d)", "[e][f]", "<br>", ".", "..", " ", "\n", "g"]),
    "text": (4, (3,), ["a", "bc", " ", "\n", "  ", "-", "1.", "#", "\t", "=", "+", ">", "***", "|"]),
    "starts": (4, (3,), ["_ ", "* ", "- ", "= ", "a", "\n", "**", "--", "__ ", "1. "]),
}


def documents(name):
    """The documents of a family, with their line lengths"""
    if name in LINES:
        most, widths, lines = LINES[name]
        for n in range(1, most + 1):
            for chosen in itertools.product(lines, repeat=n):
                for width in widths:
                    yield "\n".join(chosen) + "\n", width
    else:
        most, widths, tokens = TOKENS[name]
        for n in range(1, most + 1):
            for chosen in itertools.product(tokens, repeat=n):
                for width in widths:
                    yield {"links": "x [a", "starts": ""}.get(name, "x") + "".join(chosen), width
