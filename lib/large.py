"""Documents of thousands of lines or dozens of levels.

What the specification makes of a small document of some shape (its outcome) has to become of
a large one, in seconds.
"""
import random

WORDS = "alpha beta gamma delta "
SHAPES = {
'paragraph lines':lambda n: (WORDS+"\n")*n,
'one line':lambda n: WORDS*n+"\n",
'one word':lambda n: "x"*n*20+"\n",
'paragraphs':lambda n: (WORDS*5+"\n\n")*n,
'hard breaks':lambda n: (WORDS+"  \n")*n,
'brs':lambda n: (WORDS+"<br>\n")*n,
'code spans':lambda n: "`a b` c "*n+"\n",
'ticks':lambda n: "` a "*n+"\n",
'growing ticks':lambda n: " ".join("`"*k for k in range(1,n//10+2))+"\n",
'open brackets':lambda n:"["*n+"\n",
'open brackets words':lambda n:"[a "*n+"\n",
'images':lambda n:"![a][b] "*n+"\n",
'links':lambda n:"[a](b) "*n+"\n",
'links glued':lambda n:"[a](b)"*n+"\n",
'nested links':lambda n:"["*(n//4)+"a"+"](b)"*(n//4)+"\n",
'lt':lambda n:"<br "*n+"\n",
'bullets':lambda n:"* a b c\n"*n,
'nested bullets':lambda n:"".join("  "*k+"* a\n" for k in range(min(60,n//10+1))),
'numbers':lambda n:"1. a\n"*n,
'entries with lines':lambda n:"* a\n  b\n  c\n"*n,
'entry with lines':lambda n:"* a\n"+"  b\n"*n,
'quote':lambda n:"> a\n"*n,
'quote blank':lambda n:"> a\n>\n"*n,
'nested quotes':lambda n:">"*min(60,n//10+1)+" a\n",
'lazy':lambda n:"> a\n"+"b\n"*n,
'growing quotes':lambda n:"".join(">"*k+" a\n" for k in range(1,min(40,n//10+2))),
'quotes and text':lambda n:"> a\n\nb\n\n"*n,
'quoted fence':lambda n:"> ```\n"+"> a\n"*n+"> ```\n",
'alternating':lambda n:"> a\nb\n"*(n//10),
'fence':lambda n:"```\n"+"a\n"*n+"```\n",
'open fence':lambda n:"```\n"+"a\n"*n,
'fences':lambda n:"```\na\n```\n"*n,
'indented':lambda n:"    a\n"*n,
'indented blank':lambda n:"    a\n\n"*n,
'list fences':lambda n:"* ```\n  a\n  ```\n"*n,
'table':lambda n:"|a|b|\n|-|-|\n"+"|c|d|\n"*n,
'wide table':lambda n:"|"+"a|"*n+"\n|"+"-|"*n+"\n",
'definitions':lambda n:"[a]: b 'c'\n"*n,
'definition lines':lambda n:"[a]:\nb\n'c'\n"*n,
'open title':lambda n:"[a]: b\n'"+"c\n"*n,
'open titles':lambda n:"[a]: b\n'c\n"*n,
'open title long':lambda n:"[a]: b '"+WORDS*n+"\n",
'backslashes':lambda n:"[a]: b '"+"\\"*n+"'\n",
'backslash bars':lambda n:"|"+"\\|"*n+"|\n|-|\n",
'headings':lambda n:"# a\n"*n,
'setext':lambda n:"a\n===\n"*n,
'setext lines':lambda n:WORDS*n+"\n===\n",
'breaks':lambda n:"---\n"*n,
'break long':lambda n:"- "*n*3+"\n",
'blank':lambda n:"\n"*n,
'spaces':lambda n:"a"+" "*n+"b\n",
'spaces end':lambda n:("a"+" "*50+"\n")*n,
'digits':lambda n:"1"*n+". a\n",
'hashes':lambda n:"#"*n+"\n",
'dashes text':lambda n:"-"*n+"a\n",
'bars':lambda n:"|"*n+"\n|-|\n",
'lists in quotes':lambda n:"> * a\n>   b\n"*n,
'quotes in lists':lambda n:"* > a\n  > b\n"*n,
'mixed nesting':lambda n:"".join(("  "*k+"> ") for k in range(1)) + "> * "*min(25,n//20+1)+"a\n",
'words starting sections':lambda n:"a # > - 1. "*n+"\n",
'dash words':lambda n:"- "*1+"a - "*n+"\n",
'tabs':lambda n:"a\tb\t"*n+"\n",
}

# Those that take longer
SMALLER = {"lazy": 200, "alternating": 1000, "one word": 1000, "open brackets": 1000}


def deep(r, depth):
    """Containers in containers"""
    inner = r.choice([["a b c"], ["a b c", "", "d"], ["# a"], ["a", "b"]])
    for _ in range(depth):
        kind = r.choice("qqbn")
        if kind == "q":
            inner = ["> " + line if line else ">" for line in inner]
            if r.random() < 0.3:
                inner = ["> x", ">"] + inner
            if r.random() < 0.3:
                inner = inner + [">", "> y"]
        else:
            marker = "* " if kind == "b" else "1. "
            inner = [line for line in inner if line]
            pad = " " * len(marker)
            inner = [marker + inner[0]] + [pad + line for line in inner[1:]]
            if r.random() < 0.3:
                inner = [marker + "x"] + inner
    return "\n".join(inner) + "\n"


# Where one character is repeated very often, and what comes after it
PLACES = ["{}", "a {}", "a{}", "a b\n{}", "* {}", "> {}", "# {}", "1. a\n{}", "a\n\n    {}", "[a]: {}", "[a]: b '{}'",
          "[a]: b '{}", "[{}]: b", "[{}](b)", "[a]({})", "![{}]", "`{}`", "`{}", "```{}\na\n```", "```\n{}\n```",
          "|{}|\n|-|", "|a|\n|-|\n|{}|", "|a|\n|{}|", "|a|b|\n|-|{}", "<br{}>", "<{}", "a{}\nb", "a  {}\nb", "a\n{}\n---",
          "> {}\nb", "1{}. a", "a\n==={}"]
CHARACTERS = ["-", "*", "_", "=", "+", "#", ">", "`", "~", "|", ":", "[", "]", "(", ")", "!", "<", "\\", "'", '"', ".",
              " ", "1", "a", "- ", "* ", "> ", "a ", "\t", "_*", "-*", "[]", "()", "](", "\\|", "-|", ":-", "' '", "` "]
ENDS = ["", "a", " a", "!", " ", "\n", "\na", " -", "|", "]", ")", "'", "`"]

# What the specification may refuse (as it says about small documents), wherever it comes
TAILS = ["a\n* \n", "> a\n===\nb\n", "a\n* b\n", "> a\n---\nb\n", "a\n1. \n", "|a|\n|-|\n|b|c|\n", "a\nb\n"]


def pairs(seed, size, tails=False):
    """(small, large) documents

    With tails, they are followed by something that may be refused.
    """
    r = random.Random(f"large-{seed}")
    if tails:
        for k in range(size // 8):
            tail = r.choice(TAILS)
            name = r.choice(["paragraph lines", "paragraphs", "bullets", "quote", "fence", "definitions", "headings", "table",
                             "code spans", "one line", "breaks", "indented blank", "quotes in lists", "hard breaks"])
            n = r.randint(size // 8, size)
            yield f"{name}, then {tail!r}", SHAPES[name](3) + "\n" + tail, SHAPES[name](n) + "\n" + tail
        return
    for name, shape in SHAPES.items():
        n = min(size, SMALLER.get(name, size))
        n = r.randint(n * 3 // 4, n)
        yield name, shape(3), shape(n)
    for k in range(size // 50):
        s = r.random()
        small = deep(random.Random(s), 3)
        yield f"deep {k}", small, deep(random.Random(s), r.randint(8, 40))
    for k in range(size // 4):
        place, char, end = r.choice(PLACES), r.choice(CHARACTERS), r.choice(ENDS)
        # (MarkFlow takes some two hundred levels of nesting.)
        n = r.choice([40, 41, 60] if char.strip() in ("-", "*", ">", "+") else [40, 41, 200, size * 2])
        even = n % 2
        yield f"{place} {char} {end}", place.format(char * (4 + even)) + end + "\n", place.format(char * n) + end + "\n"
