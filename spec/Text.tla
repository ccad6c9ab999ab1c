------------------------------- MODULE Text -------------------------------
(***************************************************************************)
(* Texts are sequences of Unicode code points, documents are sequences of  *)
(* lines.  This module holds the character classes and string operations   *)
(* the rest of the specification is written with.  They follow the         *)
(* definitions of the host language (Python's str.strip, str.split,        *)
(* str.splitlines, and \s of its regular expressions), because those       *)
(* decide what a user sees.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

SP == 32
TAB == 9
BANG == 33
DQUOTE == 34
HASH == 35
SQUOTE == 39
LPAR == 40
RPAR == 41
STAR == 42
PLUS == 43
DASH == 45
DOT == 46
SLASH == 47
COLON == 58
LT == 60
EQ == 61
GT == 62
LBRA == 91
BSLASH == 92
RBRA == 93
UNDER == 95
TICK == 96
BAR == 124
TILDE == 126

IsSpace(c) ==
  \/ c = 32
  \/ c <= 31 /\ (c >= 28 \/ (c >= 9 /\ c <= 13))
  \/ c > 127 /\ c \in {133, 160, 5760, 8192, 8193, 8194, 8195, 8196, 8197, 8198,
                       8199, 8200, 8201, 8202, 8232, 8233, 8239, 8287, 12288}
NotSpace(c) == ~IsSpace(c)

\* What ends a line (str.splitlines).
IsBreak(c) ==
  \/ c <= 30 /\ (c >= 28 \/ (c >= 10 /\ c <= 13))
  \/ c > 127 /\ c \in {133, 8232, 8233}

IsDigit(c) == c >= 48 /\ c <= 57
IsAlnum(c) == IsDigit(c) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ (c > 127 /\ NotSpace(c))

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* The first index >= i whose element passes the test, 0 if there is none.
Find(s, i, Test(_)) ==
  IF i > Len(s) THEN 0
  ELSE LET k == SelectInSeq(SubSeq(s, i, Len(s)), Test)
       IN  IF k = 0 THEN 0 ELSE k + i - 1

\* As Find, but one past the end if there is none.
FindOrEnd(s, i, Test(_)) ==
  LET k == Find(s, i, Test) IN IF k = 0 THEN Len(s) + 1 ELSE k

\* The last index whose element passes the test, 0 if there is none.
FindLast(s, Test(_)) == SelectLastInSeq(s, Test)

Tail1(s, i) == SubSeq(s, i, Len(s))

LStrip(s) == IF s # <<>> /\ IsSpace(s[1]) THEN Tail1(s, FindOrEnd(s, 1, NotSpace)) ELSE s
RStrip(s) == IF s # <<>> /\ IsSpace(s[Len(s)]) THEN SubSeq(s, 1, FindLast(s, NotSpace)) ELSE s
Strip(s)  == RStrip(LStrip(s))
Blank(s)  == s = <<>> \/ (IsSpace(s[1]) /\ SelectInSeq(s, NotSpace) = 0)
\* The number of leading white space characters (a tab counts as one).
Indent(s) == FindOrEnd(s, 1, NotSpace) - 1

Rep(c, n) == [k \in 1..n |-> c]
Spaces(n) == Rep(SP, n)

\* The number of times c is repeated at the beginning of s.
RunLen(s, c) == IF s = <<>> \/ s[1] # c THEN 0 ELSE FindOrEnd(s, 1, LAMBDA x : x # c) - 1
LStripChar(s, c) == Tail1(s, RunLen(s, c) + 1)

StartsWithChar(s, c) == s # <<>> /\ s[1] = c
EndsWithChar(s, c) == s # <<>> /\ s[Len(s)] = c
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

\* The first index >= i at which p occurs in s, 0 if it doesn't.
RECURSIVE FindSub(_, _, _)
FindSub(s, p, i) ==
  LET k == Find(s, i, LAMBDA x : x = p[1])
  IN  IF k = 0 \/ k + Len(p) - 1 > Len(s) THEN 0
      ELSE IF SubSeq(s, k, k + Len(p) - 1) = p THEN k
      ELSE FindSub(s, p, k + 1)
HasSub(s, p) == FindSub(s, p, 1) # 0

\* Everything that isn't white space (in order).
Squeeze(s) == SelectSeq(s, NotSpace)

Flatten(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
\* ss joined with sep in between
Join(ss, sep) ==
  IF ss = <<>> THEN <<>>
  ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, ss[1], Tail(ss))

MapSeq(s, Op(_)) == SubSeq([k \in 1..Len(s) |-> Op(s[k])], 1, Len(s))

\* str.split(): the words of s
RECURSIVE WordsFrom(_, _)
WordsFrom(s, i) ==
  LET a == Find(s, i, NotSpace)
  IN  IF a = 0 THEN <<>>
      ELSE LET b == FindOrEnd(s, a, IsSpace)
           IN  <<SubSeq(s, a, b - 1)>> \o WordsFrom(s, b)
Words(s) == WordsFrom(s, 1)

\* str.split(maxsplit=1): at most two parts
Split1(s) ==
  LET a == Find(s, 1, NotSpace)
  IN  IF a = 0 THEN <<>>
      ELSE LET b == FindOrEnd(s, a, IsSpace)
               d == Find(s, b, NotSpace)
           IN  IF d = 0 THEN <<SubSeq(s, a, b - 1)>>
               ELSE <<SubSeq(s, a, b - 1), Tail1(s, d)>>

\* str.splitlines()
RECURSIVE LinesFrom(_, _)
LinesFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET b == FindOrEnd(s, i, IsBreak)
           n == IF b < Len(s) /\ s[b] = 13 /\ s[b + 1] = 10 THEN b + 2 ELSE b + 1
       IN  <<SubSeq(s, i, b - 1)>> \o LinesFrom(s, n)
SplitLines(s) == LinesFrom(s, 1)

\* Text made of lines that each end with a line feed
Unlines(lines) == FoldLeft(LAMBDA a, b : a \o b \o <<10>>, <<>>, lines)

\* A number (>= 0, sequence of decimal digits) plus one.  Numbers of lists have up to
\* nine digits, but the ones that follow may have more, so they are kept as digits.
RECURSIVE DigitsPlus1(_)
DigitsPlus1(d) ==
  IF d = <<>> THEN <<49>>
  ELSE LET n == Len(d) IN
       IF d[n] # 57 THEN [d EXCEPT ![n] = d[n] + 1]
       ELSE DigitsPlus1(SubSeq(d, 1, n - 1)) \o <<48>>
\* Without leading zeros (but at least one digit)
Canonical(d) ==
  LET k == Find(d, 1, LAMBDA c : c # 48) IN IF k = 0 THEN <<48>> ELSE Tail1(d, k)

\* Unlimited line length.  It stays unlimited inside of containers.
Infinite == 1000000
IsInfinite(w) == w >= 500000
=============================================================================
