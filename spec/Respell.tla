------------------------------- MODULE Respell -------------------------------
(***************************************************************************)
(* Other spellings of the same document.                                   *)
(*                                                                         *)
(* A spelling is changed by steps.  Each step respells the sections of one *)
(* document in one way (a number of Ways), and decides where and how       *)
(* exactly by numbers drawn from z (a sequence of numbers).  None of them  *)
(* should make any difference to what is delivered.                        *)
(***************************************************************************)
EXTENDS Views

\* The k-th choice out of 0..n-1
Draw(z, k, n) == z[(k % Len(z)) + 1] % n
Odd(z, k) == Draw(z, k, 2) = 1

----------------------------------------------------------------------------
\* White space at the ends of lines that isn't a hard line break
Stray(z, k) ==
  LET x == Draw(z, k, 9)
  IN  CASE x = 0 -> <<SP>> [] x = 1 -> <<9>> [] x = 2 -> <<SP, 9>>
        [] x = 3 -> <<9, 9>> [] x = 4 -> <<9, SP>> [] x = 5 -> <<SP, SP, 9>> [] OTHER -> <<>>
Trailed(l, z, k) == IF HardBreak(l) THEN l ELSE l \o Stray(z, k)
\* (for lines where there are no hard line breaks)
TrailedMore(l, z, k) == l \o Stray(z, k) \o Spaces(Draw(z, k + 1, 4))

Index(s) == [k \in 1..Len(s) |-> k]
MapIndexed(s, Op(_, _)) == [k \in 1..Len(s) |-> Op(s[k], k)]

\* Text that has nothing that could be code (where white space matters), and no white
\* space other than spaces (which divides no words)
NoCode(ls) == \A k \in 1..Len(ls) : Find(Strip(ls[k]), 1, LAMBDA c : c = TICK \/ (IsSpace(c) /\ c # SP)) = 0

----------------------------------------------------------------------------
(* Other line ends of running text                                           *)

\* A word that neither begins a section nor continues one in some special way
Harmless(word) ==
  /\ word # <<>>
  /\ \/ word[1] >= 97 /\ word[1] <= 122
     \/ word[1] >= 65 /\ word[1] <= 90

\* Divides words into lines.  A line ends before a word only if that is harmless.
RECURSIVE Refill(_, _, _)
Refill(words, z, k) ==
  FoldLeft(LAMBDA acc, i :
             IF i = 1 THEN <<words[1]>>
             ELSE IF Harmless(words[i]) /\ Draw(z, k + i, 3) = 0 THEN Append(acc, words[i])
             ELSE [acc EXCEPT ![Len(acc)] = @ \o Spaces(1 + (Draw(z, k + i, 7) \div 6)) \o words[i]],
           <<>>, Index(words))

Rewrapped(ls, z, k) ==
  LET hard == HardBreak(ls[Len(ls)])
      lines == Refill(Words(Join(ls, <<SP>>)), z, k)
      n == Len(lines)
  IN  IF ~NoCode(ls) THEN ls
      ELSE IF hard THEN [lines EXCEPT ![n] = @ \o Spaces(2 + Draw(z, k, 3))]
      ELSE lines

\* Indentation that makes no difference
Inset(ls, z, k) ==
  MapIndexed(ls, LAMBDA l, i :
    IF i = 1 THEN (IF Indent(l) = 0 THEN Spaces(Draw(z, k, 4)) \o l ELSE l)
    ELSE IF Harmless(Strip(l)) THEN Spaces(Draw(z, k + i, 7)) \o LStrip(l) ELSE l)

----------------------------------------------------------------------------
(* Tables                                                                    *)

Padded(cell, z, k) == Spaces(Draw(z, k, 4)) \o cell \o Spaces(1 + Draw(z, k + 1, 3))

RespellTable(ls, z, k) ==
  IF ~TableParts(ls).ok \/ \E i \in 1..Len(ls) : Cells(ls[i]) = <<>> THEN ls
  ELSE MapIndexed(ls, LAMBDA l, i :
    LET cs == Cells(l)
        divider == i = 2
        Dashes(c) == (IF StartsWithChar(c, COLON) THEN <<COLON>> ELSE <<>>)
                     \o Rep(DASH, 1 + Draw(z, k + i, 6))
                     \o (IF EndsWithChar(c, COLON) /\ Len(c) > 1 THEN <<COLON>> ELSE <<>>)
        spelled == MapIndexed(cs, LAMBDA c, j :
                     Padded(IF divider /\ HasSub(c, <<DASH>>) THEN Dashes(c) ELSE c, z, k + i + 3 * j))
        open == cs[Len(cs)] # <<>> /\ Draw(z, k + i, 5) = 0
    IN  <<BAR>> \o Join(spelled, <<BAR>>) \o (IF open THEN <<>> ELSE <<BAR>>))

----------------------------------------------------------------------------
(* Lists                                                                     *)

\* The bullets after the first one, and the numbers after the first one
RespellMarkers(sec, z, k) ==
  LET es == Entries(sec.lines)
      Mark(e, i) ==
        LET l == e[1]
            a == Indent(l)
            b == ItemMarkerEnd(l)
            marker ==
              IF sec.k = BULLETS
              THEN (CASE Draw(z, k + i, 3) = 0 -> <<STAR>> [] Draw(z, k + i, 3) = 1 -> <<DASH>>
                      [] OTHER -> <<PLUS>>)
              ELSE \* (as long as it was)
                   MapIndexed(SubSeq(l, a + 1, b - 1), LAMBDA c, j :
                     IF IsDigit(c) THEN 48 + Draw(z, k + i + j, 10) ELSE c) \o <<DOT>>
            respelled == SubSeq(l, 1, a) \o marker \o Tail1(l, b + 1)
        IN  IF i = 1 \/ (sec.k = BULLETS /\ b # a + 1)
               \/ (sec.k = NUMBERS /\ l[b] # DOT) \/ IsThematic(respelled) \/ IsThematic(l)
            THEN e ELSE <<respelled>> \o Tail(e)
  IN  Flatten(MapIndexed(es, Mark))

\* All of a list is indented.
RespellIndent(sec, z, k) ==
  LET room == 3 - Indent(sec.lines[1])
      pad == Spaces(IF room <= 0 THEN 0 ELSE Draw(z, k, room + 1))
  IN  IF \E i \in 1..Len(sec.lines) : Blank(sec.lines[i]) THEN sec.lines
      ELSE MapSeq(sec.lines, LAMBDA l : pad \o l)

----------------------------------------------------------------------------
(* Quotes                                                                    *)

\* Markers may be indented.
RespellQuote(ls, z, k) ==
  MapIndexed(ls, LAMBDA l, i :
    IF IsQuote(l) THEN Spaces(Draw(z, k + i, 4)) \o LStrip(l) ELSE l)

\* Paragraphs go on without markers.
LazyQuote(ls, z, k) ==
  LET inner == QuoteContent(ls)
      secs == Sections(inner)
      n == IF secs = <<>> THEN 0 ELSE Len(secs[Len(secs)].lines)
      first == Len(ls) - n + 2
  IN  IF secs = <<>> \/ secs[Len(secs)].k # PARAGRAPH \/ n < 2 THEN ls
      ELSE MapIndexed(ls, LAMBDA l, i :
             IF i >= first /\ Harmless(Strip(inner[i])) /\ Odd(z, k + i) THEN inner[i] ELSE l)

----------------------------------------------------------------------------
Ways == 1..9
LINES == 1      \* white space at the ends of lines
FILL == 2       \* where running text is divided into lines
INDENT == 3     \* indentation that doesn't matter
LENGTHS == 4    \* lengths of underlines and thematic breaks, spaces in the latter
CELLS == 5      \* padding of tables
MARKS == 6      \* bullets and numbers after the first
FENCES == 7     \* white space around fences
QUOTES == 8     \* markers of quotes
GAPS == 9       \* white space within definitions

RespellSection(sec, way, z, k) ==
  LET ls == sec.lines
      n == Len(ls)
      tight == sec.k \notin {PARAGRAPH, SETEXT, BULLETS, NUMBERS, QUOTE}
  IN
  CASE way = LINES /\ sec.k = BLANK -> <<Stray(z, k) \o Spaces(Draw(z, k, 6))>>
    [] way = LINES /\ sec.k \in {ATX, FENCED, INDENTED, TABLE, THEMATIC, SETEXT} ->
         MapIndexed(ls, LAMBDA l, i :
           IF sec.k = SETEXT /\ i < n THEN Trailed(l, z, k + i)
           ELSE IF sec.k = INDENTED /\ Blank(l) THEN l
           ELSE TrailedMore(l, z, k + i))
    [] way = LINES /\ sec.k = PARAGRAPH ->
         IF HardBreak(ls[n])
         THEN [MapIndexed(ls, LAMBDA l, i : Trailed(l, z, k + i)) EXCEPT ![n] = @ \o Spaces(Draw(z, k, 3))]
         ELSE MapIndexed(ls, LAMBDA l, i : Trailed(l, z, k + i))
    [] way = FILL /\ sec.k = PARAGRAPH -> Rewrapped(ls, z, k)
    [] way = FILL /\ sec.k = SETEXT -> Rewrapped(SubSeq(ls, 1, n - 1), z, k) \o <<ls[n]>>
    [] way = INDENT /\ sec.k \in {PARAGRAPH, ATX, THEMATIC} -> Inset(ls, z, k)
    [] way = INDENT /\ sec.k = SETEXT ->
         Inset(SubSeq(ls, 1, n - 1), z, k) \o <<Spaces(Draw(z, k, 4)) \o Strip(ls[n])>>
    [] way = INDENT /\ sec.k \in {BULLETS, NUMBERS} -> RespellIndent(sec, z, k)
    [] way = INDENT /\ sec.k = TABLE -> MapIndexed(ls, LAMBDA l, i : Spaces(Draw(z, k + i, 4)) \o LStrip(l))
    [] way = INDENT /\ sec.k = DEFINITION /\ Indent(ls[1]) = 0 -> [ls EXCEPT ![1] = Spaces(Draw(z, k, 4)) \o @]
    [] way = LENGTHS /\ sec.k = SETEXT ->
         [ls EXCEPT ![n] = Rep(FirstChar(@), 1 + Draw(z, k, 9))]
    [] way = LENGTHS /\ sec.k = THEMATIC ->
         LET c == FirstChar(ls[1])
             gap == Spaces(Draw(z, k, 3))
         IN  <<Join(Rep(<<c>>, 3 + Draw(z, k + 1, 7)), gap)>>
    [] way = CELLS /\ sec.k = TABLE -> RespellTable(ls, z, k)
    [] way = MARKS /\ sec.k \in {BULLETS, NUMBERS} -> RespellMarkers(sec, z, k)
    [] way = FENCES /\ sec.k = FENCED ->
         LET fence == FenceOf(ls[1])
             info == FenceInfo(ls[1])
             closed == n > 1 /\ Strip(ls[n]) = fence
         IN  <<Spaces(Draw(z, k, 4)) \o fence \o Spaces(Draw(z, k + 1, 3)
                 + (IF StartsWithChar(info, fence[1]) THEN 1 ELSE 0)) \o info \o Spaces(Draw(z, k + 2, 3))>>
             \o FenceCode(ls)
             \o (IF closed THEN <<Spaces(Draw(z, k + 3, 4)) \o fence \o Spaces(Draw(z, k + 4, 3))>> ELSE <<>>)
    [] way = QUOTES /\ sec.k = QUOTE ->
         IF Odd(z, k) THEN RespellQuote(ls, z, k) ELSE LazyQuote(ls, z, k)
    [] way = GAPS /\ sec.k = ATX ->
         LET d == AtxLevel(ls[1]) c == AtxContent(ls[1])
         IN  <<Rep(HASH, d) \o (IF c = <<>> THEN <<>> ELSE Spaces(1 + Draw(z, k, 4)) \o c) \o Spaces(Draw(z, k, 3))>>
    [] way = GAPS /\ sec.k = DEFINITION ->
         LET p == DefinitionParts(ls)
             at == Spaces(1 + Draw(z, k, 3))
         IN  IF n = 1 /\ p.link # <<>>
             THEN <<(<<LBRA>> \o p.label \o <<RBRA, COLON>>) \o at \o p.link
                    \o (IF p.title = <<>> THEN <<>> ELSE at \o Join(Words(p.title), at))>>
             ELSE ls
    [] OTHER -> ls

\* Respells all sections in one way.
RespellLines(lines, way, z) ==
  LET secs == Sections(lines)
      all == MapIndexed(secs, LAMBDA sec, i : RespellSection(sec, way, z, 5 * i))
  IN  Flatten(all)

\* Other line ends, and another end of the text
RespellText(lines, z) ==
  LET end == CASE Draw(z, 1, 4) = 0 -> <<13, 10>> [] Draw(z, 1, 4) = 1 -> <<13>> [] OTHER -> <<10>>
      n == Len(lines)
      tail == IF Draw(z, 2, 4) = 0 THEN <<>>
              ELSE Flatten([k \in 1..(1 + Draw(z, 3, 3)) |-> (IF k > 1 THEN Spaces(Draw(z, 4 + k, 3)) ELSE <<>>) \o end])
  IN  Join(lines, end) \o tail
=============================================================================
