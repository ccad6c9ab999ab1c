------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* What every section is reformatted to.                                   *)
(*                                                                         *)
(* FormatLines(lines, w) is [ok |-> TRUE, lines |-> the lines] or, if a    *)
(* table isn't well-formed, [ok |-> FALSE, lines |-> <<>>].                *)
(***************************************************************************)
EXTENDS Blocks, Inline

Ok(ls) == [ok |-> TRUE, lines |-> ls]
Malformed == [ok |-> FALSE, lines |-> <<>>]

----------------------------------------------------------------------------
AtxLevel(l) == RunLen(Strip(l), HASH)
AtxContent(l) == Strip(LStripChar(Strip(l), HASH))
FormatAtx(l) ==
  LET c == AtxContent(l) IN
  Rep(HASH, AtxLevel(l)) \o (IF c = <<>> THEN <<>> ELSE <<SP>> \o c)

----------------------------------------------------------------------------
FenceOf(l) == LET s == Strip(l) IN Rep(s[1], RunLen(s, s[1]))
FenceInfo(l) == LET s == Strip(l) IN Strip(LStripChar(s, s[1]))
FenceCode(ls) ==
  LET n == Len(ls)
  IN  IF n > 1 /\ Strip(ls[n]) = FenceOf(ls[1]) THEN SubSeq(ls, 2, n - 1) ELSE Tail(ls)
FormatFenced(ls) ==
  LET fence == FenceOf(ls[1])
      info == FenceInfo(ls[1])
      gap == IF StartsWithChar(info, fence[1]) THEN <<SP>> ELSE <<>>
  IN  <<fence \o gap \o info>> \o MapSeq(FenceCode(ls), RStrip) \o <<fence>>

FormatIndented(ls) == MapSeq(ls, RStrip)

----------------------------------------------------------------------------
ParagraphText(ls) == Join(MapSeq(ls, Strip), <<SP>>)

FormatParagraph(ls, w) ==
  LET wrapped == Wrap(ParagraphText(ls), w)
  IN  IF HardBreak(ls[Len(ls)])
      THEN [wrapped EXCEPT ![Len(wrapped)] = @ \o <<SP, SP>>]
      ELSE wrapped

FormatSetext(ls, w) ==
  LET wrapped == Wrap(ParagraphText(SubSeq(ls, 1, Len(ls) - 1)), w)
      longest == FoldLeft(LAMBDA m, l : Max2(m, Len(l)), 0, wrapped)
  IN  wrapped \o <<Rep(FirstChar(ls[Len(ls)]), longest)>>

FormatThematic(l, w) == Rep(FirstChar(l), IF IsInfinite(w) THEN 3 ELSE Max2(w, 3))

----------------------------------------------------------------------------
(* Link reference definitions                                                *)

DefinitionParts(ls) ==
  LET all == Join(ls, <<SP>>)
      a == FindSub(all, <<LBRA>>, 1)
      n == LabelLength(Tail1(all, a))
      rest == Tail1(all, a + n)
      linkAt == FindOrEnd(rest, 1, NotSpace)
      linkEnd == FindOrEnd(rest, linkAt, IsSpace)
  IN  [ label |-> SubSeq(all, a + 1, a + n - 3),
        link  |-> SubSeq(rest, linkAt, linkEnd - 1),
        title |-> Join(Words(Tail1(rest, linkEnd)), <<SP>>) ]

FormatDefinition(ls, w) ==
  LET p == DefinitionParts(ls)
      label == <<LBRA>> \o p.label \o <<RBRA, COLON>>
      after == Tail1(ls[1], FindSub(ls[1], <<RBRA, COLON>>, 1) + 2)
      together == ~Blank(after)
      head == IF together THEN <<label \o <<SP>> \o p.link>> ELSE <<label, p.link>>
      last == head[Len(head)]
      line == IF together THEN after ELSE ls[2]
      word == Words(p.title)[1]
  IN  IF p.link = <<>> THEN <<label>>
      ELSE IF p.title = <<>> THEN head
      ELSE IF Len(Words(line)) > 1 /\ Len(word) + Len(last) <= w
           THEN \* (Only the title may be divided.)
                LET wrapped == Wrap(Rep(120, Len(last)) \o <<SP>> \o p.title, w)
                IN  SubSeq(head, 1, Len(head) - 1)
                    \o <<last \o Tail1(wrapped[1], Len(last) + 1)>> \o Tail(wrapped)
           ELSE head \o Wrap(p.title, w)

----------------------------------------------------------------------------
(* Tables                                                                    *)

RECURSIVE CellsFrom(_, _)
\* The cells from index i on.  Escaped bars don't divide cells.
CellsFrom(l, i) ==
  LET RECURSIVE Divider(_)
      Divider(j) == LET k == Find(l, j, LAMBDA c : c = BAR)
                    IN  IF k > 1 /\ l[k - 1] = BSLASH THEN Divider(k + 1) ELSE k
      e == Divider(i)
  IN  IF e = 0 THEN <<Tail1(l, i)>> ELSE <<SubSeq(l, i, e - 1)>> \o CellsFrom(l, e + 1)

Cells(l) ==
  LET cs == MapSeq(Tail(CellsFrom(l, 1)), Strip)
      n == Len(cs)
  IN  IF n > 1 /\ cs[n] = <<>> THEN SubSeq(cs, 1, n - 1) ELSE cs

IsDividerCell(c) ==
  LET a == IF StartsWithChar(c, COLON) THEN Tail(c) ELSE c
      b == Tail1(a, RunLen(a, DASH) + 1)
  IN  b = <<>> \/ b = <<COLON>>

Alignment(c) ==
  LET left == StartsWithChar(c, COLON)
      right == EndsWithChar(c, COLON)
  IN  IF left /\ right THEN "center" ELSE IF left THEN "left"
      ELSE IF right THEN "right" ELSE "none"

Pad(cell, n, align) ==
  LET p == n - Len(cell) IN
  CASE align = "center" -> Spaces(p \div 2) \o cell \o Spaces(p - p \div 2)
    [] align = "right"  -> Spaces(p) \o cell
    [] OTHER            -> cell \o Spaces(p)

Barred(cells) == <<BAR>> \o Join(cells, <<BAR>>) \o <<BAR>>

\* The cells of all rows but the divider, [rows, aligns, ok]
TableParts(ls) ==
  LET divider == IF Len(ls) < 2 THEN <<>> ELSE Cells(ls[2])
      rows == MapSeq(<<ls[1]>> \o Tail1(ls, 3), Cells)
  IN  [ rows   |-> rows,
        aligns |-> MapSeq(divider, Alignment),
        ok     |-> /\ Len(ls) >= 2
                   /\ \A k \in 1..Len(divider) : IsDividerCell(divider[k])
                   /\ \A k \in 1..Len(rows) : Len(rows[k]) = Len(divider) ]

FormatTable(ls) ==
  LET p == TableParts(ls)
      cols == 1..Len(p.aligns)
      widths == [c \in cols |->
                   FoldLeft(LAMBDA m, r : Max2(m, Len(r[c])), 0, p.rows)]
      Row(r, head) ==
        Barred([c \in cols |->
          <<SP>> \o Pad(r[c], widths[c],
                        IF head /\ p.aligns[c] = "none" THEN "center" ELSE p.aligns[c])
          \o <<SP>>])
      Dashes(c) ==
        <<IF p.aligns[c] \in {"left", "center"} THEN COLON ELSE DASH>>
        \o Rep(DASH, widths[c])
        \o <<IF p.aligns[c] \in {"right", "center"} THEN COLON ELSE DASH>>
  IN  IF ~p.ok THEN Malformed
      ELSE Ok(<<Row(p.rows[1], TRUE), Barred([c \in cols |-> Dashes(c)])>>
              \o MapSeq(Tail(p.rows), LAMBDA r : Row(r, FALSE)))

----------------------------------------------------------------------------
(* Block quotes                                                              *)

\* The number of markers a line begins with
QuoteDepth(l) == RunLen(Squeeze(l), GT)

\* The lines of a quote without their (outermost) markers.  Lines without markers are
\* as deep as the line before them.
QuoteStripped(ls) ==
  LET Add(acc, l) ==
        IF IsQuote(l)
        THEN [ls |-> Append(acc.ls, DropQuoteMarker(l)), d |-> QuoteDepth(l)]
        ELSE [ls |-> Append(acc.ls, DropQuoteMarker(Rep(GT, acc.d) \o l)), d |-> acc.d]
  IN  FoldLeft(Add, [ls |-> <<>>, d |-> 0], ls).ls

\* The first line that isn't blank or indented any further decides.
QuoteSpaced(stripped) ==
  LET k == SelectInSeq(stripped, LAMBDA l : ~Blank(l) /\ Indent(l) <= 1)
  IN  k # 0 /\ Indent(stripped[k]) = 1

DropSpace(l) == IF StartsWithChar(l, SP) THEN Tail(l) ELSE l

QuoteContent(ls) ==
  LET s == QuoteStripped(ls) IN IF QuoteSpaced(s) THEN MapSeq(s, DropSpace) ELSE s

QuotePrefix(ls) == IF QuoteSpaced(QuoteStripped(ls)) THEN <<GT, SP>> ELSE <<GT>>

----------------------------------------------------------------------------
(* Lists                                                                     *)

\* Divides the lines of a list into its entries.  Lines that are indented more than the
\* marker of the last entry belong to that.
Entries(ls) ==
  LET Add(acc, i) ==
        LET l == ls[i]
            e == ItemMarkerEnd(l)
            new == e # 0 /\ acc.open = <<>> /\ Indent(l) <= acc.max
        IN  [ max  |-> IF new THEN e ELSE acc.max,
              open |-> OpenFence(ls, i, acc.open),
              es   |-> IF new THEN Append(acc.es, <<l>>)
                       ELSE [acc.es EXCEPT ![Len(acc.es)] = Append(@, l)] ]
  IN  FoldLeft(Add, [max |-> ItemMarkerEnd(ls[1]), open |-> <<>>, es |-> <<>>],
               [i \in 1..Len(ls) |-> i]).es

\* An entry without its marker, and its other lines without up to that much indentation
Dedented(entry) ==
  LET n == ItemMarkerEnd(entry[1]) + 1
      Dedent(l) == LStrip(SubSeq(l, 1, Min2(n, Len(l)))) \o Tail1(l, n + 1)
  IN  <<Tail1(entry[1], n + 1)>> \o MapSeq(Tail(entry), Dedent)

\* An entry has no blank lines at its end.
EntryLines(ls) ==
  LET n == SelectLastInSeq(ls, LAMBDA l : l # <<>>)
  IN  IF n = 0 THEN << <<>> >> ELSE SubSeq(ls, 1, n)

Indented(ls, marker) ==
  LET pad == Spaces(Len(marker))
  IN  <<marker \o ls[1]>>
      \o MapSeq(Tail(ls), LAMBDA l : IF l = <<>> THEN l ELSE pad \o l)

FirstNumber(ls) ==
  LET i == Indent(ls[1]) + 1
  IN  Canonical(SubSeq(ls[1], i, MarkerEnd(ls[1], i, NoLimit) - 2))

RECURSIVE NumberAfter(_, _)
NumberAfter(d, k) == IF k = 0 THEN d ELSE NumberAfter(DigitsPlus1(d), k - 1)

----------------------------------------------------------------------------
RECURSIVE FormatSection(_, _), FormatFrom(_, _, _, _, _)

FormatList(ls, w, Marker(_)) ==
  LET es == Entries(ls)
      Add(acc, k) ==
        LET marker == Marker(k)
            f == FormatFrom(Dedented(es[k]), 1, w - Len(marker), <<>>, BLANK)
        IN  IF ~acc.ok THEN acc
            ELSE IF ~f.ok THEN Malformed
            ELSE Ok(acc.lines \o Indented(EntryLines(f.lines), marker))
  IN  FoldLeft(Add, Ok(<<>>), [k \in 1..Len(es) |-> k])

FormatSection(sec, w) ==
  LET ls == sec.lines IN
  CASE sec.k = BLANK      -> Ok(<< <<>> >>)
    [] sec.k = ATX        -> Ok(<<FormatAtx(ls[1])>>)
    [] sec.k = PARAGRAPH  -> Ok(FormatParagraph(ls, w))
    [] sec.k = SETEXT     -> Ok(FormatSetext(ls, w))
    [] sec.k = THEMATIC   -> Ok(<<FormatThematic(ls[1], w)>>)
    [] sec.k = FENCED     -> Ok(FormatFenced(ls))
    [] sec.k = INDENTED   -> Ok(FormatIndented(ls))
    [] sec.k = DEFINITION -> Ok(FormatDefinition(ls, w))
    [] sec.k = TABLE      -> FormatTable(ls)
    [] sec.k = QUOTE      ->
         LET prefix == QuotePrefix(ls)
             f == FormatFrom(QuoteContent(ls), 1, w - Len(prefix), <<>>, BLANK)
         IN  IF ~f.ok THEN Malformed
             ELSE Ok(MapSeq(f.lines, LAMBDA l : IF l = <<>> THEN <<GT>> ELSE prefix \o l))
    [] sec.k = BULLETS    ->
         LET marker == <<FirstChar(ls[1]), SP>> IN FormatList(ls, w, LAMBDA k : marker)
    [] sec.k = NUMBERS    ->
         LET first == FirstNumber(ls)
         IN  FormatList(ls, w, LAMBDA k : NumberAfter(first, k - 1) \o <<DOT, SP>>)

\* Whether a blank line has to be added between two sections
NeedsBlank(previous, sec) ==
  \/ sec.k = SETEXT /\ previous = QUOTE
  \/ sec.k = THEMATIC /\ previous = PARAGRAPH /\ FirstChar(sec.lines[1]) = DASH

\* Appends all sections from line i on to done.
FormatFrom(lines, i, w, done, previous) ==
  IF i > Len(lines) THEN Ok(done)
  ELSE LET next == NextSection(lines, i)
           sec == [k |-> next.k, lines |-> SubSeq(lines, i, i + next.n - 1)]
           f == FormatSection(sec, w)
           gap == IF NeedsBlank(previous, sec) THEN << <<>> >> ELSE <<>>
       IN  IF ~f.ok THEN Malformed
           ELSE FormatFrom(lines, i + next.n, w, done \o gap \o f.lines, next.k)

FormatLines(lines, w) == FormatFrom(lines, 1, w, <<>>, BLANK)

\* A document ends with a single new line, and nothing else that is white space.
TrimEnd(lines) ==
  LET n == SelectLastInSeq(lines, LAMBDA l : ~Blank(l))
  IN  IF n = 0 THEN << <<>> >>
      ELSE [SubSeq(lines, 1, n) EXCEPT ![n] = RStrip(@)]

----------------------------------------------------------------------------
\* One pass over a document.
Pass(lines, w) ==
  LET f == FormatLines(lines, w)
  IN  IF f.ok THEN Ok(TrimEnd(f.lines)) ELSE f

\* What becomes of a document: what is delivered has to be stable.
Reformat(text, w) ==
  LET p1 == Pass(SplitLines(text), w)
      p2 == Pass(p1.lines, w)
  IN  IF ~p1.ok THEN [out |-> "malformed", lines |-> <<>>]
      ELSE IF ~p2.ok THEN [out |-> "malformed", lines |-> <<>>]
      ELSE IF p2.lines # p1.lines THEN [out |-> "inconsistent", lines |-> <<>>]
      ELSE [out |-> "ok", lines |-> p1.lines]
=============================================================================
