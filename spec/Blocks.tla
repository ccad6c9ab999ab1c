------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* How a document is divided into sections.  NextSection(lines, i) is the  *)
(* section that starts at line i: its kind and the number of its lines.    *)
(* Everything is decided from line i on, nothing before matters.           *)
(***************************************************************************)
EXTENDS Lines

ATX == "atx"
BLANK == "blank"
QUOTE == "quote"
BULLETS == "bullets"
NUMBERS == "numbers"
FENCED == "fenced"
INDENTED == "indented"
DEFINITION == "definition"
PARAGRAPH == "paragraph"
SETEXT == "setext"
TABLE == "table"
THEMATIC == "thematic"

----------------------------------------------------------------------------
\* Where the marker of the entry that a line of a list belongs to ends, if that of the line
\* before does at e.
EntryMarkerEnd(l, e) ==
  LET m == ItemMarkerEnd(l) IN IF m # 0 /\ Indent(l) <= e THEN m ELSE e

\* Blank lines end lists, and so do tables and thematic breaks unless they are indented beyond
\* the marker of an entry.  (A break of dashes with spaces between them always does: there would have
\* to be a blank line before it, after a paragraph.)
EndsList(l, e) ==
  \/ Blank(l)
  \/ IsThematic(l) /\ FirstChar(l) = DASH /\ Len(Words(l)) > 1
  \/ Indent(l) <= e /\ (IsTable(l) \/ IsThematic(l))

\* Nothing in a code block ends a list.
RECURSIVE ListEnd(_, _, _, _)
ListEnd(lines, i, open, e) ==
  IF i > Len(lines) THEN i
  ELSE IF open = <<>> /\ EndsList(lines[i], e) THEN i
  ELSE ListEnd(lines, i + 1, OpenFence(lines, i, open),
               IF open = <<>> THEN EntryMarkerEnd(lines[i], e) ELSE e)
ListLength(lines, i) == ListEnd(lines, i + 1, OpenFence(lines, i, <<>>), ItemMarkerEnd(lines[i])) - i

----------------------------------------------------------------------------
FencedLength(lines, i) ==
  LET s == Strip(lines[i])
      fence == Rep(s[1], RunLen(s, s[1]))
      e == Find(lines, i + 1, LAMBDA l : Strip(l) = fence)
  IN  (IF e = 0 THEN Len(lines) ELSE e) - i + 1

\* Trailing blank lines aren't part of it.
IndentedLength(lines, i) ==
  LET e == FindOrEnd(lines, i + 1, LAMBDA l : ~Blank(l) /\ ~IsIndented(l)) - 1
  IN  SelectLastInSeq(SubSeq(lines, i, e), LAMBDA l : ~Blank(l))

TableLength(lines, i) == FindOrEnd(lines, i, LAMBDA l : ~IsTable(l)) - i

----------------------------------------------------------------------------
\* The line a paragraph that starts at line i ends before.  A hard line break ends it.
RECURSIVE ParagraphEndFrom(_, _)
ParagraphEndFrom(lines, j) ==
  IF j > Len(lines) \/ ~Continues(lines[j]) THEN j
  ELSE IF HardBreak(lines[j]) THEN j + 1
  ELSE ParagraphEndFrom(lines, j + 1)
ParagraphEnd(lines, i) ==
  IF HardBreak(lines[i]) THEN i + 1 ELSE ParagraphEndFrom(lines, i + 1)

\* Whether the lines starting at i are a setext heading
IsSetext(lines, i) ==
  /\ IsParagraphStart(lines[i])
  /\ LET e == ParagraphEnd(lines, i) IN e <= Len(lines) /\ IsUnderline(lines[e])

----------------------------------------------------------------------------
(* Link reference definitions: [label]: destination "title"                  *)

\* The length of the label including brackets and colon, 0 if there is none
LabelLength(s) ==
  IF ~StartsWithChar(s, LBRA) THEN 0
  ELSE LET e == Find(s, 2, LAMBDA c : c = RBRA)
       IN  IF e < 3 \/ e > 1001 \/ e = Len(s) THEN 0
           ELSE IF s[e + 1] = COLON THEN e + 1 ELSE 0

\* The first quotation mark that isn't escaped
RECURSIVE ClosingQuote(_, _, _)
ClosingQuote(s, q, i) ==
  LET k == Find(s, i, LAMBDA c : c = q)
  IN  IF k = 0 THEN 0
      ELSE LET b == SelectLastInSeq(SubSeq(s, 1, k - 1), LAMBDA c : c # BSLASH)
           IN  IF (k - 1 - b) % 2 = 0 THEN k ELSE ClosingQuote(s, q, k + 1)

\* The index of the line a title ends on, 0 if it isn't closed (at the end of a line).
\* text is what is on line i.
RECURSIVE TitleEnd(_, _, _, _)
TitleEnd(lines, i, text, q) ==
  LET s == RStrip(text)
      k == ClosingQuote(s, q, 1)
  IN  IF k # 0 THEN IF k = Len(s) THEN i ELSE 0
      ELSE IF i = Len(lines) THEN 0
      ELSE IF Blank(lines[i + 1]) THEN 0
      ELSE TitleEnd(lines, i + 1, lines[i + 1], q)

TitleEndOf(lines, i, text) ==
  IF text = <<>> THEN 0
  ELSE IF text[1] \in {DQUOTE, SQUOTE} THEN TitleEnd(lines, i, Tail(text), text[1])
  ELSE IF text[1] = LPAR THEN TitleEnd(lines, i, Tail(text), RPAR)
  ELSE 0

\* The number of its lines, 0 if there is no definition on line i
DefinitionLength(lines, i) ==
  IF FirstChar(lines[i]) # LBRA \/ Indent(lines[i]) >= 4 THEN 0 ELSE
  LET l == LStrip(lines[i])
      n == LabelLength(l)
      parts == Split1(Tail1(l, n + 1))
      last == Len(lines)
      \* A title that starts on line j after a complete definition
      OptionalTitle(j) ==
        IF j > last THEN j - i
        ELSE LET e == TitleEndOf(lines, j, LStrip(lines[j])) IN IF e = 0 THEN j - i ELSE e - i + 1
      \* A title that has to be there, because something follows the destination
      RequiredTitle(j, text) ==
        LET e == TitleEndOf(lines, j, text) IN IF e = 0 THEN 0 ELSE e - i + 1
  IN  IF n = 0 THEN 0
      ELSE IF Len(parts) = 2 THEN RequiredTitle(i, parts[2])
      ELSE IF Len(parts) = 1 THEN OptionalTitle(i + 1)
      ELSE IF i = last \/ FirstChar(lines[i + 1]) = LBRA \/ Blank(lines[i + 1]) THEN 1
      ELSE LET next == Split1(lines[i + 1])
           IN  IF Len(next) = 1 THEN OptionalTitle(i + 2)
               ELSE RequiredTitle(i + 1, next[2])

----------------------------------------------------------------------------
(* Block quotes.  Paragraphs in them go on after the last marker.            *)

\* Removes one marker (if there is one)
DropQuoteMarker(l) ==
  LET i == Indent(l) + 1
  IN  IF i <= 4 /\ i <= Len(l) /\ l[i] = GT THEN Tail1(l, i + 1) ELSE l

QuoteContinues(lines, i) == Continues(lines[i]) /\ ~IsSetext(lines, i)

RECURSIVE LazyEnd(_, _)
LazyEnd(lines, i) ==
  IF i <= Len(lines) /\ QuoteContinues(lines, i) THEN LazyEnd(lines, i + 1) ELSE i

RECURSIVE EndsInParagraph(_), QuoteEnd(_, _, _), LastSection(_, _), NextSection(_, _)

EndsInParagraph(quote) ==
  LET inner == MapSeq(quote, DropQuoteMarker)
      sec == LastSection(inner, 1)
  IN  \/ sec.k = PARAGRAPH
      \/ sec.k = QUOTE /\ EndsInParagraph(Tail1(inner, Len(inner) - sec.n + 1))

\* The quote starts at line s and goes at least up to the line before line i
QuoteEnd(lines, s, i) ==
  LET e == FindOrEnd(lines, i, LAMBDA l : ~IsQuote(l))
      lazy == IF EndsInParagraph(SubSeq(lines, s, e - 1)) THEN LazyEnd(lines, e) ELSE e
  IN  IF lazy > e /\ lazy <= Len(lines) /\ IsQuote(lines[lazy])
      THEN QuoteEnd(lines, s, lazy)
      ELSE lazy

LastSection(lines, i) ==
  LET sec == NextSection(lines, i)
  IN  IF i + sec.n > Len(lines) THEN sec ELSE LastSection(lines, i + sec.n)

----------------------------------------------------------------------------
NextSection(lines, i) ==
  LET l == lines[i] IN
  IF Blank(l) THEN [k |-> BLANK, n |-> 1]
  ELSE IF IsAtx(l) THEN [k |-> ATX, n |-> 1]
  ELSE IF IsQuote(l) THEN [k |-> QUOTE, n |-> QuoteEnd(lines, i, i) - i]
  ELSE IF IsBullet(l) THEN [k |-> BULLETS, n |-> ListLength(lines, i)]
  ELSE IF IsFence(l) THEN [k |-> FENCED, n |-> FencedLength(lines, i)]
  ELSE IF IsIndented(l) THEN [k |-> INDENTED, n |-> IndentedLength(lines, i)]
  ELSE LET d == DefinitionLength(lines, i) IN
  IF d # 0 THEN [k |-> DEFINITION, n |-> d]
  ELSE IF IsOrdered(l) THEN [k |-> NUMBERS, n |-> ListLength(lines, i)]
  ELSE IF IsParagraphStart(l)
       THEN LET e == ParagraphEnd(lines, i)
            IN  IF e <= Len(lines) /\ IsUnderline(lines[e])
                THEN [k |-> SETEXT, n |-> e - i + 1]
                ELSE [k |-> PARAGRAPH, n |-> e - i]
  ELSE IF IsTable(l) THEN [k |-> TABLE, n |-> TableLength(lines, i)]
  ELSE [k |-> THEMATIC, n |-> 1]

\* All of them
RECURSIVE SectionsFrom(_, _)
SectionsFrom(lines, i) ==
  IF i > Len(lines) THEN <<>>
  ELSE LET sec == NextSection(lines, i)
       IN  <<[k |-> sec.k, lines |-> SubSeq(lines, i, i + sec.n - 1)]>>
           \o SectionsFrom(lines, i + sec.n)
Sections(lines) == SectionsFrom(lines, 1)
=============================================================================
