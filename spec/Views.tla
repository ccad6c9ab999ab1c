------------------------------- MODULE Views -------------------------------
(***************************************************************************)
(* What a document means, and the parts of it the properties talk about.   *)
(*                                                                         *)
(* Tree(lines, w) is the document as a sequence of nodes                   *)
(*   [k |-> kind, w |-> line length at that place, lines |-> its lines     *)
(*    (without what the containers around it add), kids |-> sequence of    *)
(*    documents in it (one for a quote, one for each entry of a list)]     *)
(* The views below are taken of what went in, of what came out, and of     *)
(* what should have come out.                                              *)
(***************************************************************************)
EXTENDS Format

RECURSIVE Tree(_, _)
Kids(sec, w) ==
  CASE sec.k = QUOTE -> <<Tree(QuoteContent(sec.lines), w - Len(QuotePrefix(sec.lines)))>>
    [] sec.k = BULLETS ->
         LET es == Entries(sec.lines)
         IN  [k \in 1..Len(es) |-> Tree(Dedented(es[k]), w - 2)]
    [] sec.k = NUMBERS ->
         LET es == Entries(sec.lines)
             first == FirstNumber(sec.lines)
         IN  [k \in 1..Len(es) |->
                Tree(Dedented(es[k]), w - Len(NumberAfter(first, k - 1)) - 2)]
    [] OTHER -> <<>>
Tree(lines, w) ==
  MapSeq(Sections(lines),
         LAMBDA s : [k |-> s.k, w |-> w, lines |-> s.lines, kids |-> Kids(s, w)])

Containers == {QUOTE, BULLETS, NUMBERS}

\* All nodes, in the order they begin
RECURSIVE Nodes(_)
Nodes(tree) ==
  FoldLeft(LAMBDA acc, n : Append(acc, n) \o Flatten(MapSeq(n.kids, Nodes)), <<>>, tree)

OfKind(nodes, kinds) == SelectSeq(nodes, LAMBDA n : n.k \in kinds)
LinesOf(nodes, kinds) == MapSeq(OfKind(nodes, kinds), LAMBDA n : n.lines)

----------------------------------------------------------------------------
\* The kinds of all blocks and how they are nested
RECURSIVE Outline(_)
Outline(tree) ==
  MapSeq(OfKind(tree, {ATX, QUOTE, BULLETS, NUMBERS, FENCED, INDENTED, DEFINITION,
                       PARAGRAPH, SETEXT, TABLE, THEMATIC}),
         LAMBDA n : [k |-> n.k, kids |-> MapSeq(n.kids, Outline)])

\* The same including where blank lines are
RECURSIVE Layout(_)
Layout(tree) == MapSeq(tree, LAMBDA n : [k |-> n.k, kids |-> MapSeq(n.kids, Layout)])

----------------------------------------------------------------------------
\* The text of a block as the reader sees it, leaving out all white space
TextOf(n) ==
  CASE n.k = ATX -> AtxContent(n.lines[1])
    [] n.k = PARAGRAPH -> Flatten(n.lines)
    [] n.k = SETEXT -> Flatten(SubSeq(n.lines, 1, Len(n.lines) - 1))
    [] n.k = FENCED -> FenceInfo(n.lines[1]) \o Flatten(FenceCode(n.lines))
    [] n.k = INDENTED -> Flatten(n.lines)
    [] n.k = DEFINITION -> Flatten(n.lines)
    [] n.k = TABLE -> IF TableParts(n.lines).ok THEN Flatten(Flatten(TableParts(n.lines).rows))
                      ELSE <<>>
    [] OTHER -> <<>>
Contents(nodes) ==
  MapSeq(SelectSeq(nodes, LAMBDA n : n.k \notin {BLANK, QUOTE, BULLETS, NUMBERS}),
         LAMBDA n : Squeeze(TextOf(n)))
AllText(nodes) == Flatten(Contents(nodes))

----------------------------------------------------------------------------
\* What may not be broken: code, destinations of links, line breaks
InlineText(n) ==
  CASE n.k = PARAGRAPH -> ParagraphText(n.lines)
    [] n.k = SETEXT -> ParagraphText(SubSeq(n.lines, 1, Len(n.lines) - 1))
    [] OTHER -> <<>>
AtomsOf(text) ==
  MapSeq(SelectSeq(SplitAll(SplitAll(CodeSplit(Strip(text), FALSE), LinkSplit), BreakSplit),
                   LAMBDA it : ~it.ev),
         LAMBDA it : it.t)
TextNodes(nodes) == OfKind(nodes, {PARAGRAPH, SETEXT})
Atoms(nodes) == MapSeq(TextNodes(nodes), LAMBDA n : AtomsOf(InlineText(n)))

\* Paragraphs and whether they end in a hard line break.  At the end of the document it
\* isn't one.
HardBreaks(nodes) ==
  LET ps == OfKind(nodes, {PARAGRAPH})
      all == MapSeq(ps, LAMBDA n : HardBreak(n.lines[Len(n.lines)]))
      last == FindLast(nodes, LAMBDA n : n.k # BLANK)
  IN  IF last # 0 /\ nodes[last].k = PARAGRAPH
      THEN [all EXCEPT ![Len(all)] = FALSE] ELSE all

\* The lines of text that end with a line break (<br>)
EndBreak(l) ==
  LET s == Strip(l)
  IN  \E n \in 4..6 : Len(s) >= n /\ BreakLen(SubSeq(s, Len(s) - n + 1, Len(s))) = n
BreakLines(nodes) == MapSeq(TextNodes(nodes), LAMBDA n : MapSeq(n.lines, EndBreak))

----------------------------------------------------------------------------
\* Markers of a list, and how far what follows them is indented at least
EntryView(e) ==
  LET m == ItemMarkerEnd(e[1])
      rest == SelectSeq(Tail(e), LAMBDA l : ~Blank(l))
      inset == FoldLeft(LAMBDA a, l : Min2(a, Indent(l)), 99, rest)
      after == Tail1(e[1], m + 1)
  IN  [ marker |-> SubSeq(e[1], 1, m) \o SubSeq(after, 1, Min2(Len(after), 1)),
        inset |-> inset ]
ListView(n) ==
  [ k |-> n.k,
    entries |-> MapSeq(Entries(n.lines), EntryView),
    kids |-> MapSeq(n.kids, Outline) ]
Lists(nodes) == MapSeq(OfKind(nodes, {BULLETS, NUMBERS}), ListView)

\* The quotes: what every line of them begins with
QuoteView(n) ==
  [ prefix |-> QuotePrefix(n.lines),
    begins |-> {SubSeq(n.lines[i], 1, Min2(1, Len(n.lines[i]))) : i \in 1..Len(n.lines)},
    blanks |-> {n.lines[i] : i \in {j \in 1..Len(n.lines) : Squeeze(n.lines[j]) = <<GT>>}},
    kids |-> MapSeq(n.kids, Outline) ]
Quotes(nodes) == MapSeq(OfKind(nodes, {QUOTE}), QuoteView)

----------------------------------------------------------------------------
\* White space that isn't wanted: [trailing white space of every line, other than the two
\* spaces of a hard line break, and the marker of an empty entry]
Trailing(l) == Tail1(l, Len(RStrip(l)) + 1)
Trailings(lines) == MapSeq(lines, Trailing)
\* of a delivered text (a sequence of code points)
EndsOnce(text) ==
  /\ EndsWithChar(text, 10)
  /\ Len(text) > 1 => ~IsSpace(text[Len(text) - 1])
OnlyLineFeeds(text) == \A i \in 1..Len(text) : IsBreak(text[i]) => text[i] = 10
=============================================================================
