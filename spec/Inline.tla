------------------------------- MODULE Inline -------------------------------
(***************************************************************************)
(* How the text of paragraphs, setext headings, and titles is divided into *)
(* what may not be broken, and how that is filled into lines.              *)
(*                                                                         *)
(* An item is [t |-> text, sp |-> whether a space precedes it,             *)
(*             ev |-> whether it may be divided further].                  *)
(***************************************************************************)
EXTENDS Text

Item(t, sp, ev) == [t |-> t, sp |-> sp, ev |-> ev]

\* A single period after code or a link stays with it.
SinglePeriod(s) == StartsWithChar(s, DOT) /\ (Len(s) = 1 \/ s[2] # DOT)

AppendToLast(items, t) == [items EXCEPT ![Len(items)].t = @ \o t]

StartsWithSpace(s) == s # <<>> /\ IsSpace(s[1])
EndsWithSpace(s) == s # <<>> /\ IsSpace(s[Len(s)])

----------------------------------------------------------------------------
(* Inline code: a run of backticks up to the next run of the same length.    *)

\* The next run of backticks: [a |-> first, b |-> last], a = 0 if there is none
NextTicks(s, i) ==
  LET a == Find(s, i, LAMBDA c : c = TICK)
  IN  IF a = 0 THEN [a |-> 0, b |-> 0]
      ELSE [a |-> a, b |-> FindOrEnd(s, a, LAMBDA c : c # TICK) - 1]

RECURSIVE TickRuns(_, _)
TickRuns(s, i) == LET r == NextTicks(s, i) IN IF r.a = 0 THEN 0 ELSE 1 + TickRuns(s, r.b + 1)

\* first is whether a space precedes all of s, open the number of backticks of the code
\* we are in (0 if we aren't), s up to i - 1 is done.
RECURSIVE CodeFrom(_, _, _, _, _)
CodeFrom(s, first, items, open, i) ==
  LET r == NextTicks(s, i)
  IN
  IF r.a = 0 THEN
    LET rest == Tail1(s, i) IN
    IF items # <<>> /\ TickRuns(items[Len(items)].t, 1) = 1
    THEN \* Never closed, so it's just text.
         LET all == IF Blank(rest) THEN items ELSE AppendToLast(items, RStrip(rest))
         IN  [all EXCEPT ![Len(items)].ev = TRUE]
    ELSE LET period == items # <<>> /\ SinglePeriod(rest)
             done == IF period THEN AppendToLast(items, <<DOT>>) ELSE items
             text == IF period THEN Tail(rest) ELSE rest
         IN  IF Blank(text) THEN done
             ELSE Append(done, Item(Strip(text),
                                    IF i = 1 THEN first ELSE StartsWithSpace(text), TRUE))
  ELSE
  LET ticks == SubSeq(s, r.a, r.b)
      len == r.b - r.a + 1
      text == SubSeq(s, i, r.a - 1)
  IN
  IF open = 0 THEN
    LET period == items # <<>> /\ SinglePeriod(text)
        its1 == IF period THEN AppendToLast(items, <<DOT>>) ELSE items
        plain == IF period THEN Tail(text) ELSE text
        its2 == IF Blank(plain) THEN its1
                ELSE Append(its1, Item(Strip(plain),
                                       IF its1 = <<>> THEN first ELSE StartsWithSpace(plain),
                                       TRUE))
        its3 == Append(its2, Item(ticks,
                                  IF its2 = <<>> THEN first ELSE EndsWithSpace(plain),
                                  FALSE))
    IN  CodeFrom(s, first, its3, len, r.b + 1)
  ELSE CodeFrom(s, first, AppendToLast(items, text \o ticks),
                IF len = open THEN 0 ELSE open, r.b + 1)

CodeSplit(s, first) == CodeFrom(s, first, <<>>, 0, 1)

----------------------------------------------------------------------------
(* Links: prefix[text](destination)suffix and prefix[text][label]suffix      *)

PrefixChar(c) == NotSpace(c) /\ c # RBRA /\ c # RPAR
NotPrefixChar(c) == ~PrefixChar(c)

\* The two kinds of links differ in what follows ]: ( up to ), or [ up to ].
INLINE == LPAR
REFERENCE == LBRA
Closing(kind) == IF kind = INLINE THEN RPAR ELSE RBRA

\* The last index j in lo..hi at which text ends and a (non-empty) destination follows
RECURSIVE TextEnd(_, _, _, _)
TextEnd(s, kind, lo, hi) ==
  IF hi < lo THEN 0
  ELSE IF /\ s[hi] = RBRA /\ s[hi + 1] = kind
          /\ hi + 2 <= Len(s) /\ s[hi + 2] # Closing(kind)
          /\ Find(s, hi + 3, LAMBDA c : c = Closing(kind)) # 0
  THEN hi
  ELSE TextEnd(s, kind, lo, hi - 1)

\* The index after the link whose bracket is at index k, 0 if that isn't one.  Its text
\* isn't empty and does not contain [.
LinkEnd(s, kind, k) ==
  LET stop == FindOrEnd(s, k + 1, LAMBDA c : c = LBRA) - 1
      j == TextEnd(s, kind, k + 2, Min2(stop, Len(s) - 1))
  IN  IF j = 0 THEN 0
      ELSE FindOrEnd(s, Find(s, j + 3, LAMBDA c : c = Closing(kind)) + 1,
                     LAMBDA c : IsSpace(c) \/ c = LBRA \/ c = LPAR)

\* The first bracket from index i on that begins a link
RECURSIVE FirstLinkBracket(_, _, _)
FirstLinkBracket(s, kind, i) ==
  LET k == Find(s, i, LAMBDA c : c = LBRA)
  IN  IF k = 0 THEN 0
      ELSE IF LinkEnd(s, kind, k) # 0 THEN k ELSE FirstLinkBracket(s, kind, k + 1)

\* All links (of one kind) from index i on: [a |-> first, b |-> last].  A link includes
\* all characters right before it, unless those are white space, ] or ).
RECURSIVE LinksFrom(_, _, _)
LinksFrom(s, kind, i) ==
  LET k0 == FirstLinkBracket(s, kind, i)
  IN  IF k0 = 0 THEN <<>>
      ELSE LET a == i + SelectLastInSeq(SubSeq(s, i, k0 - 1), NotPrefixChar)
               run == FindOrEnd(s, a, NotPrefixChar) - 1
               \* of the brackets in there, the last one that begins a link
               ks == {k \in k0..run : s[k] = LBRA /\ LinkEnd(s, kind, k) # 0}
               e == LinkEnd(s, kind, CHOOSE k \in ks : \A m \in ks : m <= k)
           IN  <<[a |-> a, b |-> e - 1]>> \o LinksFrom(s, kind, e)

\* Both kinds by where they begin (a reference link first if both begin there)
RECURSIVE Merge(_, _)
Merge(x, y) ==
  IF x = <<>> THEN y ELSE IF y = <<>> THEN x
  ELSE IF x[1].a <= y[1].a THEN <<x[1]>> \o Merge(Tail(x), y)
  ELSE <<y[1]>> \o Merge(x, Tail(y))

Links(s) ==
  IF Find(s, 1, LAMBDA c : c = LBRA) = 0 THEN <<>>
  ELSE Merge(LinksFrom(s, REFERENCE, 1), LinksFrom(s, INLINE, 1))

RECURSIVE LinkFrom(_, _, _, _, _)
LinkFrom(s, first, items, links, i) ==
  IF links = <<>> THEN
    LET rest == Tail1(s, i)
        period == items # <<>> /\ SinglePeriod(rest)
        done == IF period THEN AppendToLast(items, <<DOT>>) ELSE items
        text == IF period THEN Tail(rest) ELSE rest
    IN  IF Blank(text) THEN done
        ELSE Append(done, Item(Strip(text), IF i = 1 THEN first ELSE StartsWithSpace(text),
                               TRUE))
  ELSE
  LET a == links[1].a
      b == links[1].b
      text == SubSeq(s, i, a - 1)
      link == SubSeq(s, a, b)
      paren == FindSub(link, <<RBRA, LPAR>>, 1)
      cut == IF paren # 0 THEN paren ELSE FindSub(link, <<RBRA, LBRA>>, 1)
      left == Strip(SubSeq(link, 1, cut - 1)) \o SubSeq(link, cut, cut + 1)
      right == Strip(Tail1(link, cut + 2))
      period == items # <<>> /\ SinglePeriod(text)
      its1 == IF period THEN AppendToLast(items, <<DOT>>) ELSE items
      plain == IF period THEN Tail(text) ELSE text
      its2 == Append(its1, Item(Strip(plain),
                                IF its1 = <<>> THEN first ELSE StartsWithSpace(plain), TRUE))
      its3 == IF Blank(text)
              THEN Append(items, Item(left,
                     IF items = <<>> THEN first
                     ELSE (StartsWithChar(link, LBRA) \/ StartsWith(link, <<BANG, LBRA>>))
                          /\ text # <<>>,
                     TRUE))
              ELSE Append(its2, Item(left, IsSpace(s[a - 1]), TRUE))
  IN  IF a < i THEN LinkFrom(s, first, items, Tail(links), i)   \* in the previous one
      ELSE LinkFrom(s, first, Append(its3, Item(right, FALSE, FALSE)), Tail(links), b + 1)

LinkSplit(s, first) == LinkFrom(s, first, <<>>, Links(s), 1)

----------------------------------------------------------------------------
(* Line breaks: <br>, <br >, <br/>, and <br />                               *)

\* The length of the line break at the beginning of s, 0 if there is none
BreakLen(s) ==
  IF Len(s) < 4 \/ s[1] # LT \/ s[2] # 98 \/ s[3] # 114 THEN 0
  ELSE LET i == IF s[4] = SP THEN 5 ELSE 4
           j == IF i <= Len(s) /\ s[i] = SLASH THEN i + 1 ELSE i
       IN  IF j <= Len(s) /\ s[j] = GT THEN j ELSE 0

RECURSIVE NextBreak(_, _)
NextBreak(s, i) ==
  LET a == Find(s, i, LAMBDA c : c = LT)
  IN  IF a = 0 THEN 0 ELSE IF BreakLen(Tail1(s, a)) # 0 THEN a ELSE NextBreak(s, a + 1)

RECURSIVE BreakFrom(_, _, _, _)
BreakFrom(s, first, items, i) ==
  LET a == NextBreak(s, i)
  IN  IF a = 0 THEN
        LET text == Tail1(s, i)
        IN  IF Blank(text) THEN items
            ELSE Append(items, Item(Strip(text), IF i = 1 THEN first ELSE StartsWithSpace(text),
                                    TRUE))
      ELSE
        LET text == SubSeq(s, i, a - 1)
            n == BreakLen(Tail1(s, a))
            sp == IF items = <<>> THEN first ELSE IsSpace(s[i])
            its == IF Blank(text)
                   THEN Append(items, Item(SubSeq(s, a, a + n - 1), sp, FALSE))
                   ELSE Append(Append(items, Item(Strip(text), sp, TRUE)),
                               Item(SubSeq(s, a, a + n - 1), EndsWithSpace(text), FALSE))
        IN  BreakFrom(s, first, its, a + n)

BreakSplit(s, first) == BreakFrom(s, first, <<>>, 1)

----------------------------------------------------------------------------
(* Words                                                                     *)

RECURSIVE SpaceFrom(_, _, _, _)
SpaceFrom(s, first, items, i) ==
  IF i > Len(s) THEN items
  ELSE LET e == FindOrEnd(s, i, LAMBDA c : c = SP)
           w == Strip(SubSeq(s, i, e - 1))
       IN  SpaceFrom(s, first,
                     IF w = <<>> THEN items
                     ELSE Append(items, Item(w, IF items = <<>> THEN first ELSE TRUE, TRUE)),
                     e + 1)
SpaceSplit(s, first) == SpaceFrom(s, first, <<>>, 1)

----------------------------------------------------------------------------
SplitAll(items, Op(_, _)) ==
  FoldLeft(LAMBDA acc, it : acc \o (IF it.ev THEN Op(it.t, it.sp) ELSE <<it>>), <<>>, items)

\* All items of a text
Items(text) ==
  SplitAll(SplitAll(SplitAll(CodeSplit(text, FALSE), LinkSplit), BreakSplit), SpaceSplit)

----------------------------------------------------------------------------
(* Filling lines                                                             *)

EndsWord(w, i) == i > Len(w) \/ IsSpace(w[i])
\* If it were the first word on a line, it would start a different section.
StartsSection(w) ==
  LET c == w[1] IN
  \/ c \in {HASH, GT, BAR}
  \/ c \in {TICK, TILDE} /\ RunLen(w, c) >= 3
  \/ c \in {STAR, PLUS, DASH} /\ EndsWord(w, 2)
  \/ c \in {STAR, DASH, EQ, UNDER} /\ RunLen(w, c) = Len(w)
  \/ LET n == FindOrEnd(w, 1, LAMBDA x : ~IsDigit(x))
     IN  n > 1 /\ n <= Len(w) /\ w[n] = DOT /\ EndsWord(w, n + 1)

IsLineBreak(w) == BreakLen(w) # 0

\* If it were alone on the first line, that would be an underline or a thematic break.
NeedsCompany(t) ==
  \/ t[1] \in {EQ, DASH} /\ RunLen(t, t[1]) = Len(t)
  \/ /\ t[1] \in {DASH, STAR, UNDER}
     /\ \A i \in 1..Len(t) : t[i] = t[1] \/ (t[i] = SP /\ i < Len(t) /\ t[i + 1] # SP)
     /\ FoldLeft(LAMBDA n, c : IF c = SP THEN n ELSE n + 1, 0, t) >= 3

\* What may not be separated
Chunks(items) ==
  LET Add(chunks, it) ==
        LET last == chunks[Len(chunks)]
            attached == /\ chunks # <<>>
                        /\ ~it.sp
                        /\ ~EndsWith(last.t, <<RBRA, LPAR>>)
                        /\ ~EndsWith(last.t, <<RBRA, LBRA>>)
                        /\ ~IsLineBreak(it.t)
                        /\ ~IsLineBreak(last.t)
            alone == Len(chunks) = 1 /\ NeedsCompany(last.t) /\ ~IsLineBreak(it.t)
        IN  IF chunks # <<>> /\ (attached \/ alone \/ StartsSection(it.t))
            THEN AppendToLast(chunks, (IF it.sp THEN <<SP>> ELSE <<>>) \o it.t)
            ELSE Append(chunks, [t |-> it.t, sp |-> it.sp])
  IN  FoldLeft(Add, <<>>, items)

\* Every line takes as many chunks as fit.  A line that is empty takes any chunk.
Fill(chunks, w) ==
  LET Add(lines, ch) ==
        LET n == Len(lines)
            last == lines[n]
            longer == (IF ch.sp /\ last # <<>> THEN Append(last, SP) ELSE last) \o ch.t
            filled == IF Len(longer) <= w \/ last = <<>> \/ w <= 0
                      THEN [lines EXCEPT ![n] = longer]
                      ELSE Append(lines, ch.t)
        IN  IF IsLineBreak(ch.t) THEN Append(filled, <<>>) ELSE filled
      all == FoldLeft(Add, << <<>> >>, chunks)
  IN  IF all[Len(all)] = <<>>
      THEN IF Len(all) = 1 THEN << <<>> >> ELSE SubSeq(all, 1, Len(all) - 1)
      ELSE all

\* The lines a text is filled into
Wrap(text, w) == Fill(Chunks(Items(Strip(text))), w)
=============================================================================
