------------------------------- MODULE Lines -------------------------------
(***************************************************************************)
(* What a single line could be, regardless of its position.                *)
(***************************************************************************)
EXTENDS Text

\* At least four spaces and not blank
IsIndented(l) == Len(l) > 4 /\ IsSpace(l[1]) /\ Indent(l) >= 4 /\ ~Blank(l)

FirstChar(l) == LET i == Find(l, 1, NotSpace) IN IF i = 0 THEN 0 ELSE l[i]

IsAtx(l) == FirstChar(l) = HASH /\ ~IsIndented(l)
IsQuote(l) == FirstChar(l) = GT /\ ~IsIndented(l)
IsTable(l) == FirstChar(l) = BAR

\* Opens a fenced code block: three or more ` or ~.  No backticks may follow
\* backticks, because that would be inline code.
IsFence(l) ==
  LET c == FirstChar(l) IN
  c \in {TICK, TILDE} /\
  LET s == Strip(l) IN
  /\ RunLen(s, c) >= 3
  /\ c = TILDE \/ Find(LStripChar(s, c), 1, LAMBDA x : x = TICK) = 0

\* The index of the first character after a bullet or number starting at index i
\* (0 if there is none).  At most limit digits.
MarkerEnd(l, i, limit) ==
  IF i > Len(l) THEN 0
  ELSE IF l[i] \in {STAR, PLUS, DASH} THEN i + 1
  ELSE IF IsDigit(l[i])
       THEN LET e == FindOrEnd(l, i, LAMBDA c : ~IsDigit(c))
            IN  IF e <= Len(l) /\ l[e] = DOT /\ e - i <= limit THEN e + 1 ELSE 0
       ELSE 0
NoLimit == 1000000

IsThematic(l) ==
  FirstChar(l) \in {STAR, DASH, UNDER} /\ ~IsIndented(l) /\
  LET s == Squeeze(l) IN Len(s) >= 3 /\ RunLen(s, s[1]) = Len(s)

\* (thematic breaks take precedence)
IsBullet(l) ==
  LET i == Indent(l) + 1 IN
  /\ i < Len(l)
  /\ l[i] \in {STAR, PLUS, DASH}
  /\ l[i + 1] \in {SP, TAB}
  /\ ~IsIndented(l)
  /\ ~IsThematic(l)

IsOrdered(l) ==
  LET i == Indent(l) + 1 IN
  /\ i < Len(l)
  /\ IsDigit(l[i])
  /\ ~IsIndented(l)
  /\ LET e == MarkerEnd(l, i, 9) IN e # 0 /\ e <= Len(l) /\ l[e] \in {SP, TAB}

\* A marker followed by a space or the end of the line.  At any indentation.
\* 0 if there is none, else the number of characters up to its end.
ItemMarkerEnd(l) ==
  LET i == Indent(l) + 1
      e == MarkerEnd(l, i, NoLimit)
  IN  IF e = 0 THEN 0
      ELSE IF e > Len(l) \/ l[e] \in {SP, TAB} THEN e - 1 ELSE 0

IsUnderline(l) ==
  FirstChar(l) \in {EQ, DASH} /\ ~IsIndented(l) /\
  LET s == Strip(l) IN RunLen(s, s[1]) = Len(s)

\* None of the other sections (but it could still be a link reference definition)
IsParagraphStart(l) ==
  ~(\/ Blank(l) \/ IsIndented(l) \/ IsAtx(l) \/ IsBullet(l) \/ IsQuote(l)
    \/ IsFence(l) \/ IsOrdered(l) \/ IsTable(l) \/ IsThematic(l))

\* Continues a paragraph.
Continues(l) ==
  ~(\/ Blank(l) \/ IsAtx(l) \/ IsBullet(l) \/ IsQuote(l) \/ IsFence(l)
    \/ IsOrdered(l) \/ IsTable(l) \/ IsThematic(l) \/ IsUnderline(l))

HardBreak(l) == EndsWith(l, <<SP, SP>>)

---------------------------------------------------------------------------
(* Code fences in lists: nothing in a closed code block ends a list or      *)
(* starts an entry.                                                         *)

\* After any number of markers (each followed by a space)
RECURSIVE AfterMarkers(_)
AfterMarkers(l) ==
  LET i == Indent(l) + 1
      e == MarkerEnd(l, i, NoLimit)
  IN  IF e # 0 /\ e <= Len(l) /\ l[e] \in {SP, TAB} THEN AfterMarkers(Tail1(l, e + 1)) ELSE l

\* The fence of the code block that is open after line i ("" as <<>>)
OpenFence(lines, i, open) ==
  IF open # <<>>
  THEN IF Strip(lines[i]) = open THEN <<>> ELSE open
  ELSE LET content == Strip(AfterMarkers(lines[i]))
           c == IF content = <<>> THEN 0 ELSE content[1]
       IN  IF c \notin {TICK, TILDE} \/ ~IsFence(content) THEN <<>>
           ELSE LET fence == Rep(c, RunLen(content, c))
                IN  IF \E j \in (i + 1)..Len(lines) : Strip(lines[j]) = fence
                    THEN fence ELSE <<>>
=============================================================================
