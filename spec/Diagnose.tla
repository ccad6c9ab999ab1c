------------------------------ MODULE Diagnose ------------------------------
(***************************************************************************)
(* What is reported about documents: the kind and the first and last line  *)
(* of every section (also of those in quotes and lists), the lines there   *)
(* are warnings about, the line a refusal is about, and what is delivered. *)
(***************************************************************************)
EXTENDS Format, TLC, Json, IOUtils

Dir == IOEnv.ORACLE_DIR
Batches == atoi(IOEnv.ORACLE_BATCHES)

VARIABLES batch, done
vars == <<batch, done>>

Reports(lines) ==
  FoldLeft(LAMBDA acc, sec :
             LET a == IF acc = <<>> THEN 1 ELSE acc[Len(acc)].b + 1
             IN  Append(acc, [k |-> sec.k, a |-> a, b |-> a + Len(sec.lines) - 1]),
           <<>>, Sections(lines))

RECURSIVE Places(_, _)
\* All blocks in the order they begin, and where they are: the first line is line first.
\* The entries of lists and the contents of quotes have as many lines as what they come
\* from.
Within(sec, first) ==
  CASE sec.k = QUOTE -> Places(QuoteContent(sec.lines), first)
    [] sec.k \in {BULLETS, NUMBERS} ->
         FoldLeft(LAMBDA acc, e : [ next |-> acc.next + Len(e),
                                    all  |-> acc.all \o Places(Dedented(e), acc.next) ],
                  [next |-> first, all |-> <<>>], Entries(sec.lines)).all
    [] OTHER -> <<>>
Places(lines, first) ==
  FoldLeft(LAMBDA acc, sec :
             LET a == acc.next
                 here == [ k |-> sec.k, a |-> a, b |-> a + Len(sec.lines) - 1,
                           previous |-> acc.previous, lines |-> sec.lines ]
             IN  [ next |-> here.b + 1, previous |-> sec.k,
                   all |-> Append(acc.all, here) \o Within(sec, a) ],
           [next |-> first, previous |-> BLANK, all |-> <<>>], Sections(lines)).all

\* What there is to warn about in a block, as [k |-> what, a |-> line]
Warnings(p) ==
  LET l == p.lines[1]
      m == p.lines[Len(p.lines)]
      W(k, a) == <<[k |-> k, a |-> a]>>
  IN  CASE p.k = ATX /\ ~StartsWithChar(LStripChar(Strip(l), HASH), SP) -> W("space", p.a)
        [] p.k = SETEXT /\ p.previous = QUOTE -> W("apart", p.a)
        [] p.k = FENCED /\ Len(p.lines) > 1 /\ Strip(m) = FenceOf(l)
           /\ Indent(m) > 3 + Indent(l) -> W("fence", p.b)
        [] p.k = DEFINITION /\ DefinitionParts(p.lines).link = <<>> -> W("link", p.a)
        [] OTHER -> <<>>

\* The line of a table that keeps it from being one, 0 if there is none
Fault(ls) ==
  LET divider == IF Len(ls) < 2 THEN <<>> ELSE Cells(ls[2])
      n == Len(Cells(ls[1]))
      odd == SelectInSeq(ls, LAMBDA l : l # ls[2] /\ Len(Cells(l)) # n)
  IN  IF Len(ls) < 2 \/ \E k \in 1..Len(divider) : ~IsDividerCell(divider[k]) THEN 1
      ELSE IF Len(divider) # n THEN 2
      ELSE odd
Faulty(p) == p.k = TABLE /\ ~TableParts(p.lines).ok

\* The reports cover all lines once.
Covering(reports, n) ==
  /\ \A k \in 1..Len(reports) :
       /\ reports[k].a <= reports[k].b
       /\ reports[k].a = IF k = 1 THEN 1 ELSE reports[k - 1].b + 1
  /\ (IF reports = <<>> THEN 0 ELSE reports[Len(reports)].b) = n

\* How much is printed: each -v is a level more, each -q a level less, as far as there are any.
Levels == <<"critical", "error", "warning", "info", "debug">>
Shown(v) ==
  LET n == 2 + v
      last == IF n < 1 THEN 1 ELSE IF n > Len(Levels) THEN Len(Levels) ELSE n
  IN  SubSeq(Levels, 1, last)

Answer(c) ==
  LET r == Reformat(c.t, c.w)
      lines == SplitLines(c.t)
      reports == Reports(lines)
      places == Places(lines, 1)
      faulty == SelectInSeq(places, Faulty)
      Nested == \A p \in 1..Len(places) :
                  /\ places[p].a <= places[p].b /\ places[p].b <= Len(lines)
                  /\ p = 1 \/ places[p - 1].a <= places[p].a
  IN  [ o |-> r.out, r |-> IF r.out = "ok" THEN Unlines(r.lines) ELSE <<>>,
        s |-> IF Assert(Covering(reports, Len(lines)) /\ Nested, lines) THEN reports ELSE <<>>,
        i |-> MapSeq(places, LAMBDA p : [k |-> p.k, a |-> p.a, b |-> p.b]),
        w |-> Flatten(MapSeq(places, Warnings)),
        f |-> IF faulty = 0 THEN 0
              ELSE places[faulty].a + Fault(places[faulty].lines) - 1,
        n |-> Len(lines),
        l |-> IF "v" \in DOMAIN c THEN Shown(c.v) ELSE <<>> ]

Init == batch \in 1..Batches /\ done = FALSE
Next ==
  /\ ~done
  /\ LET cases == JsonDeserialize(Dir \o "/" \o ToString(batch) \o ".in.json")
     IN  JsonSerialize(Dir \o "/" \o ToString(batch) \o ".out.json", MapSeq(cases, Answer))
  /\ done' = TRUE
  /\ UNCHANGED batch
Spec == Init /\ [][Next]_vars
=============================================================================
