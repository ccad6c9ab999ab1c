------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* Formatting as a transition system: a document is written line by line   *)
(* (by anyone), then read section by section, each of which is formatted   *)
(* when it's read; what comes out is trimmed and read once more.           *)
(*                                                                         *)
(* The functions in Format are what this computes (Computes), but here the *)
(* properties can be looked at while it does so.                           *)
(***************************************************************************)
EXTENDS Props

CONSTANTS
  LineSet,    \* the lines documents consist of
  MaxLines,   \* at most that many
  Widths

VARIABLES
  phase,      \* "writing", "first", "second", "ok", "malformed", "inconsistent"
  doc,        \* the lines of the document
  w,          \* the line length
  at,         \* the next line that is to be read
  secs,       \* the sections of this pass that were read
  done,       \* the lines they became
  first       \* what the first pass delivered
vars == <<phase, doc, w, at, secs, done, first>>

Source == IF first # <<>> THEN first ELSE doc

Init ==
  /\ phase = "writing" /\ doc = <<>> /\ w \in Widths
  /\ at = 1 /\ secs = <<>> /\ done = <<>> /\ first = <<>>

Write ==
  /\ phase = "writing" /\ Len(doc) < MaxLines
  /\ \E l \in LineSet : doc' = Append(doc, l)
  /\ UNCHANGED <<phase, w, at, secs, done, first>>

Start ==
  /\ phase = "writing"
  /\ phase' = "first"
  /\ UNCHANGED <<doc, w, at, secs, done, first>>

ReadSection ==
  /\ phase \in {"first", "second"} /\ at <= Len(Source)
  /\ LET next == NextSection(Source, at)
         sec == [k |-> next.k, lines |-> SubSeq(Source, at, at + next.n - 1)]
         f == FormatSection(sec, w)
         previous == IF secs = <<>> THEN BLANK ELSE secs[Len(secs)].k
         gap == IF NeedsBlank(previous, sec) THEN << <<>> >> ELSE <<>>
     IN  IF f.ok
         THEN /\ at' = at + next.n
              /\ secs' = Append(secs, sec)
              /\ done' = done \o gap \o f.lines
              /\ UNCHANGED phase
         ELSE phase' = "malformed" /\ UNCHANGED <<at, secs, done>>
  /\ UNCHANGED <<doc, w, first>>

EndOfFirst ==
  /\ phase = "first" /\ at > Len(doc)
  /\ phase' = "second"
  /\ first' = TrimEnd(done)
  /\ at' = 1 /\ secs' = <<>> /\ done' = <<>>
  /\ UNCHANGED <<doc, w>>

EndOfSecond ==
  /\ phase = "second" /\ at > Len(first)
  /\ phase' = IF TrimEnd(done) = first THEN "ok" ELSE "inconsistent"
  /\ UNCHANGED <<doc, w, at, secs, done, first>>

Next == Write \/ Start \/ ReadSection \/ EndOfFirst \/ EndOfSecond
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ ReadSection \/ EndOfFirst \/ EndOfSecond)

Ended == phase \in {"ok", "malformed", "inconsistent"}

----------------------------------------------------------------------------
(* Properties of the states                                                  *)

\* Every line that was read is in exactly one section, in order (C03, C26).
Partition == Flatten(MapSeq(secs, LAMBDA s : s.lines)) = SubSeq(Source, 1, at - 1)

\* Every section takes at least a line, so that it ends (C02).
Progress == \A i \in 1..Len(secs) : Len(secs[i].lines) > 0
Terminates == <>Ended

\* This is what the functions define.
Computes ==
  LET r == Reformat(Unlines(doc), w)
  IN  Ended => /\ phase = r.out
               /\ phase = "ok" => r.lines = first

\* What was read so far doesn't depend on what follows, except that lists, quotes,
\* paragraphs and definitions may go on (C17).
Prefix == phase = "first" => secs = SubSeq(Sections(doc), 1, Len(secs))

\* What is delivered is stable, at any later time (C01).
Stable == phase = "ok" => Pass(first, w) = Ok(first)

\* Ordinary documents are formatted (C02)
Accepted ==
  phase = "inconsistent" =>
    ~(OrdinaryTree(Tree(doc, w)) /\ OrdinaryInline(Nodes(Tree(doc, w))))

\* All that is promised for ordinary documents (C03 to C14)
Theorems == phase = "ok" => TheoremsHold(doc, w, first)

\* and for all (C13)
Tidy ==
  phase = "ok" =>
    LET text == Unlines(first)
    IN  /\ HygienicText(text)
        /\ \A i \in 1..Len(first) :
             \/ Trailing(first[i]) = <<>>
             \/ HardBreak(first[i]) /\ Trailing(first[i]) = <<SP, SP>>
             \/ \E k \in 1..Len(first[i]) : LoneMarker(SubSeq(first[i], k, Len(first[i])))

----------------------------------------------------------------------------
(* Relations between runs, for documents that are formatted                  *)

Become(lines, width) ==
  LET r == Reformat(Unlines(lines), width) IN [o |-> r.out, r |-> r.lines]
QuotedLines(lines) == MapSeq(lines, LAMBDA l : IF l = <<>> THEN <<GT>> ELSE <<GT, SP>> \o l)
EntryOf(lines) == <<<<STAR, SP>> \o lines[1]>>
                  \o MapSeq(Tail(lines), LAMBDA l : IF l = <<>> THEN l ELSE <<SP, SP>> \o l)

\* C18: what is quoted is formatted like a document (unless its first line is indented,
\* since that decides how the quote's markers are spaced; blank lines at the end stay)
Quoted ==
  (/\ phase = "ok" /\ OrdinaryTree(Tree(doc, w))
   /\ doc # <<>> /\ ~Blank(doc[Len(doc)])
   /\ LET k == SelectInSeq(doc, LAMBDA l : ~Blank(l)) IN Indent(doc[k]) = 0) =>
    Become(QuotedLines(doc), w + 2) = [o |-> "ok", r |-> QuotedLines(first)]

\* C15: the line length a document had before doesn't matter
Rewidth ==
  (phase = "ok" /\ OrdinaryTree(Tree(doc, w))) =>
    \A v \in Widths :
      LET direct == Become(doc, v)
      IN  direct.o = "ok" => Become(first, v) = direct

\* C17: what precedes or follows a blank line doesn't matter
Apart ==
  phase = "ok" =>
    \A i \in 1..(Len(doc) - 1) :
      LET a == SubSeq(doc, 1, i)
          b == SubSeq(doc, i + 1, Len(doc))
          fa == Become(a, w)
          fb == Become(b, w)
          as == Nodes(Tree(a, w))
      IN  (/\ ~Blank(a[i]) /\ ~Blank(b[1]) /\ fa.o = "ok" /\ fb.o = "ok"
           /\ OrdinaryTree(Tree(a, w))
           /\ as[Len(as)].k \notin {FENCED, INDENTED}
           \* (What follows could close it.)
           /\ \A j \in DOMAIN as : as[j].k = FENCED =>
                LET ls == as[j].lines IN Len(ls) > 1 /\ Strip(ls[Len(ls)]) = FenceOf(ls[1])
           /\ ~HardBreak(a[i]))
          => Become(a \o << <<>> >> \o b, w) = [o |-> "ok", r |-> fa.r \o << <<>> >> \o fb.r]
=============================================================================
