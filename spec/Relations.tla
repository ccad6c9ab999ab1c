------------------------------ MODULE Relations ------------------------------
(***************************************************************************)
(* Properties that relate several formattings to each other.               *)
(*                                                                         *)
(* A case c is made of documents c.ds (sequences of lines), line lengths   *)
(* c.w and c.v, containers c.ctx, ways of respelling c.ways, and numbers   *)
(* c.z.  Runs(c) are the texts to format, given as                         *)
(*   [t |-> text, w |-> line length, of |-> 0]  or, to format what the     *)
(*   run with number of delivered, [t |-> <<>>, w |-> line length, of |-> n]. *)
(* Related(c, as) is whether the answers [o |-> outcome, r |-> lines] are  *)
(* related the way they should be.                                         *)
(***************************************************************************)
EXTENDS Respell

Text(lines) == Unlines(lines)
Run(text, w) == [t |-> text, w |-> w, of |-> 0]
RunOf(n, w) == [t |-> <<>>, w |-> w, of |-> n]

----------------------------------------------------------------------------
(* C15: line lengths                                                         *)

Flag(b) == IF b THEN <<1>> ELSE <<0>>

\* What doesn't depend on the line length.  (A line may end before the destination of a
\* link, so white space isn't compared here but by as[3].)
RECURSIVE Skeleton(_)
Skeleton(tree) ==
  MapSeq(tree, LAMBDA n :
    LET ls == n.lines
        last == Len(ls)
        own ==
          CASE n.k = PARAGRAPH -> <<Squeeze(ParagraphText(ls)), Flag(HardBreak(ls[last]))>>
            [] n.k = SETEXT -> <<Squeeze(ParagraphText(SubSeq(ls, 1, last - 1))), <<FirstChar(ls[last])>> >>
            [] n.k = THEMATIC -> << <<FirstChar(ls[1])>> >>
            [] n.k = DEFINITION ->
                 LET p == DefinitionParts(ls)
                 IN  <<p.label, p.link, p.title, Flag(p.link # <<>> /\ HasSub(ls[1], p.link))>>
            [] n.k \in {BULLETS, NUMBERS} ->
                 MapSeq(Entries(ls), LAMBDA e : SubSeq(e[1], 1, ItemMarkerEnd(e[1])))
            [] n.k = QUOTE -> <<QuotePrefix(ls)>>
            [] OTHER -> ls
    IN  [k |-> n.k, x |-> own, kids |-> MapSeq(n.kids, Skeleton)])

RunsC15(c) == <<Run(Text(c.ds[1]), c.w), Run(Text(c.ds[1]), c.v), RunOf(1, c.v)>>
RelatedC15(c, as) ==
  /\ as[1].o = as[2].o
  /\ as[1].o = "ok" =>
       /\ as[3].o = "ok"
       /\ as[3].r = as[2].r
       /\ Skeleton(Tree(as[1].r, c.w)) = Skeleton(Tree(as[2].r, c.v))

----------------------------------------------------------------------------
(* Containers: [k |-> "quote" / "tight" / "bullets" / "numbers", m |-> the   *)
(* marker of the list (a number's digits)]                                   *)

MarkerOf(x, k) ==
  CASE x.k = "bullets" -> x.m \o <<SP>>
    [] x.k = "numbers" -> NumberAfter(Canonical(x.m), k - 1) \o <<DOT, SP>>
    [] x.k = "quote" -> <<GT, SP>>
    [] x.k = "tight" -> <<GT>>
InQuote(prefix, lines) == MapSeq(lines, LAMBDA l : IF l = <<>> THEN <<GT>> ELSE prefix \o l)
InList(marker, lines) ==
  IF lines = <<>> THEN <<marker>>
  ELSE <<marker \o lines[1]>>
       \o MapSeq(Tail(lines), LAMBDA l : IF l = <<>> THEN <<>> ELSE Spaces(Len(marker)) \o l)
Within(x, docs) ==
  IF x.k \in {"quote", "tight"} THEN InQuote(MarkerOf(x, 1), Flatten(docs))
  ELSE Flatten([k \in 1..Len(docs) |-> InList(MarkerOf(x, k), docs[k])])
\* All containers, the innermost one (first) holds the documents
WithinAll(ctx, docs) ==
  FoldLeft(LAMBDA acc, x : Within(x, <<acc>>), Within(ctx[1], docs), Tail(ctx))
\* The line length that is left for document k
RECURSIVE Left(_, _)
Left(ctx, w) == IF ctx = <<>> THEN w ELSE Left(SubSeq(ctx, 1, Len(ctx) - 1), w - Len(MarkerOf(ctx[Len(ctx)], 1)))
LeftFor(ctx, w, k) == Left(Tail(ctx), w) - Len(MarkerOf(ctx[1], k))

(* C18: what is in containers *)
RunsC18(c) ==
  [k \in 1..Len(c.ds) |-> Run(Text(c.ds[k]), LeftFor(c.ctx, c.w, k))]
  \o <<Run(Text(WithinAll(c.ctx, c.ds)), c.w)>>
RelatedC18(c, as) ==
  LET n == Len(c.ds) IN
  (\A k \in 1..n : as[k].o = "ok") =>
    /\ as[n + 1].o = "ok"
    /\ as[n + 1].r = WithinAll(c.ctx, [k \in 1..n |-> as[k].r])

----------------------------------------------------------------------------
(* C17: documents one after another, with blank lines between them           *)

Apart(docs) == Join(docs, << <<>> >>)
RunsC17(c) == [k \in 1..Len(c.ds) |-> Run(Text(c.ds[k]), c.w)] \o <<Run(Text(Apart(c.ds)), c.w)>>
RelatedC17(c, as) ==
  LET n == Len(c.ds) IN
  (\A k \in 1..n : as[k].o = "ok") =>
    /\ as[n + 1].o = "ok"
    /\ as[n + 1].r = Apart([k \in 1..n |-> as[k].r])

----------------------------------------------------------------------------
(* C16: other spellings, maybe within containers                             *)

Respelled(c) ==
  LET Step(acc, k) == RespellLines(acc, c.ways[k], Tail1(c.z, 1 + (k % 5)))
  IN  FoldLeft(Step, c.ds[1], [k \in 1..Len(c.ways) |-> k])
Contained(c, lines) == IF c.ctx = <<>> THEN lines ELSE WithinAll(c.ctx, <<lines>>)
RunsC16(c) ==
  <<Run(Text(Contained(c, c.ds[1])), c.w),
    Run(RespellText(Contained(c, Respelled(c)), c.z), c.w)>>
RelatedC16(c, as) == as[1] = as[2]

----------------------------------------------------------------------------
Runs(c) ==
  CASE c.k = "C15" -> RunsC15(c) [] c.k = "C16" -> RunsC16(c)
    [] c.k = "C17" -> RunsC17(c) [] c.k = "C18" -> RunsC18(c)
Related(c, as) ==
  CASE c.k = "C15" -> RelatedC15(c, as) [] c.k = "C16" -> RelatedC16(c, as)
    [] c.k = "C17" -> RelatedC17(c, as) [] c.k = "C18" -> RelatedC18(c, as)

Answered(text, w) ==
  LET r == Reformat(text, w) IN [o |-> r.out, r |-> r.lines]
\* What the specification answers to all runs
Answers(runs) ==
  FoldLeft(LAMBDA acc, run :
             Append(acc, IF run.of = 0 THEN Answered(run.t, run.w)
                         ELSE IF acc[run.of].o = "ok" THEN Answered(Text(acc[run.of].r), run.w)
                         ELSE acc[run.of]),
           <<>>, runs)
=============================================================================
