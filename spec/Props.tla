------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The properties of single documents.                                     *)
(*                                                                         *)
(* Given a document T (lines), a line length w, and the lines O that were  *)
(* delivered for it, Broken(T, w, O) is the set of the properties that the *)
(* delivery breaks.  M are the lines that the specification delivers.      *)
(*                                                                         *)
(* The properties come in two forms.  Preserves_X relates what went in to  *)
(* what came out, whatever that looks like.  Same_X compares what came out *)
(* to what should have: only the part property X speaks about, though.     *)
(* That Preserves_X holds for every M of an ordinary document is a theorem *)
(* about the specification, checked in MC_*.cfg and for every document     *)
(* that is generated.                                                      *)
(***************************************************************************)
EXTENDS Views

----------------------------------------------------------------------------
(* Ordinary documents: those the Preserves_X are promised for.               *)

EntryHasText(e) ==
  LET rest == Tail1(e[1], ItemMarkerEnd(e[1]) + 1)
  IN  ~Blank(rest) /\ rest[1] \in {SP, TAB} /\ (\A i \in 2..Len(rest) : rest[i] # TAB \/ i > Indent(rest))

\* Text that looks like a link reference definition, but isn't one
LooksLikeDefinition(l) ==
  LET s == LStrip(l) IN StartsWithChar(s, LBRA)

\* A marker and nothing else, or what might be a thematic break after one
LoneMarker(l) ==
  LET s == Strip(l)
  IN  s # <<>> /\ (\/ MarkerEnd(s, 1, NoLimit) = Len(s) + 1
                   \/ \A i \in 1..Len(s) : s[i] \in {DASH, STAR, UNDER, SP})

RECURSIVE OrdinaryTree(_)
OrdinaryTree(tree) ==
  \A i \in 1..Len(tree) :
    LET n == tree[i] IN
    /\ n.k \in {BULLETS, NUMBERS} =>
         \A j \in 1..Len(Entries(n.lines)) : EntryHasText(Entries(n.lines)[j])
    /\ n.k \in {PARAGRAPH, SETEXT} =>
         \A j \in 1..Len(n.lines) :
           ~LooksLikeDefinition(n.lines[j]) /\ ~LoneMarker(n.lines[j])
    /\ n.k = DEFINITION => DefinitionParts(n.lines).link # <<>>
    /\ (n.k = SETEXT /\ i > 1) => tree[i - 1].k # QUOTE
    \* (might become a lazy line of the quote)
    /\ (n.k = PARAGRAPH /\ i > 1 /\ tree[i - 1].k \in {QUOTE, DEFINITION}) => ~IsUnderline(n.lines[1])
    \* (might become the title of the definition)
    /\ (n.k = PARAGRAPH /\ i > 1 /\ tree[i - 1].k = DEFINITION) =>
         FirstChar(n.lines[1]) \notin {DQUOTE, SQUOTE, LPAR}
    /\ \A j \in 1..Len(n.kids) : OrdinaryTree(n.kids[j])

\* A link that follows another one on the same line but not directly, and begins with
\* other characters.  (The space before it is lost.)
RECURSIVE GluedFrom(_, _, _)
GluedFrom(s, links, k) ==
  /\ k < Len(links)
  /\ LET gap == SubSeq(s, links[k].b + 1, links[k + 1].a - 1)
     IN  \/ gap # <<>> /\ Blank(gap) /\ s[links[k + 1].a] \notin {LBRA, BANG}
         \/ GluedFrom(s, links, k + 1)
\* Brackets that are neither nested nor left open
Alternating(s) ==
  FoldLeft(LAMBDA st, c : IF c = LBRA THEN (IF st = 0 THEN 1 ELSE 2)
                          ELSE IF c = RBRA THEN (IF st = 1 THEN 0 ELSE 2) ELSE st,
           0, s) = 0
\* Links without a destination
Hollow(s) == \E i \in 1..Len(s) : s[i] = RBRA /\ i + 1 < Len(s) /\ s[i + 1] \in {LPAR, LBRA}
                                 /\ (IsSpace(s[i + 2]) \/ s[i + 2] \in {RPAR, RBRA})
GluedLinks(n) ==
  LET codeless == CodeSplit(Strip(InlineText(n)), FALSE)
  IN  \E i \in 1..Len(codeless) :
        codeless[i].ev /\
        LET s == codeless[i].t
        IN  ~Alternating(s) \/ Hollow(s) \/ GluedFrom(s, Links(s), 1)

OrdinaryInline(nodes) ==
  LET ps == TextNodes(nodes) IN \A i \in 1..Len(ps) : ~GluedLinks(ps[i])

----------------------------------------------------------------------------
LeafKinds == <<ATX, SETEXT, FENCED, INDENTED, PARAGRAPH, DEFINITION, TABLE, THEMATIC>>
Normal(n) == FormatSection([k |-> n.k, lines |-> n.lines], n.w).lines
Normals(nodes, k) == MapSeq(OfKind(nodes, {k}), Normal)
RStripAll(ss) == MapSeq(ss, LAMBDA ls : MapSeq(ls, RStrip))

\* Each of these is a theorem for ordinary documents T (with O = M).
PreservesOutline(t, o) == Outline(t) = Outline(o)
PreservesText(nt, no) == Contents(nt) = Contents(no)
PreservesCode(nt, no) ==
  /\ Normals(nt, FENCED) = LinesOf(no, {FENCED})
  /\ RStripAll(LinesOf(nt, {INDENTED})) = LinesOf(no, {INDENTED})
PreservesAtoms(nt, no) == Atoms(nt) = Atoms(no)
PreservesHardBreaks(nt, no) == HardBreaks(nt) = HardBreaks(no)
PreservesNormalForm(nt, no) ==
  \A k \in {ATX, SETEXT, TABLE, THEMATIC, DEFINITION} : Normals(nt, k) = LinesOf(no, {k})
PreservesFilling(nt, no) ==
  RStripAll(Normals(nt, PARAGRAPH)) = RStripAll(LinesOf(no, {PARAGRAPH}))

\* Every line of running text is as long as possible, but not longer than it may be.
\* (Said without reference to how it is filled.  Code, links and line breaks are left out, because a
\* line of it might be something else on its own.)
Greedy(n) ==
  LET ls == MapSeq(n.lines, RStrip)
      Plain(l) == Find(l, 1, LAMBDA c : c \in {TICK, LBRA, LT}) = 0
      \* What would have to be moved to the line before
      First(l) == Chunks(Items(Strip(l)))[1].t
  IN  (\A i \in 1..Len(ls) : Plain(ls[i])) =>
        \A i \in 1..Len(ls) :
          /\ n.w > 0 => (Len(ls[i]) <= n.w \/ Len(Chunks(Items(ls[i]))) = 1)
          /\ (i < Len(ls) /\ ~EndBreak(ls[i])) =>
               n.w > 0 /\ Len(ls[i]) + 1 + Len(First(ls[i + 1])) > n.w
AllGreedy(nodes) ==
  LET ps == OfKind(nodes, {PARAGRAPH}) IN \A i \in 1..Len(ps) : Greedy(ps[i])

TheoremsHold(t, w, m) ==
  LET tt == Tree(t, w)
      tm == Tree(m, w)
      nt == Nodes(tt)
      nm == Nodes(tm)
  IN  OrdinaryTree(tt) =>
        /\ PreservesOutline(tt, tm)
        /\ PreservesText(nt, nm)
        /\ PreservesCode(nt, nm)
        /\ PreservesHardBreaks(nt, nm)
        /\ PreservesNormalForm(nt, nm)
        /\ PreservesFilling(nt, nm)
        /\ AllGreedy(nm)
        /\ OrdinaryInline(nt) => PreservesAtoms(nt, nm)

----------------------------------------------------------------------------
(* What a delivery breaks.                                                   *)

\* These hold for texts that are delivered, no matter what for.
HygienicText(text) == EndsOnce(text) /\ OnlyLineFeeds(text)

Ids == {"C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"}

Broken(t, w, text, m) ==
  LET o == SplitLines(text)
      tt == Tree(t, w)
      to == Tree(o, w)
      tm == Tree(m, w)
      nt == Nodes(tt)
      no == Nodes(to)
      nm == Nodes(tm)
      \* If the specification itself doesn't preserve something, it doesn't matter what
      \* the implementation makes of that as long as it does.
      Strange == ~OrdinaryTree(tt)
      D(same, preserved) == ~same /\ ~(Strange /\ preserved)
      LinesSame(kinds) == LinesOf(no, kinds) = LinesOf(nm, kinds)
      outline == PreservesOutline(tt, to)
  IN
  {id \in Ids :
     CASE id = "C03" -> D(AllText(no) = AllText(nm), AllText(no) = AllText(nt))
       [] id = "C04" -> D(LinesSame({FENCED, INDENTED}), PreservesCode(nt, no))
       [] id = "C05" -> D(Outline(to) = Outline(tm), outline)
       [] id = "C06" -> D(/\ Atoms(no) = Atoms(nm)
                          /\ HardBreaks(no) = HardBreaks(nm)
                          /\ BreakLines(no) = BreakLines(nm),
                          PreservesAtoms(nt, no) /\ PreservesHardBreaks(nt, no))
       [] id = "C07" -> D(LinesSame({PARAGRAPH}), PreservesFilling(nt, no))
       [] id = "C08" -> D(LinesSame({ATX, SETEXT}),
                          \A k \in {ATX, SETEXT} : Normals(nt, k) = LinesOf(no, {k}))
       [] id = "C09" -> D(Lists(no) = Lists(nm), outline)
       [] id = "C10" -> D(Quotes(no) = Quotes(nm), outline)
       [] id = "C11" -> D(LinesSame({TABLE}), Normals(nt, TABLE) = LinesOf(no, {TABLE}))
       [] id = "C12" -> D(LinesSame({DEFINITION}),
                          Normals(nt, DEFINITION) = LinesOf(no, {DEFINITION}))
       [] id = "C13" -> \/ ~HygienicText(text)
                        \/ D(/\ Layout(to) = Layout(tm)
                             /\ SelectSeq(Trailings(o), LAMBDA x : x # <<>>) =
                                SelectSeq(Trailings(m), LAMBDA x : x # <<>>), outline)
       [] id = "C14" -> D(LinesSame({THEMATIC}), Normals(nt, THEMATIC) = LinesOf(no, {THEMATIC}))}

\* The kinds of blocks a property is about
KindsOf(id) ==
  CASE id = "C04" -> {FENCED, INDENTED}
    [] id = "C06" -> {PARAGRAPH, SETEXT}
    [] id = "C07" -> {PARAGRAPH}
    [] id = "C08" -> {ATX, SETEXT}
    [] id = "C09" -> {BULLETS, NUMBERS}
    [] id = "C10" -> {QUOTE}
    [] id = "C11" -> {TABLE}
    [] id = "C12" -> {DEFINITION}
    [] id = "C14" -> {THEMATIC}
    [] OTHER -> {}

\* A document that isn't delivered although it should be breaks a property if there is
\* nothing else in it.
Withheld(t, w) ==
  LET nodes == Nodes(Tree(t, w))
      kinds == {nodes[i].k : i \in 1..Len(nodes)} \ {BLANK}
  IN  {id \in Ids : KindsOf(id) # {} /\ kinds \cap KindsOf(id) # {}
                    /\ kinds \subseteq KindsOf(id) \cup {PARAGRAPH}}
=============================================================================
