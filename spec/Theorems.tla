----------------------------- MODULE Theorems ------------------------------
(***************************************************************************)
(* Whether the specification itself preserves what it should, document by  *)
(* document: the theorems of Props, for documents larger than those that   *)
(* MC_Engine goes through.                                                 *)
(*                                                                         *)
(* A case is [t |-> text, w |-> line length]; the answer is the set of the *)
(* theorems that don't hold for it.  (It is empty unless the document is   *)
(* ordinary and delivered.)                                                *)
(***************************************************************************)
EXTENDS Props, TLC, Json, IOUtils

Dir == IOEnv.ORACLE_DIR
Batches == atoi(IOEnv.ORACLE_BATCHES)

VARIABLES batch, done
vars == <<batch, done>>

Failing(c) ==
  LET r == Reformat(c.t, c.w)
      tt == Tree(SplitLines(c.t), c.w)
      tm == Tree(r.lines, c.w)
      nt == Nodes(tt)
      nm == Nodes(tm)
      If(holds, id) == IF holds THEN {} ELSE {id}
  IN  SetToSeq(
        IF r.out # "ok" THEN (IF OrdinaryTree(tt) THEN {r.out} ELSE {})
        ELSE IF ~OrdinaryTree(tt) THEN {}
        ELSE If(PreservesOutline(tt, tm), "C05")
          \cup If(PreservesText(nt, nm), "C03")
          \cup If(PreservesCode(nt, nm), "C04")
          \cup If(PreservesHardBreaks(nt, nm), "C06")
          \cup If(PreservesNormalForm(nt, nm), "normal")
          \cup If(PreservesFilling(nt, nm), "C07")
          \cup If(AllGreedy(nm), "greedy")
          \cup If(OrdinaryInline(nt) => PreservesAtoms(nt, nm), "atoms"))

Init == batch \in 1..Batches /\ done = FALSE
Next ==
  /\ ~done
  /\ LET cases == JsonDeserialize(Dir \o "/" \o ToString(batch) \o ".in.json")
     IN  JsonSerialize(Dir \o "/" \o ToString(batch) \o ".out.json", MapSeq(cases, Failing))
  /\ done' = TRUE
  /\ UNCHANGED batch
Spec == Init /\ [][Next]_vars
=============================================================================
