------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Judges what the implementation made of documents.                       *)
(*                                                                         *)
(* A case is [t |-> text, w |-> line length, o |-> outcome, r |-> text     *)
(* delivered, s |-> what came of that when it was reformatted again:       *)
(* "same", "other", or "none"].  The outcomes are "ok", the two refusals   *)
(* "inconsistent" and "malformed", and the failures "crash" and "timeout". *)
(* The verdict is the set of properties the case breaks.                   *)
(***************************************************************************)
EXTENDS Props, TLC, Json, IOUtils

Dir == IOEnv.ORACLE_DIR
Batches == atoi(IOEnv.ORACLE_BATCHES)

VARIABLES batch, done
vars == <<batch, done>>

Verdict(c) ==
  LET t == SplitLines(c.t)
      r == Reformat(c.t, c.w)
      expected == IF r.out = "ok" THEN Unlines(r.lines) ELSE <<>>
      unstable == IF c.o = "ok" /\ c.s = "other" THEN {"C01"} ELSE {}
      dishonest ==
        IF \/ c.o \notin {"ok", "inconsistent", "malformed"}
           \/ r.out = "ok" /\ c.o # "ok"
           \/ r.out = "malformed" /\ c.o # "malformed"
           \/ r.out = "inconsistent" /\ c.o = "malformed"
        THEN {"C02"} ELSE {}
      accepted == IF r.out = "malformed" /\ c.o = "ok" THEN {"C11"} ELSE {}
      rejected == IF r.out # "malformed" /\ c.o = "malformed" THEN {"C11"} ELSE {}
      withheld == IF r.out = "ok" /\ c.o # "ok" THEN Withheld(t, c.w) ELSE {}
      \* If the specification refuses a document, all that can be said of a delivery is
      \* whether it preserves everything.
      m == IF r.out = "ok" THEN r.lines
           ELSE IF Pass(t, c.w).ok THEN Pass(t, c.w).lines ELSE <<>>
      broken ==
        IF c.o # "ok" \/ (r.out = "ok" /\ c.r = expected) \/ r.out = "malformed" THEN {}
        ELSE IF r.out = "ok" THEN Broken(t, c.w, c.r, m)
        ELSE IF HygienicText(c.r) THEN {} ELSE {"C13"}
  IN  [ ids |-> SetToSeq(unstable \cup dishonest \cup accepted \cup rejected \cup withheld
                         \cup broken),
        exp |-> [o |-> r.out, r |-> expected] ]

Init == batch \in 1..Batches /\ done = FALSE
Next ==
  /\ ~done
  /\ LET cases == JsonDeserialize(Dir \o "/" \o ToString(batch) \o ".in.json")
     IN  JsonSerialize(Dir \o "/" \o ToString(batch) \o ".out.json", MapSeq(cases, Verdict))
  /\ done' = TRUE
  /\ UNCHANGED batch
Spec == Init /\ [][Next]_vars
=============================================================================
