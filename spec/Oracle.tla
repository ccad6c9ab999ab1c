------------------------------- MODULE Oracle -------------------------------
(***************************************************************************)
(* What the specification says becomes of documents.  Each state is a      *)
(* batch: the documents of batch b are read from b.in.json, and what       *)
(* becomes of them is written to b.out.json.                               *)
(***************************************************************************)
EXTENDS Format, TLC, Json, IOUtils

Dir == IOEnv.ORACLE_DIR
Batches == atoi(IOEnv.ORACLE_BATCHES)

VARIABLES batch, done
vars == <<batch, done>>

Answer(c) ==
  LET r == Reformat(c.t, c.w)
  IN  [o |-> r.out, r |-> IF r.out = "ok" THEN Unlines(r.lines) ELSE <<>>]

Init == batch \in 1..Batches /\ done = FALSE
Next ==
  /\ ~done
  /\ LET cases == JsonDeserialize(Dir \o "/" \o ToString(batch) \o ".in.json")
     IN  JsonSerialize(Dir \o "/" \o ToString(batch) \o ".out.json", MapSeq(cases, Answer))
  /\ done' = TRUE
  /\ UNCHANGED batch
Spec == Init /\ [][Next]_vars
=============================================================================
