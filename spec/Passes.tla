------------------------------- MODULE Passes -------------------------------
(***************************************************************************)
(* What the first and the second pass over documents deliver (which are    *)
(* the renders that can be asked for if those differ).                     *)
(***************************************************************************)
EXTENDS Format, TLC, Json, IOUtils

Dir == IOEnv.ORACLE_DIR
Batches == atoi(IOEnv.ORACLE_BATCHES)

VARIABLES batch, done
vars == <<batch, done>>

Answer(c) ==
  LET r == Reformat(c.t, c.w)
      p1 == Pass(SplitLines(c.t), c.w)
      p2 == Pass(p1.lines, c.w)
  IN  IF r.out # "inconsistent" THEN [o |-> r.out, p1 |-> <<>>, p2 |-> <<>>]
      ELSE [o |-> r.out, p1 |-> Unlines(p1.lines), p2 |-> Unlines(p2.lines)]

Init == batch \in 1..Batches /\ done = FALSE
Next ==
  /\ ~done
  /\ LET cases == JsonDeserialize(Dir \o "/" \o ToString(batch) \o ".in.json")
     IN  JsonSerialize(Dir \o "/" \o ToString(batch) \o ".out.json", MapSeq(cases, Answer))
  /\ done' = TRUE
  /\ UNCHANGED batch
Spec == Init /\ [][Next]_vars
=============================================================================
