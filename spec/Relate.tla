------------------------------- MODULE Relate -------------------------------
(***************************************************************************)
(* Batches of cases that relate several formattings.                       *)
(*                                                                         *)
(* Plan: from k.in.json (cases), k.out.json tells what to run, what is to  *)
(* be expected, and whether that is related as it should be (where it      *)
(* isn't, the case isn't one of those the property is promised for).       *)
(* Judge: k.in.json are [c |-> case, as |-> what was answered], k.out.json *)
(* tells whether those answers are related as they should be.              *)
(***************************************************************************)
EXTENDS Relations, TLC, Json, IOUtils

Dir == IOEnv.ORACLE_DIR
Batches == atoi(IOEnv.ORACLE_BATCHES)
Mode == IOEnv.ORACLE_MODE

VARIABLES batch, done
vars == <<batch, done>>

Plan(c) ==
  LET runs == Runs(c)
      as == Answers(runs)
  IN  [ runs |-> runs,
        exp |-> MapSeq(as, LAMBDA a : [o |-> a.o, r |-> IF a.o = "ok" THEN Text(a.r) ELSE <<>>]),
        holds |-> Related(c, as) ]

Verdict(x) ==
  Related(x.c, MapSeq(x.as, LAMBDA a :
    [o |-> a.o, r |-> IF a.o = "ok" THEN SplitLines(a.r) ELSE <<>>]))

Init == batch \in 1..Batches /\ done = FALSE
Next ==
  /\ ~done
  /\ LET cases == JsonDeserialize(Dir \o "/" \o ToString(batch) \o ".in.json")
     IN  JsonSerialize(Dir \o "/" \o ToString(batch) \o ".out.json",
                       IF Mode = "plan" THEN MapSeq(cases, Plan) ELSE MapSeq(cases, Verdict))
  /\ done' = TRUE
  /\ UNCHANGED batch
Spec == Init /\ [][Next]_vars
=============================================================================
