------------------------------- MODULE History -------------------------------
(***************************************************************************)
(* Judges recorded histories of a process: threads that format documents   *)
(* one after another or at the same time, someone who changes what is      *)
(* logged, and a bystander who logs and looks at the configuration of      *)
(* logging all the time.                                                   *)
(*                                                                         *)
(* What is asked (a document, a line length, and a verbosity) is a number  *)
(* q; Solo[q] is what a process in which nothing else ever happened        *)
(* answered, and what it logged meanwhile.  A history is accepted if every *)
(* step of it is one of this machine, in which the answers and what is     *)
(* logged are functions of q.  These are what NothingElse, Everything, and *)
(* Untouched of Threads amount to if the order within a thread counts.     *)
(*                                                                         *)
(* Events [e, t, x]:                                                       *)
(*   begin t x   thread t asks x          log t x    a record of thread t  *)
(*   end t x     thread t is answered x   say x      the bystander logs x  *)
(*   heard x     that has arrived         set x      logging is set to x   *)
(*   look x      logging looks like x                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

Dir == IOEnv.ORACLE_DIR
Batches == atoi(IOEnv.ORACLE_BATCHES)

VARIABLES batch, done
vars == <<batch, done>>

\* State: what threads are asked (0 if nothing), how many records of that there were,
\* what the bystander waits for (0 if nothing), and how logging looks.
Start(n, conf) == [q |-> [t \in 1..n |-> 0], at |-> [t \in 1..n |-> 0], wait |-> 0, conf |-> conf]

Allowed(s, solo, v) ==
  CASE v.e = "begin" -> s.q[v.t] = 0
    [] v.e = "log"   -> LET logs == solo[s.q[v.t]].logs
                        IN  s.q[v.t] # 0 /\ s.at[v.t] < Len(logs) /\ logs[s.at[v.t] + 1] = v.x
    [] v.e = "end"   -> /\ s.q[v.t] # 0
                        /\ solo[s.q[v.t]].ans = v.x
                        /\ s.at[v.t] = Len(solo[s.q[v.t]].logs)
    [] v.e = "say"   -> s.wait = 0
    [] v.e = "heard" -> s.wait = v.x
    [] v.e = "set"   -> TRUE
    [] v.e = "look"  -> s.conf = v.x
    [] OTHER -> FALSE

Step(s, v) ==
  CASE v.e = "begin" -> [s EXCEPT !.q[v.t] = v.x, !.at[v.t] = 0]
    [] v.e = "log"   -> [s EXCEPT !.at[v.t] = @ + 1]
    [] v.e = "end"   -> [s EXCEPT !.q[v.t] = 0]
    [] v.e = "say"   -> [s EXCEPT !.wait = v.x]
    [] v.e = "heard" -> [s EXCEPT !.wait = 0]
    [] v.e = "set"   -> [s EXCEPT !.conf = v.x]
    [] OTHER -> s

\* At the end, everyone has been answered and everything was heard.
Final(s) == s.wait = 0 /\ \A t \in DOMAIN s.q : s.q[t] = 0

\* The number of the first event that isn't allowed (0 if there is none)
Verdict(h) ==
  LET run == FoldLeft(LAMBDA acc, v :
                        IF acc.bad # 0 THEN acc
                        ELSE IF Allowed(acc.s, h.solo, v)
                        THEN [s |-> Step(acc.s, v), n |-> acc.n + 1, bad |-> 0]
                        ELSE [acc EXCEPT !.bad = acc.n],
                      [s |-> Start(h.threads, h.conf), n |-> 1, bad |-> 0], h.events)
  IN  IF run.bad = 0 /\ ~Final(run.s) THEN Len(h.events) + 1 ELSE run.bad

Init == batch \in 1..Batches /\ done = FALSE
Next ==
  /\ ~done
  /\ LET cases == JsonDeserialize(Dir \o "/" \o ToString(batch) \o ".in.json")
     IN  JsonSerialize(Dir \o "/" \o ToString(batch) \o ".out.json",
                       [k \in 1..Len(cases) |-> [bad |-> Verdict(cases[k])]])
  /\ done' = TRUE
  /\ UNCHANGED batch
Spec == Init /\ [][Next]_vars
=============================================================================
