------------------------------- MODULE Threads -------------------------------
(***************************************************************************)
(* Several threads of a process format documents at the same time, while   *)
(* others log.                                                             *)
(*                                                                         *)
(* Formatting a document reports its sections (at level info) in a first   *)
(* pass, and goes through what came of that a second time, muted.  What is *)
(* in containers is reported at a lower level (debug).  Whether a thread   *)
(* is muted or redirected is remembered: in a variable of its own          *)
(* (Shared = FALSE), or in one for all (Shared = TRUE, which is how it     *)
(* must not be done: TLC finds the reports that are lost or redirected     *)
(* then, and the flags that stay set if the others of them are refused).   *)
(*                                                                         *)
(* Calls[t] is the sequence of calls of thread t.  A call is a sequence of *)
(* sections, each TRUE if it is a container (with a section inside), and   *)
(* whether the document is refused in the second pass.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Calls, Shared

\* Where in a call a thread is
IDLE == "idle"
FIRST == "first"      \* reports section at[t]
ENTER == "enter"      \* about to redirect (section at[t] is a container)
INSIDE == "inside"    \* reports what is in it
LEAVE == "leave"      \* about to restore
MUTE == "mute"        \* about to set the flag of the second pass
SECOND == "second"
ENTER2 == "enter2"
INSIDE2 == "inside2"
LEAVE2 == "leave2"
UNMUTE == "unmute"

VARIABLES
  pc, at,
  call,      \* the number of the call a thread is at
  muted,     \* per thread (for all of them if Shared, then those are the same)
  level,     \* "info" or "debug", likewise
  saved,     \* what the level was before it was redirected
  seen       \* what was logged: [t, call, section, level, what]
vars == <<pc, at, call, muted, level, saved, seen>>

Set(f, t, v) == IF Shared THEN [x \in Threads |-> v] ELSE [f EXCEPT ![t] = v]

Sections(t) == Calls[t][call[t]].sections
Refused(t) == Calls[t][call[t]].refused

Init ==
  /\ pc = [t \in Threads |-> IDLE]
  /\ at = [t \in Threads |-> 1]
  /\ call = [t \in Threads |-> 1]
  /\ muted = [t \in Threads |-> FALSE]
  /\ level = [t \in Threads |-> "info"]
  /\ saved = [t \in Threads |-> "info"]
  /\ seen = {}

Log(t, lvl, what) ==
  seen' = IF muted[t] THEN seen
          ELSE seen \cup {[t |-> t, call |-> call[t], s |-> at[t], level |-> lvl, what |-> what]}

Begin(t) ==
  /\ pc[t] = IDLE /\ call[t] <= Len(Calls[t])
  /\ pc' = [pc EXCEPT ![t] = FIRST] /\ at' = [at EXCEPT ![t] = 1]
  /\ UNCHANGED <<call, muted, level, saved, seen>>

\* Reports a section (all of them, before any is formatted)
Report(t, from, to) ==
  /\ pc[t] = from /\ at[t] <= Len(Sections(t))
  /\ Log(t, level[t], "section")
  /\ at' = [at EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<pc, call, muted, level, saved>>
Reported(t, from, to) ==
  /\ pc[t] = from /\ at[t] > Len(Sections(t))
  /\ pc' = [pc EXCEPT ![t] = to] /\ at' = [at EXCEPT ![t] = 1]
  /\ UNCHANGED <<call, muted, level, saved, seen>>

\* Formats section at[t]: containers redirect what they report.
Skip(t, from) ==
  /\ pc[t] = from /\ at[t] <= Len(Sections(t)) /\ ~Sections(t)[at[t]]
  /\ at' = [at EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<pc, call, muted, level, saved, seen>>
Redirect(t, from, to) ==
  /\ pc[t] = from /\ at[t] <= Len(Sections(t)) /\ Sections(t)[at[t]]
  /\ saved' = [saved EXCEPT ![t] = level[t]]
  /\ level' = Set(level, t, "debug")
  /\ pc' = [pc EXCEPT ![t] = to]
  /\ UNCHANGED <<at, call, muted, seen>>
Nested(t, from, to) ==
  /\ pc[t] = from
  /\ Log(t, level[t], "nested")
  /\ pc' = [pc EXCEPT ![t] = to]
  /\ UNCHANGED <<at, call, muted, level, saved>>
Restore(t, from, to) ==
  /\ pc[t] = from
  /\ level' = Set(level, t, saved[t])
  /\ pc' = [pc EXCEPT ![t] = to]
  /\ at' = [at EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<call, muted, saved, seen>>
Done(t, from, to) ==
  /\ pc[t] = from /\ at[t] > Len(Sections(t))
  /\ pc' = [pc EXCEPT ![t] = to] /\ at' = [at EXCEPT ![t] = 1]
  /\ UNCHANGED <<call, muted, level, saved, seen>>

Mute(t) ==
  /\ pc[t] = MUTE
  /\ muted' = Set(muted, t, TRUE)
  /\ pc' = [pc EXCEPT ![t] = SECOND]
  /\ UNCHANGED <<at, call, level, saved, seen>>
\* Delivered or refused: either way the flag is reset
Unmute(t) ==
  /\ pc[t] = UNMUTE
  /\ muted' = Set(muted, t, FALSE)
  /\ pc' = [pc EXCEPT ![t] = IDLE]
  /\ call' = [call EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<at, level, saved, seen>>

Next == \E t \in Threads :
  \/ Begin(t)
  \/ Report(t, FIRST, ENTER) \/ Reported(t, FIRST, ENTER)
  \/ Skip(t, ENTER) \/ Redirect(t, ENTER, INSIDE) \/ Nested(t, INSIDE, LEAVE)
  \/ Restore(t, LEAVE, ENTER) \/ Done(t, ENTER, MUTE)
  \/ Mute(t)
  \/ Report(t, SECOND, ENTER2) \/ Reported(t, SECOND, ENTER2)
  \/ Skip(t, ENTER2) \/ Redirect(t, ENTER2, INSIDE2) \/ Nested(t, INSIDE2, LEAVE2)
  \/ Restore(t, LEAVE2, ENTER2) \/ Done(t, ENTER2, UNMUTE)
  \/ Unmute(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
\* What is logged of a call if there is nothing else
Alone(t, c) ==
  LET secs == Calls[t][c].sections
  IN  {[t |-> t, call |-> c, s |-> k, level |-> "info", what |-> "section"] : k \in 1..Len(secs)}
      \cup {[t |-> t, call |-> c, s |-> k, level |-> "debug", what |-> "nested"] :
              k \in {j \in 1..Len(secs) : secs[j]}}
Finished(t) == call[t] > Len(Calls[t])

\* Nothing is logged that wouldn't be if a thread were alone,
NothingElse == \A x \in seen : x \in Alone(x.t, x.call)
\* and everything that would is logged.
Everything == \A t \in Threads : \A c \in 1..(call[t] - 1) : Alone(t, c) \subseteq seen
\* Threads that don't format anything are neither muted nor redirected.
Untouched == \A t \in Threads : pc[t] = IDLE => ~muted[t] /\ level[t] = "info"
Ends == <>(\A t \in Threads : Finished(t))
=============================================================================
