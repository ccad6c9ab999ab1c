------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Judges recorded runs of the process: the state of all files whenever    *)
(* it had changed, what was printed, and the exit code.  A run is accepted *)
(* if it is a behaviour of Cli of which every so often a state was seen.   *)
(*                                                                         *)
(* Cases[i] is [sc |-> scenario, trace |-> sequence of [fs, touched],      *)
(* obs |-> how it ended].  The numbers of those that are accepted are      *)
(* written to files.                                                       *)
(***************************************************************************)
EXTENDS Cli, TLC, Json, IOUtils

Dir == IOEnv.ORACLE_DIR
Cases == JsonDeserialize(Dir \o "/cases.json")
CaseIds == 1..Len(Cases)
CaseSc(i) == Cases[i].sc

VARIABLE l
tvars == <<vars, l>>
Trace == Cases[id].trace
Obs == Cases[id].obs

TInit == Init /\ l = 0

Observe ==
  /\ l < Len(Trace)
  /\ fs = Trace[l + 1].fs
  /\ ToSet(Trace[l + 1].touched) \subseteq touched
  /\ l' = l + 1
  /\ touched' = {}
  /\ UNCHANGED <<id, pc, job, begun, todo, cur, n, fs, names, same, out, code>>

\* What is printed, and the exit code
Refused == cur # 0 /\ sc.canread[cur] /\ sc.fmt[fs[cur]].o \in {"malformed", "inconsistent"}
Filtering == sc.args = <<>> /\ ~Wrong(sc) /\ ~sc.info
Matching ==
  \/ Obs.killed
  \/ pc = "told" /\ Obs.reported /\ Obs.out = 0 /\ Obs.code = Obs.told
  \/ /\ pc = "done" /\ Obs.code = code
     /\ IF Filtering
        THEN Obs.out = out /\ (sc.check => Obs.would = (code = 1)) /\ (sc.stdin = 0 => Obs.reported)
        ELSE Obs.names = names /\ Obs.changed = Len(names) /\ Obs.same = same /\ Obs.out = 0
  \/ /\ pc = "failed" /\ Obs.code # 0
     /\ Obs.out = out
     /\ Wrong(sc) => Obs.reported
     /\ ~Wrong(sc) /\ ~Filtering /\ Refused => cur \in ToSet(Obs.blamed) /\ Obs.reason

Accept ==
  /\ l = Len(Trace)
  /\ pc # "accepted"
  /\ Obs.modes
  /\ Matching
  /\ JsonSerialize(Dir \o "/" \o ToString(id) \o ".ok", <<l>>)
  /\ pc' = "accepted"
  /\ UNCHANGED <<id, job, begun, todo, cur, n, fs, touched, names, same, out, code, l>>

TNext == (pc # "accepted" /\ Next /\ UNCHANGED l) \/ Observe \/ Accept
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
