--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The process: which files are formatted, in which order, what is         *)
(* written, and when, what is reported, and how it ends.                   *)
(*                                                                         *)
(* Paths and contents are numbers.  A content is the text of a file; what  *)
(* formatting does to it is given (by fmt), as is which contents are       *)
(* beginnings of others (by pre), since that's what is left of those if    *)
(* writing them is interrupted.  Content 0 means that there is no file.    *)
(*                                                                         *)
(* A scenario sc:                                                          *)
(*   kind     path -> "file", "dir", "none" (there is nothing yet)         *)
(*   parent   path -> path (0 for where we are and what is above)          *)
(*   hidden, md   path -> whether its name begins with "." / ends in ".md" *)
(*   canread, canwrite   path -> permissions (of directories: to list what *)
(*            is in them)                                                  *)
(*   fs       path -> content                                              *)
(*   real     path -> the path of the same file that stands for all of its *)
(*            names (those of symbolic and hard links)                     *)
(*   args     the paths that were named (<<>> means standard input)        *)
(*   mode     "inplace", "files", "dir"                                    *)
(*   outs     the output files that were named / <<the output directory>>  *)
(*   named    path -> the path of that name in the output directory        *)
(*   rend     path -> <<first, second>>: the paths of its renders          *)
(*   check, renders   whether those options were given                     *)
(*   invalid  whether some argument is meaningless on its own              *)
(*   info     whether only help or the version was asked for               *)
(*   fmt      content -> [o, r, r1, r2, rr]: "ok" (becomes r),             *)
(*            "malformed", "inconsistent" (renders r1, r2; rr is both, one *)
(*            after the other), "unreadable"                               *)
(*   pre      content -> the contents it is a proper beginning of          *)
(*   large    contents that are too large to be written                    *)
(*   stdin    content of standard input (0 if that's a terminal)           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS
  Ids,        \* scenarios are numbered,
  Sc(_)       \* and this is what they are.

VARIABLES
  id,         \* the scenario
  pc,
  job,        \* what is to be written for the file at hand: [p |-> path, c |-> content]
  begun,      \* whether the first of that has been written in part
  todo,       \* the sets of files still to be formatted, one for every argument
  cur,        \* the file at hand
  n,          \* how many files have been begun
  fs,         \* path -> content
  touched,    \* the paths that were written
  names,      \* those that were reported to have been or need to be reformatted
  same,       \* how many didn't need to be
  out,        \* content of standard output (0 if there is none)
  code        \* the exit code
sc == Sc(id)
vars == <<id, pc, job, begun, todo, cur, n, fs, touched, names, same, out, code>>

Paths(s) == 1..Len(s.kind)
\* All names of a file
Same(s, p) == {q \in Paths(s) : s.real[q] = s.real[p]}
AllNames(s, P) ==
  LET there == {s.real[p] : p \in P \ {0}} IN {q \in Paths(s) : s.real[q] \in there}

----------------------------------------------------------------------------
\* Files in directories

RECURSIVE Below(_, _, _)
\* p is below directory d, with nothing hidden on the way, or that can't be looked into
Below(s, p, d) ==
  /\ p # d /\ ~s.hidden[p] /\ s.parent[p] # 0 /\ s.canread[s.parent[p]]
  /\ s.parent[p] = d \/ Below(s, s.parent[p], d)

Selected(s, a) ==
  IF s.kind[a] = "dir"
  THEN {p \in Paths(s) : s.kind[p] = "file" /\ s.md[p] /\ Below(s, p, a)}
  ELSE {a}
Inputs(s) == UNION {Selected(s, s.args[k]) : k \in DOMAIN s.args}
Count(s) == FoldLeft(LAMBDA acc, a : acc + Cardinality(Selected(s, a)), 0, s.args)

\* A file can be written: it is one, or could be made.
Writable(s, p) ==
  CASE s.kind[p] = "file" -> s.canwrite[p]
    [] s.kind[p] = "dir" -> FALSE
    [] OTHER -> /\ s.parent[p] # 0
                /\ s.kind[s.parent[p]] = "dir"
                /\ s.canwrite[s.parent[p]]

\* What is reported before anything is written
Wrong(s) ==
  \/ s.invalid
  \/ \E k \in DOMAIN s.args : s.kind[s.args[k]] = "none" \/ ~s.canread[s.args[k]]
  \/ s.mode = "files" /\ (Len(s.outs) # Count(s) \/ \E k \in DOMAIN s.outs : ~Writable(s, s.outs[k]))
  \/ s.mode = "dir" /\ (s.kind[s.outs[1]] # "dir" \/ ~s.canwrite[s.outs[1]])
  \/ s.mode = "inplace" /\ ~s.check /\ \E p \in Inputs(s) : ~s.canwrite[p]

Target(s, p, k) ==
  CASE s.mode = "files" -> s.outs[k]
    [] s.mode = "dir" -> s.named[p]
    [] OTHER -> p

----------------------------------------------------------------------------
Init ==
  /\ id \in Ids
  /\ pc = "arguments"
  /\ job = <<>> /\ begun = FALSE
  /\ todo = <<>> /\ cur = 0 /\ n = 0
  /\ fs = sc.fs
  /\ touched = {} /\ names = <<>> /\ same = 0
  /\ out = 0 /\ code = 0

Arguments ==
  /\ pc = "arguments"
  /\ IF Wrong(sc) \/ sc.info
     THEN pc' = (IF sc.info THEN "told" ELSE "failed") /\ code' = 2 /\ todo' = todo
     ELSE /\ pc' = IF sc.args = <<>> THEN "filter" ELSE "next"
          /\ todo' = [k \in DOMAIN sc.args |-> Selected(sc, sc.args[k])]
          /\ code' = code
  /\ UNCHANGED <<id, job, begun, cur, n, fs, touched, names, same, out>>

\* Standard input
Filter ==
  /\ pc = "filter"
  /\ IF sc.stdin = 0
     THEN pc' = "done" /\ UNCHANGED <<code, out>>   \* There's nothing to do.
     ELSE LET f == sc.fmt[sc.stdin]
          IN  IF f.o # "ok"
              THEN /\ pc' = "failed" /\ code' = 2
                   /\ out' = IF sc.renders /\ f.o = "inconsistent" THEN f.rr ELSE 0
              ELSE /\ pc' = "done"
                   /\ code' = IF sc.check /\ f.r # sc.stdin THEN 1 ELSE 0
                   /\ out' = IF sc.check THEN 0 ELSE f.r
  /\ UNCHANGED <<id, job, begun, todo, cur, n, fs, touched, names, same>>

\* The next file: arguments in order, files in a directory in any order
Begin ==
  /\ pc = "next" /\ todo # <<>>
  /\ \/ /\ todo[1] = {}
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<pc, cur, n>>
     \/ \E p \in todo[1] :
          /\ cur' = p /\ n' = n + 1
          /\ todo' = [todo EXCEPT ![1] = @ \ {p}]
          /\ pc' = "format"
  /\ UNCHANGED <<id, job, begun, fs, touched, names, same, out, code>>

\* Reading and formatting it.  An output that is the input itself, and tidy already, may
\* be written nevertheless.
Format ==
  /\ pc = "format"
  /\ LET f == sc.fmt[fs[cur]]
         t == Target(sc, cur, n)
         refused == ~sc.canread[cur] \/ f.o # "ok"
         must == ~sc.check /\ (t # cur \/ f.r # fs[cur])
     IN  IF refused
         THEN /\ pc' = IF sc.renders /\ sc.canread[cur] /\ f.o = "inconsistent" THEN "write" ELSE "failed"
              /\ code' = 2
              /\ job' = IF pc' = "failed" THEN <<>>
                        ELSE << [p |-> sc.rend[t][1], c |-> f.r1], [p |-> sc.rend[t][2], c |-> f.r2] >>
              /\ UNCHANGED <<names, same>>
         ELSE \E write \in IF must \/ sc.check \/ sc.mode = "inplace" THEN {must} ELSE BOOLEAN :
              /\ pc' = IF write THEN "write" ELSE "next"
              /\ job' = IF write THEN << [p |-> t, c |-> f.r] >> ELSE <<>>
              /\ same' = IF f.r = fs[cur] THEN same + 1 ELSE same
              /\ names' = IF sc.check /\ f.r # fs[cur] THEN Append(names, cur) ELSE names
              /\ code' = code
  /\ UNCHANGED <<id, begun, todo, cur, n, fs, touched, out>>

\* Writing may happen at once, or bit by bit (beginning with nothing at all).
WritePart ==
  /\ pc = "write" /\ job # <<>> /\ Writable(sc, job[1].p)
  /\ \E x \in 1..Len(sc.pre) :
       /\ job[1].c \in ToSet(sc.pre[x])
       /\ begun => x \in ToSet(sc.pre[fs[job[1].p]]) \cup {fs[job[1].p]}
       /\ fs' = [p \in Paths(sc) |-> IF sc.real[p] = sc.real[job[1].p] THEN x ELSE fs[p]]
  /\ touched' = touched \cup Same(sc, job[1].p)
  /\ begun' = TRUE
  /\ UNCHANGED <<id, pc, job, todo, cur, n, names, same, out, code>>
Write ==
  /\ pc = "write" /\ job # <<>>
  /\ Writable(sc, job[1].p) /\ job[1].c \notin ToSet(sc.large)
  /\ fs' = [p \in Paths(sc) |-> IF sc.real[p] = sc.real[job[1].p] THEN job[1].c ELSE fs[p]]
  /\ touched' = touched \cup Same(sc, job[1].p)
  /\ job' = Tail(job) /\ begun' = FALSE
  /\ UNCHANGED <<id, pc, todo, cur, n, names, same, out, code>>
WriteFails ==
  /\ pc = "write" /\ job # <<>>
  /\ ~Writable(sc, job[1].p) \/ job[1].c \in ToSet(sc.large)
  /\ pc' = "failed" /\ code' = 2
  /\ UNCHANGED <<id, job, begun, todo, cur, n, fs, touched, names, same, out>>
Written ==
  /\ pc = "write" /\ job = <<>>
  /\ IF code # 0
     THEN pc' = "failed" /\ UNCHANGED names
     ELSE /\ pc' = "next"
          /\ names' = IF n > Len(names) + same THEN Append(names, cur) ELSE names
  /\ UNCHANGED <<id, job, begun, todo, cur, n, fs, touched, same, out, code>>

Finish ==
  /\ pc = "next" /\ todo = <<>>
  /\ pc' = "done"
  /\ code' = IF sc.check /\ names # <<>> THEN 1 ELSE 0
  /\ UNCHANGED <<id, job, begun, todo, cur, n, fs, touched, names, same, out>>

Next == Arguments \/ Filter \/ Begin \/ Format \/ WritePart \/ Write \/ WriteFails \/ Written \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ended == pc \in {"done", "failed", "told"}
----------------------------------------------------------------------------
(***************************************************************************)
(* What the properties say, as invariants                                  *)
(***************************************************************************)
After(s, p) == s.fmt[s.fs[p]].r
Renders(s) == UNION {ToSet(s.rend[p]) : p \in Paths(s)}

\* C20
CheckWritesNothing ==
  sc.check => \A p \in Paths(sc) : fs[p] # sc.fs[p] \/ p \in touched => sc.renders /\ p \in Renders(sc)
CheckTellsTheTruth ==
  pc = "done" /\ sc.check /\ sc.args # <<>> =>
    LET changed == {p \in Inputs(sc) : After(sc, p) # sc.fs[p]}
    IN  /\ ToSet(names) = changed
        /\ Len(names) + same = Count(sc)
        /\ code = IF changed = {} THEN 0 ELSE 1
\* C21
FormattedInPlace ==
  pc = "done" /\ sc.mode = "inplace" /\ ~sc.check =>
    /\ \A p \in Inputs(sc) : fs[p] = After(sc, p)
    /\ \A p \in Paths(sc) \ AllNames(sc, Inputs(sc)) : fs[p] = sc.fs[p] /\ p \notin touched
    /\ \A p \in Inputs(sc) : p \in touched <=> After(sc, p) # sc.fs[p]
    /\ code = 0 /\ Len(names) + same = Count(sc)
\* C22: only the file at hand (and what is left to do of it) is in between.
Failing ==
  pc = "failed" => code # 0
NothingIsLost ==
  ~sc.check /\ sc.mode = "inplace" =>
    \A p \in Paths(sc) :
      \/ fs[p] = sc.fs[p]
      \/ p \in AllNames(sc, Inputs(sc)) /\ fs[p] = After(sc, p)
      \/ cur # 0 /\ p \in Same(sc, cur) /\ begun /\ After(sc, p) \in ToSet(sc.pre[fs[p]])
      \/ p \in Renders(sc)
InOrder ==
  ~sc.check /\ ~sc.info /\ sc.mode = "inplace" /\ pc # "arguments" /\ ~Wrong(sc) =>
    \A p \in Inputs(sc) :
      LET ahead == \E k \in DOMAIN todo : p \in todo[k]
      IN  (p # cur /\ ~ahead => fs[p] = After(sc, p) \/ (begun /\ p \in Same(sc, cur)))
RefusedUntouched ==
  \A p \in Paths(sc) : sc.fs[p] # 0 /\ sc.fmt[sc.fs[p]].o # "ok" /\ sc.mode = "inplace" => p \notin touched
\* C23
InputsStay ==
  sc.mode # "inplace" /\ ~Wrong(sc) =>
    \A p \in Inputs(sc) \ AllNames(sc, {Target(sc, q, k) : q \in Inputs(sc), k \in 1..Count(sc)}) :
      fs[p] = sc.fs[p]
OutputsWritten ==
  pc = "done" /\ sc.mode = "dir" /\ ~sc.check /\ sc.args # <<>>
  \* (What is written over before it is read is lost.)
  /\ (\A p, q \in Inputs(sc) : p # q => sc.named[p] \notin Same(sc, q)) =>
    \A p \in Inputs(sc) : \E q \in Inputs(sc) :
      sc.named[q] \in Same(sc, sc.named[p]) /\ fs[sc.named[p]] = After(sc, q)
\* C24
FilterTouchesNothing == sc.args = <<>> => touched = {} /\ fs = sc.fs
\* C25
WrongTouchesNothing == Wrong(sc) => touched = {} /\ fs = sc.fs /\ (Ended => code # 0)
InfoTouchesNothing == sc.info => touched = {} /\ fs = sc.fs
OnlySelected ==
  touched \subseteq Renders(sc) \cup AllNames(sc,
     CASE sc.mode = "inplace" -> Inputs(sc) [] sc.mode = "files" -> ToSet(sc.outs)
       [] OTHER -> {sc.named[p] : p \in Inputs(sc)})
Terminates == <>Ended
=============================================================================
