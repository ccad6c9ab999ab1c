------------------------------- MODULE MC_Cli -------------------------------
(***************************************************************************)
(* All scenarios with two input files (given by name, or one by the        *)
(* directory it is in), in which each is formatted already, is not, is     *)
(* refused for either reason, or cannot be read; with all modes, with and  *)
(* without checking and renders, with outputs that can't be written or are *)
(* too large, and with standard input; and those where one file has two    *)
(* names.                                                                  *)
(*                                                                         *)
(* Paths: 1 ".", 2 "a.md", 3 "d", 4 "d/b.md", 5 "d/.c.md", 6 "d/e.txt",    *)
(* 7 "o", 8 "o/a.md", 9 "o/b.md", 10..17 renders, 18 "missing"             *)
(* Contents: 1 ok and formatted, 2 ok and becomes 3, 3 formatted,          *)
(* 4 malformed, 5 inconsistent with renders 6 and 7, 8 unreadable, 9 empty *)
(* (and becomes 10), 11 the beginning of 3, 12 is 6 and 7 as printed       *)
(***************************************************************************)
EXTENDS Cli, TLC, Json, IOUtils

Kind == << "dir", "file", "dir", "file", "file", "file", "dir", "none", "none",
           "none", "none", "none", "none", "none", "none", "none", "none", "none" >>
Parent == <<0, 1, 1, 3, 3, 3, 1, 7, 7, 1, 1, 3, 3, 7, 7, 7, 7, 1>>
Hidden == [p \in 1..18 |-> p = 5]
Md == [p \in 1..18 |-> p \notin {1, 3, 6, 7}]
Rend == [p \in 1..18 |->
  CASE p = 2 -> <<10, 11>> [] p = 4 -> <<12, 13>> [] p = 8 -> <<14, 15>> [] p = 9 -> <<16, 17>> [] OTHER -> <<>>]
Named == [p \in 1..18 |-> CASE p = 2 -> 8 [] p = 4 -> 9 [] OTHER -> 0]

ok(r) == [o |-> "ok", r |-> r, r1 |-> 0, r2 |-> 0, rr |-> 0]
bad(o) == [o |-> o, r |-> 0, r1 |-> 0, r2 |-> 0, rr |-> 0]
Fmt == << ok(1), ok(3), ok(3), bad("malformed"), [bad("inconsistent") EXCEPT !.r1 = 6, !.r2 = 7, !.rr = 12],
          bad("malformed"), bad("malformed"), bad("unreadable"), ok(10), ok(10), ok(1), ok(12) >>
Pre == << <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12>>, <<>>, <<3>>, <<>> >>

Contents == {1, 2, 4, 5, 8, 9}
\* linked: <<>>, or a path and another one which is the same file
Scenario(c1, c2, args, mode, check, renders, outs, prot, lg, inp, info, linked) ==
  [ kind |-> [p \in 1..18 |-> IF (p = prot /\ p = 8) \/ (linked # <<>> /\ linked[1] = p) THEN "file" ELSE Kind[p]],
    real |-> [p \in 1..18 |-> IF linked # <<>> /\ linked[1] = p THEN linked[2] ELSE p],
    parent |-> Parent, hidden |-> Hidden, md |-> Md,
    canread |-> [p \in 1..18 |-> ~(prot \in {3, 4} /\ p = prot)],
    canwrite |-> [p \in 1..18 |-> ~(prot = p)],
    fs |-> [p \in 1..18 |-> CASE p = 2 \/ linked = <<p, 2>> -> c1 [] p = 4 \/ linked = <<p, 4>> -> c2
                               [] p \in {5, 6} -> 2
                               [] p = 8 /\ prot = 8 -> 2 [] OTHER -> 0],
    args |-> args, mode |-> mode, outs |-> outs, named |-> Named, rend |-> Rend,
    check |-> check, renders |-> renders, invalid |-> FALSE, info |-> info,
    fmt |-> Fmt, pre |-> Pre, large |-> lg, stdin |-> inp ]

\* Scenarios are what they are made of.
Outs == {<<8, 9>>, <<8>>, <<9, 8>>}
Args == {<<2, 4>>, <<3>>, <<2, 3>>, <<3, 2>>, <<2, 2>>, <<2, 18>>, <<1>>, <<4, 3>>}
Modes == {<<"inplace", <<>>>>, <<"dir", <<7>>>>} \cup {<<"files", o>> : o \in Outs}
Links == {<<4, 2>>, <<6, 2>>, <<6, 4>>, <<8, 2>>, <<8, 4>>, <<9, 2>>}
Linked(contents, args, large) ==
  contents \X contents \X args \X Modes \X BOOLEAN \X {FALSE} \X {0} \X large
    \X {1} \X {FALSE} \X Links
AllIds ==
  {x \in Contents \X Contents \X Args \X Modes \X BOOLEAN \X BOOLEAN \X {0, 2, 3, 4, 7, 8} \X {<<>>, <<3>>} \X {1} \X {FALSE}
           \X {<<>>} :
     \* What is there already to be written to is not an input too.
     x[3] # <<1>> \/ x[7] # 8}
  \cup ({1} \X {2} \X {<<>>} \X {<<"inplace", <<>>>>} \X BOOLEAN \X BOOLEAN \X {0} \X {<<>>} \X ((Contents \ {8}) \cup {0}) \X BOOLEAN \X {<<>>})
  \cup Linked(Contents, {<<2, 4>>, <<3, 2>>, <<4>>}, {<<>>, <<3>>})
\* For a quick look
FewIds ==
  {1, 2, 5} \X {2, 4} \X {<<2, 4>>, <<3, 2>>} \X Modes \X BOOLEAN \X BOOLEAN \X {0, 8} \X {<<>>, <<3>>} \X {1} \X BOOLEAN \X {<<>>}
  \cup Linked({2}, {<<2, 4>>}, {<<>>})
MCSc(x) == Scenario(x[1], x[2], x[3], x[4][1], x[5], x[6], x[4][2], x[7], x[8], x[9], x[10], x[11])
=============================================================================
