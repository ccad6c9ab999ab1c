----------------------------- MODULE MC_Threads -----------------------------
EXTENDS Threads
T1 == "t1"
T2 == "t2"
MCThreads == {T1, T2, "bystander"}
MCCalls == [t \in MCThreads |->
  CASE t = T1 -> << [sections |-> <<FALSE, TRUE>>, refused |-> FALSE], [sections |-> <<TRUE>>, refused |-> TRUE] >>
    [] t = T2 -> << [sections |-> <<TRUE, FALSE>>, refused |-> TRUE], [sections |-> <<FALSE>>, refused |-> FALSE] >>
    [] OTHER -> << >>]
=============================================================================
