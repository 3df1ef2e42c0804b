----------------------------- MODULE Schedules -----------------------------
(* Interleavings of threads with a bounded number of preemptions.  A thread  *)
(* takes Steps steps (slices of its execution); a preemption is a switch     *)
(* away from a thread that has not finished.  Each complete schedule is      *)
(* printed as a word over thread names; the implementation is driven along   *)
(* it, one slice of executed code per letter.                                *)
EXTENDS TLC, Integers, Sequences
CONSTANTS NThreads, Steps, MaxPreempt
VARIABLES left, cur, pre, word
vars == <<left, cur, pre, word>>
Names == <<"a", "b", "c">>
Init == left = [t \in 1..NThreads |-> Steps] /\ cur \in 1..NThreads /\ pre = 0 /\ word = ""
Total == LET S[k \in 0..NThreads] == IF k = 0 THEN 0 ELSE left[k] + S[k - 1] IN S[NThreads]
Step(t) ==
  /\ left[t] > 0
  /\ IF t = cur \/ left[cur] = 0 THEN pre' = pre ELSE pre < MaxPreempt /\ pre' = pre + 1
  /\ cur' = t
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ word' = word \o Names[t]
  /\ Total = 1 => PrintT("SCN|" \o word')
Next == \E t \in 1..NThreads : Step(t)
Spec == Init /\ [][Next]_vars
BoundedPreemption == pre <= MaxPreempt
=============================================================================
