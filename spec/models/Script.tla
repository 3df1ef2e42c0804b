------------------------------- MODULE Script -------------------------------
(* util/get_delta_t as a machine that reads one line at a time.  The input   *)
(* is chosen by the environment: any line after any line.  Checked: the      *)
(* complete table is printed exactly for inputs of consecutive months, and   *)
(* its rows are then the input.  Every input is replayed into the script.    *)
EXTENDS TLC, Integers, Sequences
CONSTANTS MaxLen, FirstMonths
VARIABLES lines, ly, lm, rows, st
vars == <<lines, ly, lm, rows, st>>
Y0 == 1999
Init == lines = <<>> /\ ly = 0 /\ lm = 0 /\ rows = <<>> /\ st = "reading"     \* 0: None
\* candidate lines <<year, month, day>>: a small neighbourhood of the last one
Candidates ==
  IF lines = <<>> THEN { <<Y0, m, d>> : m \in FirstMonths, d \in {1, 2} }
  ELSE LET l == lines[Len(lines)] IN
       { <<l[1] + dy, m, d>> :
           dy \in {-1, 0, 1, 2},
           m \in ({l[2] - 1, l[2], l[2] + 1, l[2] + 2, 1, 2, 12} \cap 1..12),
           d \in {1} } \cup { <<l[1], l[2] + 1, 2>>, <<l[1] + 1, 1, 15>> }
\* the statements of the loop body, in order
Read(l) ==
  /\ st = "reading"
  /\ Len(lines) < MaxLen
  /\ lines' = Append(lines, l)
  /\ LET newYear == l[1] # ly
         dayBad == l[3] # 1
         gap == newYear /\ ly # 0 /\ ly + 1 # l[1]
         incomplete == newYear /\ ly # 0 /\ lm # 12
         lm1 == IF newYear THEN 0 ELSE lm
         skip == ~(newYear /\ ly = 0) /\ l[2] # lm1 + 1
     IN  IF dayBad \/ gap \/ incomplete \/ skip
         THEN st' = "failed" /\ UNCHANGED <<ly, lm, rows>>
         ELSE /\ st' = "reading"
              /\ ly' = l[1] /\ lm' = l[2]
              /\ rows' = IF newYear THEN Append(rows, << l >>)
                         ELSE [rows EXCEPT ![Len(rows)] = Append(@, l)]
Text(ls) ==
  LET F[k \in 0..Len(ls)] == IF k = 0 THEN "" ELSE
        F[k - 1] \o (IF k > 1 THEN ";" ELSE "") \o ToString(ls[k][1]) \o "," \o ToString(ls[k][2]) \o "," \o ToString(ls[k][3])
  IN  F[Len(ls)]
End == /\ st = "reading" /\ lines # <<>> /\ st' = "complete" /\ UNCHANGED <<lines, ly, lm, rows>>
Next == \/ \E l \in Candidates : Read(l)
        \/ End
Emit == st \in {"failed", "complete"} => PrintT("SCN|" \o Text(lines))
Spec == Init /\ [][Next]_vars
Consecutive ==
  /\ \A k \in 1..Len(lines) : lines[k][3] = 1
  /\ \A k \in 1..(Len(lines) - 1) :
       \/ lines[k + 1][1] = lines[k][1] /\ lines[k + 1][2] = lines[k][2] + 1
       \/ lines[k + 1][1] = lines[k][1] + 1 /\ lines[k + 1][2] = 1 /\ lines[k][2] = 12
RECURSIVE Flat(_)
Flat(rs) == IF rs = <<>> THEN <<>> ELSE rs[1] \o Flat(Tail(rs))
Refuses == st = "failed" => ~Consecutive
Accepts == st = "complete" => Consecutive /\ Flat(rows) = lines
RowsAreYears == \A k \in 1..Len(rows) : \A j \in 1..Len(rows[k]) : rows[k][j][1] = lines[1][1] + k - 1
=============================================================================
