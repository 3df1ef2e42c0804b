------------------------------ MODULE Binding ------------------------------
(***************************************************************************)
(* How a call is bound to the parameters of a public function: arguments   *)
(* by position one after another, then by name, then the defaults.  Every  *)
(* call is one behaviour; it ends with the body running or TypeError.      *)
(* WellFormed of Signatures says the same at once; Agreement checks that.  *)
(***************************************************************************)
EXTENDS Signatures, TLC
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSets
CONSTANT Missing          \* at most so many parameters left out on purpose
VARIABLES op, np, kw, junk, bound, todo, st
vars == <<op, np, kw, junk, bound, todo, st>>

Par(o) == [k \in 1..Len(Sig[o]) |-> Sig[o][k][1]]
After(o, k) == { Par(o)[j] : j \in (k + 1)..Len(Sig[o]) }
Before(o, k) == { Par(o)[j] : j \in 1..(IF k < Len(Sig[o]) THEN k ELSE Len(Sig[o])) }
KeywordSets(o, k) ==
  { S \in SUBSET After(o, k) : Cardinality(After(o, k) \ S) <= Missing \/ Cardinality(S) <= 1 }
  \cup { After(o, k) \cup {x} : x \in Before(o, k) }
Surplus == 9
Init ==
  /\ op \in Ops
  /\ np \in 0..Len(Sig[op]) \cup {Len(Sig[op]) + Surplus}
  /\ kw \in KeywordSets(op, np)
  /\ junk \in {0} \cup (IF kw = After(op, np) THEN {1} ELSE {})
  /\ bound = {} /\ todo = kw /\ st = "positional"
Positional ==
  /\ st = "positional"
  /\ IF Cardinality(bound) < np
     THEN IF Cardinality(bound) = Len(Sig[op])
          THEN st' = "TypeError" /\ UNCHANGED <<bound, todo>>
          ELSE bound' = bound \cup {Par(op)[Cardinality(bound) + 1]} /\ UNCHANGED <<todo, st>>
     ELSE st' = "keywords" /\ UNCHANGED <<bound, todo>>
  /\ UNCHANGED <<op, np, kw, junk>>
Keyword ==
  /\ st = "keywords"
  /\ IF todo = {}
     THEN st' = (IF junk = 1 THEN "TypeError" ELSE "defaults") /\ UNCHANGED <<bound, todo>>
     ELSE LET x == CHOOSE y \in todo : TRUE IN
          IF x \in bound THEN st' = "TypeError" /\ UNCHANGED <<bound, todo>>
          ELSE bound' = bound \cup {x} /\ todo' = todo \ {x} /\ UNCHANGED st
  /\ UNCHANGED <<op, np, kw, junk>>
Defaults ==
  /\ st = "defaults"
  /\ st' = IF \E k \in 1..Len(Sig[op]) : Sig[op][k][1] \notin bound /\ Has(Sig[op][k][2], "none") THEN "TypeError" ELSE "body"
  /\ UNCHANGED <<op, np, kw, junk, bound, todo>>
JoinSet(S) == LET q == SetToSeq(S) IN FoldLeft(LAMBDA acc, x : IF acc = "" THEN x ELSE acc \o "," \o x, "", q)
Report ==
  /\ st \in {"body", "TypeError"}
  /\ PrintT("SCN|" \o op \o "|" \o ToString(np) \o "|" \o JoinSet(kw) \o "|" \o ToString(junk) \o "|" \o st)
  /\ st' = "done:" \o st
  /\ UNCHANGED <<op, np, kw, junk, bound, todo>>
Next == Positional \/ Keyword \/ Defaults \/ Report
Spec == Init /\ [][Next]_vars

Ev == [op |-> op, p |-> [k \in 1..np |-> Num(FxZero)], k |-> [nm \in kw |-> Num(FxZero)]]
Agreement == /\ st \in {"body", "done:body"} => (junk = 0 /\ WellFormed(Ev))
             /\ st \in {"TypeError", "done:TypeError"} => (junk = 1 \/ ~WellFormed(Ev))
\* whatever is bound last comes from the caller or is a documented default
AllBound == st = "body" => \A k \in 1..Len(Sig[op]) : Sig[op][k][1] \in bound \/ ~Has(Sig[op][k][2], "none")
=============================================================================
