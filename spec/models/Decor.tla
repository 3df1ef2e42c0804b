------------------------------- MODULE Decor -------------------------------
(* The check in front of any function it decorates.  The function has N     *)
(* parameters, the last KwOnly of them by keyword only; the check guards    *)
(* some of them, and perhaps a name the function does not have.  A call     *)
(* gives the first npos by position and the others by keyword, or leaves    *)
(* those with a default out.  The guarded names may be shared out between   *)
(* two decorators, one on top of the other.  One behaviour is one           *)
(* call: the check looks at the guarded parameters one after the other, the *)
(* outer ones first, then refuses or calls.                                 *)
EXTENDS TLC, Integers, Sequences, FiniteSets
CONSTANT Max
Values == {"aware", "naive", "other"}
VARIABLES n, kwonly, guarded, outer, npos, left, value, todo, st
vars == <<n, kwonly, guarded, outer, npos, left, value, todo, st>>
Init ==
  /\ n \in 1..Max /\ kwonly \in 0..1 /\ kwonly < n
  /\ guarded \in (SUBSET (1..n)) \ {{}} /\ Cardinality(guarded) <= 2
  /\ outer \in (SUBSET guarded) \ {{}}
  /\ npos \in 0..(n - kwonly)
  /\ left \in {0} \cup ((npos + 1)..n)                \* the parameter left at its default, if any
  /\ value \in [guarded -> Values]
  /\ todo = guarded \ {left} /\ st = "checking"
Show(r) == PrintT("SCN|" \o ToString(n) \o "|" \o ToString(kwonly) \o "|" \o ToString(guarded) \o "|" \o ToString(outer) \o "|" \o ToString(npos) \o "|" \o ToString(left) \o "|"
                  \o ToString([k \in 1..n |-> IF k \in guarded THEN value[k] ELSE "-"]) \o "|" \o r)
Look(k) == /\ st = "checking" /\ k \in todo /\ (k \in outer \/ todo \cap outer = {})
           /\ IF value[k] = "aware" THEN todo' = todo \ {k} /\ st' = st ELSE st' = "refused" /\ UNCHANGED todo /\ Show("refused")
           /\ UNCHANGED <<n, kwonly, guarded, outer, npos, left, value>>
Call == st = "checking" /\ todo = {} /\ st' = "called" /\ Show("called") /\ UNCHANGED <<n, kwonly, guarded, outer, npos, left, value, todo>>
Next == Call \/ \E k \in 1..Max : Look(k)
Spec == Init /\ [][Next]_vars
\* the order in which the check looks does not matter
Decided == /\ st = "called" => \A k \in guarded \ {left} : value[k] = "aware"
           /\ st = "refused" => \E k \in guarded \ {left} : value[k] # "aware"
=============================================================================
