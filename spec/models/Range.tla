-------------------------------- MODULE Range --------------------------------
(* datetime_range as a machine: yields start, start+step, ... while whole    *)
(* steps fit before the end.  Times in abstract ticks.                       *)
EXTENDS TLC, Integers, Sequences
CONSTANTS MaxSpan, MaxStep
VARIABLES stop, step, out, st
vars == <<stop, step, out, st>>            \* start = 0
Init == stop \in -2..MaxSpan /\ step \in 1..MaxStep /\ out = <<>> /\ st = "running"
Yield == /\ st = "running"
         /\ (Len(out) + 1) * step <= stop
         /\ out' = Append(out, Len(out) * step)
         /\ UNCHANGED <<stop, step, st>>
Stop == /\ st = "running"
        /\ (Len(out) + 1) * step > stop
        /\ st' = "stopped"
        /\ PrintT("SCN|" \o ToString(stop) \o "|" \o ToString(step) \o "|" \o ToString(Len(out)))
        /\ UNCHANGED <<stop, step, out>>
Next == Yield \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Inside == \A k \in 1..Len(out) : out[k] >= 0 /\ out[k] < stop /\ out[k] = (k - 1) * step
Count == st = "stopped" => Len(out) = (IF stop < 0 THEN 0 ELSE stop \div step)
Ends == <>(st = "stopped")
=============================================================================
