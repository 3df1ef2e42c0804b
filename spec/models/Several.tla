------------------------------ MODULE Several ------------------------------
(* Several ranges or simulations in use at the same time.  Generator i is   *)
(* made, asked for its next item again and again until it says that there   *)
(* is none, or closed before.  It knows how many items it has given and     *)
(* nothing of the others: what it gives is its own next item, whatever      *)
(* happens in between.                                                      *)
EXTENDS TLC, Integers, Sequences, FiniteSets
CONSTANTS N, MaxLen
VARIABLES len, at, got, word
vars == <<len, at, got, word>>
G == 1..N
\* at[i]: -1 not made, k items given, MaxLen + 1 finished or closed
Over == MaxLen + 1
Init == /\ len \in [G -> 0..MaxLen] /\ at = [i \in G |-> -1] /\ got = [i \in G |-> <<>>] /\ word = ""
        /\ \A i \in G : i > 1 => len[i] >= len[i - 1]                    \* which is which does not matter
Put(c, i) == word' = word \o c \o ToString(i)
Make(i) == at[i] = -1 /\ at' = [at EXCEPT ![i] = 0] /\ Put("m", i) /\ UNCHANGED <<len, got>>
Give(i) == at[i] >= 0 /\ at[i] < len[i] /\ at' = [at EXCEPT ![i] = @ + 1] /\ got' = [got EXCEPT ![i] = Append(@, at[i])] /\ Put("n", i) /\ UNCHANGED len
End(i) == at[i] = len[i] /\ at' = [at EXCEPT ![i] = Over] /\ Put("e", i) /\ UNCHANGED <<len, got>>
Close(i) == at[i] > 0 /\ at[i] < len[i] /\ at' = [at EXCEPT ![i] = Over] /\ Put("c", i) /\ UNCHANGED <<len, got>>
Done == \A i \in G : at[i] = Over
Next == \E i \in G : Make(i) \/ Give(i) \/ End(i) \/ Close(i)
Spec == Init /\ [][Next]_vars
\* each has given its own items in order, from the first
Own == \A i \in G : \A k \in 1..Len(got[i]) : got[i][k] = k - 1
\* words: the histories in which all are over; lens after them
Told == Done => PrintT("SCN|" \o word \o "|" \o ToString(len))
=============================================================================
