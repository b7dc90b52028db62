------------------------------- MODULE MsgSig --------------------------------
(***************************************************************************)
(* Signing data and checking signatures (C26).  Keys sign data; anybody    *)
(* may check any signature, whole or tampered with, against any data and   *)
(* any key.  A signature is abstractly the pair it was made from, or junk. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Keys, Data, MaxLen
VARIABLES made, hist
vars == <<made, hist>>
Tampers == {"none", "bit", "high-s", "cut", "extend", "empty", "zero-s", "other", "hash-type", "pad"}
Junk == [key |-> 0, data |-> 0]
Init == made = <<>> /\ hist = <<>>
Room == Len(hist) < MaxLen
Sign == Room /\ \E k \in Keys, d \in Data :
          /\ made' = Append(made, [key |-> k, data |-> d])
          /\ hist' = Append(hist, [act |-> "sign", key |-> k, data |-> d, sig |-> 0, tamper |-> "none", ok |-> TRUE])
After(i, t) == IF t = "none" THEN made[i] ELSE Junk
Check == Room /\ made # <<>> /\ \E i \in 1..Len(made), k \in Keys, d \in Data, t \in Tampers :
          /\ hist' = Append(hist, [act |-> "check", key |-> k, data |-> d, sig |-> i, tamper |-> t, ok |-> After(i, t) = [key |-> k, data |-> d]])
          /\ UNCHANGED made
Next == Sign \/ Check
Emit == Len(hist) = MaxLen /\ PrintT("SCN " \o ToJson([hist |-> hist])) /\ hist' = Append(hist, "end") /\ UNCHANGED made
GenNext == Next \/ Emit
\* Accepting means: made by that key over that data.
OnlyGenuine == \A j \in 1..Len(hist) : hist[j].act = "check" /\ hist[j].ok =>
                 \E i \in 1..(j - 1) : hist[i].act = "sign" /\ hist[i].key = hist[j].key /\ hist[i].data = hist[j].data
=============================================================================
