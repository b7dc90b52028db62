------------------------------ MODULE Timeouts -------------------------------
(***************************************************************************)
(* How long a caller can be kept waiting (C28).  A web service may be      *)
(* silent; a request to it is given up after the timeout in force, so a    *)
(* query or broadcast waits at most that long for each silent service.     *)
(* The timeout may be set at any time and counts from the next request.    *)
(***************************************************************************)
EXTENDS Services, TLC, Json
CONSTANTS Limits, MaxLen
VARIABLES limit,    \* timeout in force, in milliseconds (0: the default)
          waited,   \* how long the last operation waited, in timeouts in force
          hist
vars == <<limit, waited, hist>>
Ops == Queries \cup {"broadcast"}
Init == limit = 0 /\ waited = 0 /\ hist = <<>>
Room == Len(hist) < MaxLen
Set == Room /\ \E v \in Limits : limit' = v /\ waited' = 0 /\ hist' = Append(hist, [act |-> "set", v |-> v, op |-> "", net |-> "", silent |-> {}])
Ask == Room /\ \E op \in Ops, net \in Nets : \E S \in SUBSET Configured(op, net) :
         /\ \E n \in 0..Cardinality(S) : (S = Configured(op, net) => n = Cardinality(S)) /\ waited' = n
         /\ hist' = Append(hist, [act |-> "ask", v |-> 0, op |-> op, net |-> net, silent |-> S])
         /\ UNCHANGED limit
Next == Set \/ Ask
Emit == Len(hist) = MaxLen /\ PrintT("SCN " \o ToJson([hist |-> hist])) /\ hist' = Append(hist, [act |-> "end"]) /\ UNCHANGED <<limit, waited>>
GenNext == Next \/ Emit
Bounded == waited <= 5
LimitIsLastSet == LET sets == {i \in 1..Len(hist) : hist[i].act = "set"} IN
                  limit = IF sets = {} THEN 0 ELSE hist[CHOOSE i \in sets : \A j \in sets : j <= i].v
=============================================================================
