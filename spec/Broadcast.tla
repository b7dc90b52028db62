------------------------------ MODULE Broadcast ------------------------------
(* Broadcasting a transaction to services that accept, reject or are down (C12). *)
EXTENDS Services, TLC, Json

CONSTANT Kinds          \* subset of {"accept", "reject", "s500", "refused", "timeout"}
Answered == {"accept", "reject"} \cup {"s" \o ToString(c) : c \in Statuses}

VARIABLES net, behav, contacted, outcome, phase
vars == <<net, behav, contacted, outcome, phase>>
S == Configured("broadcast", net)

Init == /\ net \in Nets /\ behav \in [S -> Kinds] /\ contacted = <<>> /\ outcome = "none" /\ phase = "run"
Was(s) == \E i \in 1..Len(contacted) : contacted[i] = s
Submit(s) == /\ phase = "run" /\ outcome = "none" /\ ~Was(s)
             /\ contacted' = Append(contacted, s)
             /\ outcome' = IF behav[s] = "accept" THEN "sent" ELSE "none"
             /\ UNCHANGED <<net, behav, phase>>
Done == /\ phase = "run" /\ outcome = "sent" /\ phase' = "done" /\ UNCHANGED <<net, behav, contacted, outcome>>
GiveUp == /\ phase = "run" /\ outcome = "none" /\ \A s \in S : Was(s)
          /\ outcome' = IF \E s \in S : behav[s] \in Answered THEN "rejected" ELSE "unreachable"
          /\ phase' = "done" /\ UNCHANGED <<net, behav, contacted>>
Next == (\E s \in S : Submit(s)) \/ Done \/ GiveUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NoFalseSuccess == outcome = "sent" => \E s \in S : Was(s) /\ behav[s] = "accept"
SentIfPossible == phase = "done" /\ (\E s \in S : behav[s] = "accept") => outcome = "sent"
StopsAtAcceptance == Cardinality({i \in 1..Len(contacted) : behav[contacted[i]] = "accept"}) <= 1
EachOnce == \A i, j \in 1..Len(contacted) : contacted[i] = contacted[j] => i = j
RejectedMeansAnswered == outcome = "rejected" <=> (phase = "done" /\ outcome # "sent" /\ \E s \in S : behav[s] \in Answered)
Terminates == <>(phase = "done")

\* One service turns the transaction down with any error status; the others all accept, reject or are down.
StatusInit ==
    /\ net \in Nets /\ contacted = <<>> /\ outcome = "none" /\ phase = "run"
    /\ \E s \in S, c \in Statuses, others \in {"accept", "reject", "refused"} :
         behav = [x \in S |-> IF x = s THEN "s" \o ToString(c) ELSE others]

GenNext == /\ phase = "run" /\ phase' = "printed" /\ PrintT("SCN " \o ToJson([net |-> net, behav |-> behav]))
           /\ UNCHANGED <<net, behav, contacted, outcome>>
=============================================================================
