------------------------------- MODULE Vanity --------------------------------
(***************************************************************************)
(* The parallel search for a vanity address (C21).  Workers check the      *)
(* match flag, count an attempt, make a key, and on a match raise the flag *)
(* and put the pair in the queue.  The parent polls the counter until it   *)
(* stands still, then takes one pair from the queue and reports it.        *)
(* A key made by attempt number MaxKeys or later matches; an earlier one   *)
(* may or may not.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N, MaxKeys
VARIABLES pc, counter, flag, queue, hit, parent, last, reports
vars == <<pc, counter, flag, queue, hit, parent, last, reports>>
W == 1..N
Init == /\ pc = [w \in W |-> "check"] /\ counter = 0 /\ flag = FALSE /\ queue = <<>>
        /\ hit = [w \in W |-> FALSE] /\ parent = "poll" /\ last = 0 /\ reports = <<>>
Check(w) == /\ pc[w] = "check" /\ pc' = [pc EXCEPT ![w] = IF flag THEN "done" ELSE "count"]
            /\ UNCHANGED <<counter, flag, queue, hit, parent, last, reports>>
Count(w) == /\ pc[w] = "count" /\ counter' = counter + 1 /\ pc' = [pc EXCEPT ![w] = "make"]
            /\ UNCHANGED <<flag, queue, hit, parent, last, reports>>
Make(w) == /\ pc[w] = "make"
           /\ \E m \in (IF counter >= MaxKeys THEN {TRUE} ELSE BOOLEAN) :
                 /\ hit' = [hit EXCEPT ![w] = m] /\ pc' = [pc EXCEPT ![w] = IF m THEN "raise" ELSE "check"]
           /\ UNCHANGED <<counter, flag, queue, parent, last, reports>>
Raise(w) == /\ pc[w] = "raise" /\ flag' = TRUE /\ pc' = [pc EXCEPT ![w] = "put"]
            /\ UNCHANGED <<counter, queue, hit, parent, last, reports>>
Put(w) == /\ pc[w] = "put" /\ queue' = Append(queue, [w |-> w, match |-> hit[w]]) /\ pc' = [pc EXCEPT ![w] = "done"]
          /\ UNCHANGED <<counter, flag, hit, parent, last, reports>>
Poll == /\ parent = "poll" /\ last' = counter
        /\ parent' = IF counter = last /\ counter # 0 THEN "take" ELSE "poll"
        /\ UNCHANGED <<pc, counter, flag, queue, hit, reports>>
Take == /\ parent = "take" /\ queue # <<>>
        /\ reports' = Append(reports, Head(queue)) /\ queue' = Tail(queue) /\ parent' = "join"
        /\ UNCHANGED <<pc, counter, flag, hit, last>>
Join == /\ parent = "join" /\ \A w \in W : pc[w] = "done" /\ parent' = "end"
        /\ UNCHANGED <<pc, counter, flag, queue, hit, last, reports>>
Worker(w) == Check(w) \/ Count(w) \/ Make(w) \/ Raise(w) \/ Put(w)
Next == (\E w \in W : Worker(w)) \/ Poll \/ Take \/ Join
Spec == Init /\ [][Next]_vars /\ WF_vars(Poll) /\ WF_vars(Take) /\ WF_vars(Join) /\ \A w \in W : WF_vars(Worker(w))

ReportsMatch == \A i \in 1..Len(reports) : reports[i].match
AtMostOne == Len(reports) <= 1
EndsWithOne == parent = "end" => Len(reports) = 1 /\ flag
QueueMatches == \A i \in 1..Len(queue) : queue[i].match
Ends == <>(parent = "end")
=============================================================================
