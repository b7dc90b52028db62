------------------------------ MODULE Failover ------------------------------
(***************************************************************************)
(* A query against web services that work or fail in every possible way    *)
(* (C11), checked exhaustively; each complete choice of behaviours is also *)
(* printed as a scenario to replay into the code.                          *)
(***************************************************************************)
EXTENDS Services, TLC, Json

CONSTANTS Faults,       \* failure kinds tried for every service
          Answers,      \* what a working service may hold: "ok" something, "empty" nothing at all
          Emit          \* print scenarios?

VARIABLES op, net, behav, contacted, result, phase
vars == <<op, net, behav, contacted, result, phase>>

Kinds(o, s) == Answers \cup Faults \cup (IF CanExcess(o, s) THEN {"excess"} ELSE {})
               \cup (IF MultiRequest(o, s) THEN {"late"} ELSE {})
Good(b) == b \in {"ok", "empty"}      \* nothing found is an answer too
Fails(s) == ~Good(behav[s])

Init == /\ op \in Queries /\ net \in Nets
        /\ behav \in {b \in [Configured(op, net) -> UNION {Kinds(op, s) : s \in Configured(op, net)}] :
                        \A s \in Configured(op, net) : b[s] \in Kinds(op, s)}
        /\ contacted = <<>> /\ result = "none" /\ phase = "run"

Was(s) == \E i \in 1..Len(contacted) : contacted[i] = s
Try(s) == /\ phase = "run" /\ result = "none" /\ ~Was(s)
          /\ contacted' = Append(contacted, s)
          /\ result' = IF Fails(s) THEN "none" ELSE s
          /\ UNCHANGED <<op, net, behav, phase>>
Return == /\ phase = "run" /\ result # "none" /\ phase' = "done" /\ UNCHANGED <<op, net, behav, contacted, result>>
GiveUp == /\ phase = "run" /\ result = "none" /\ \A s \in Configured(op, net) : Was(s)
          /\ result' = "unreachable" /\ phase' = "done" /\ UNCHANGED <<op, net, behav, contacted>>
Next == (\E s \in Configured(op, net) : Try(s)) \/ Return \/ GiveUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Settled == phase = "done"
AnswerIsGood == Settled /\ result # "unreachable" => Good(behav[result])
AnsweredIfPossible == Settled /\ (\E s \in Configured(op, net) : Good(behav[s])) => result # "unreachable"
NoneAfterAnswer == \A i \in 1..Len(contacted) : ~Fails(contacted[i]) => i = Len(contacted)
EachOnce == \A i, j \in 1..Len(contacted) : contacted[i] = contacted[j] => i = j
OnlyConfigured == \A i \in 1..Len(contacted) : contacted[i] \in Configured(op, net)
Terminates == <>Settled

\* Generator: the same initial choices, one step that prints them.
GenNext == /\ phase = "run" /\ phase' = "printed"
           /\ PrintT("SCN " \o ToJson([op |-> op, net |-> net, behav |-> behav]))
           /\ UNCHANGED <<op, net, behav, contacted, result>>
\* One service answers with an error status, at once or at a later page; all the others work or are unreachable.
Code(c) == "s" \o ToString(c)
StatusInit ==
    /\ op \in Queries /\ net \in Nets /\ contacted = <<>> /\ result = "none" /\ phase = "run"
    /\ \E s \in Configured(op, net), others \in {"refused", "ok"} :
         \/ \E c \in Statuses \ SaysNothing(op, s, net) : behav = [x \in Configured(op, net) |-> IF x = s THEN Code(c) ELSE others]
         \/ MultiRequest(op, s) /\ \E c \in Statuses \ SaysNothingLate(op, s, net) :
               behav = [x \in Configured(op, net) |-> IF x = s THEN "late-" \o Code(c) ELSE others]
=============================================================================
