---------------------------- MODULE TimeoutsTrace ----------------------------
(***************************************************************************)
(* Recorded histories: each request with the time after which it would be  *)
(* given up (milliseconds; -1: never).                                     *)
(*  r.steps  [act, v, op, net, silent, reqs]                               *)
(***************************************************************************)
EXTENDS Services, Integers, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
TInit == k \in 1..Len(Trace)
Longest == 10000   \* the documented default is no longer than this
RECURSIVE InForce(_, _)
InForce(r, i) == IF i = 0 THEN 0 ELSE IF r.steps[i].act = "set" THEN r.steps[i].v ELSE InForce(r, i - 1)
Right(t, limit) == IF limit = 0 THEN t > 0 /\ t <= Longest ELSE t = limit
Fail(r) ==
    {c \in {"unbounded", "not-in-force", "nothing-asked"} :
      CASE c = "unbounded" -> \E i \in 1..Len(r.steps) : \E j \in 1..Len(r.steps[i].reqs) : r.steps[i].reqs[j] < 0
        [] c = "not-in-force" -> \E i \in 1..Len(r.steps) : \E j \in 1..Len(r.steps[i].reqs) :
              r.steps[i].reqs[j] >= 0 /\ ~Right(r.steps[i].reqs[j], InForce(r, i))
        [] c = "nothing-asked" -> \E i \in 1..Len(r.steps) : r.steps[i].act = "ask" /\ r.steps[i].reqs = <<>>}
TNext == /\ k <= Len(Trace) /\ k' = Len(Trace) + k
         /\ PrintT("V " \o ToJson([k |-> k, fail |-> SetToSeq(Fail(Trace[k]))]))
=============================================================================
