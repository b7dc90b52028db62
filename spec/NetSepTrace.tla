----------------------------- MODULE NetSepTrace -----------------------------
(* Recorded payments and operations judged against NetSep.tla.             *)
EXTENDS Address, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
TInit == k \in 1..Len(Trace)
Has(seq, x) == \E i \in 1..Len(seq) : seq[i] = x
NetOf(a) == AddrOf(a).net
Fail(r) ==
    LET foreignOut == \E i \in 1..Len(r.outs) : NetOf(r.outs[i]) # r.net
        foreignChange == r.change # "" /\ NetOf(r.change) # r.net
        ok == r.exc = <<>>
    IN  {c \in {"foreign-paid", "foreign-change", "refusal-kind", "sent-anyway", "own-refused", "wrong-endpoint", "foreign-own-address", "foreign-key-accepted", "operation-failed"} :
          CASE c = "foreign-paid" -> r.pay /\ foreignOut /\ ok
            [] c = "foreign-change" -> r.pay /\ foreignChange /\ ok /\ r.nouts > Len(r.outs) + r.nmsg
            [] c = "refusal-kind" -> r.pay /\ (foreignOut \/ foreignChange) /\ ~ok /\ ~Has(r.exc, "ValueError")
            [] c = "sent-anyway" -> r.pay /\ (foreignOut \/ foreignChange) /\ ~ok /\ r.sent > 0
            [] c = "own-refused" -> r.pay /\ ~foreignOut /\ ~foreignChange /\ ~ok
            [] c = "wrong-endpoint" -> \E i \in 1..Len(r.contacted) : r.contacted[i] # r.net
            [] c = "foreign-own-address" -> \E i \in 1..Len(r.own) : NetOf(r.own[i]) # r.net
            [] c = "foreign-key-accepted" -> r.foreignkey
            [] c = "operation-failed" -> ~r.pay /\ ~ok}
TNext == /\ k <= Len(Trace) /\ k' = Len(Trace) + k
         /\ PrintT("V " \o ToJson([k |-> k, fail |-> SetToSeq(Fail(Trace[k]))]))
=============================================================================
