------------------------------ MODULE AddrTrace ------------------------------
(* Recorded uses of address strings judged by Address.tla (C08, C10).      *)
EXTENDS Address, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
TInit == k \in 1..Len(Trace)
Has(seq, x) == \E i \in 1..Len(seq) : seq[i] = x
Fail(r) ==
    LET a == DecodeAddr(r.codes) IN
    IF r.valid = "yes" /\ ~a.ok THEN {"bad-scenario"}
    ELSE IF r.valid = "no" /\ a.ok THEN {"bad-scenario"}
    ELSE {c \in {"valid-refused", "wrong-script", "wrong-network", "network-refused", "bad-accepted", "bad-identified", "bad-paid", "bad-change", "refusal-kind", "payment-refused"} :
          CASE c = "valid-refused" -> a.ok /\ r.exc # <<>>
            [] c = "wrong-script" -> a.ok /\ r.exc = <<>> /\ r.script # ToHex(a.script)
            [] c = "network-refused" -> a.ok /\ r.nexc # <<>>
            [] c = "wrong-network" -> a.ok /\ r.nexc = <<>> /\ r.net # a.net
            [] c = "bad-accepted" -> ~a.ok /\ r.exc = <<>>
            [] c = "bad-identified" -> ~a.ok /\ r.nexc = <<>>
            [] c = "bad-paid" -> ~a.ok /\ r.pay /\ r.pexc = <<>>
            [] c = "bad-change" -> ~a.ok /\ r.pay /\ r.cexc = <<>>
            [] c = "payment-refused" -> a.ok /\ r.pay /\ r.pexc # <<>>
            [] c = "refusal-kind" -> ~a.ok /\ (\/ r.exc # <<>> /\ ~Has(r.exc, "ValueError")
                                               \/ r.nexc # <<>> /\ ~Has(r.nexc, "ValueError")
                                               \/ r.pay /\ r.pexc # <<>> /\ ~Has(r.pexc, "ValueError")
                                               \/ r.pay /\ r.cexc # <<>> /\ ~Has(r.cexc, "ValueError"))}
TNext == /\ k <= Len(Trace) /\ k' = Len(Trace) + k
         /\ PrintT("V " \o ToJson([k |-> k, fail |-> SetToSeq(Fail(Trace[k]))]))
=============================================================================
