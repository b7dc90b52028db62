----------------------------- MODULE VanityTrace -----------------------------
(***************************************************************************)
(* Recorded searches: r.prefix (code points), r.exc, r.hang, r.pairs       *)
(* (sequence of [wif, addr] reported), r.left: worker processes that did   *)
(* not end with the search.                                                *)
(***************************************************************************)
EXTENDS Address, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
TInit == k \in 1..Len(Trace)
Has(seq, x) == \E i \in 1..Len(seq) : seq[i] = x
Allowed(c) == c \in DOMAIN Index58
Full(p) == IF p # <<>> /\ p[1] = 49 THEN p ELSE <<49>> \o p
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Owns(wif, addr) ==
    LET d == B58CheckDecode(wif) IN
    /\ d.ok /\ Len(d.data) \in {33, 34} /\ d.data[1] = 128
    /\ Len(d.data) = 34 => d.data[34] = 1
    /\ PkhAddress(EcPub(SubSeq(d.data, 2, 33), Len(d.data) = 34), "main") = addr
Fail(r) ==
    IF \E i \in 1..Len(r.prefix) : ~Allowed(r.prefix[i])
    THEN IF r.pairs # <<>> \/ ~Has(r.exc, "ValueError") THEN {"bad-prefix-accepted"} ELSE {}
    ELSE {c \in {"no-answer", "failed", "reports", "no-match", "not-owner", "workers-left"} :
          CASE c = "no-answer" -> r.hang
            [] c = "failed" -> ~r.hang /\ r.exc # <<>>
            [] c = "reports" -> ~r.hang /\ r.exc = <<>> /\ Len(r.pairs) # 1
            [] c = "no-match" -> \E i \in 1..Len(r.pairs) : ~Starts(r.pairs[i].addr, Full(r.prefix))
            [] c = "not-owner" -> \E i \in 1..Len(r.pairs) : ~Owns(r.pairs[i].wif, r.pairs[i].addr)
            [] c = "workers-left" -> ~r.hang /\ r.left}
TNext == /\ k <= Len(Trace) /\ k' = Len(Trace) + k
         /\ PrintT("V " \o ToJson([k |-> k, fail |-> SetToSeq(Fail(Trace[k]))]))
=============================================================================
