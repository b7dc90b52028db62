------------------------------ MODULE Contract -------------------------------
(***************************************************************************)
(* What a multisig contract means (C23): its redeem script, addresses and  *)
(* the entries that must be refused.  r.keys are the public keys as given  *)
(* (hex), r.set whether they came as a set.                                *)
(***************************************************************************)
EXTENDS Address, FiniteSets, FiniteSetsExt

Less(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                  D == {i \in 1..n : a[i] # b[i]}
              IN  IF D = {} THEN Len(a) < Len(b) ELSE a[Min(D)] < b[Min(D)]
Given(r) == [i \in 1..Len(r.keys) |-> FromHex(r.keys[i])]
Ordered(r) == IF r.set THEN SetToSortSeq({Given(r)[i] : i \in 1..Len(r.keys)}, Less) ELSE Given(r)
RedeemOf(keys, m) == <<80 + m>> \o Cat([i \in 1..Len(keys) |-> <<Len(keys[i])>> \o keys[i]]) \o <<80 + Len(keys), 174>>

MustRefuse(r) ==
    LET K == Ordered(r) IN
    \/ r.m < 1 \/ r.m > Len(K)
    \/ \E i \in 1..Len(K) : Len(K[i]) \notin {33, 65}
    \/ Len(RedeemOf(K, r.m)) > 520
    \/ ~(\E i \in 1..Len(K) : K[i] = FromHex(r.me))
    \/ r.keynet # r.net
ContractFail(r) ==
    IF r.exc # <<>> THEN (IF MustRefuse(r) THEN {} ELSE {"contract-refused"})
    ELSE IF MustRefuse(r) THEN {"contract-accepted"}
    ELSE LET K == Ordered(r)  rs == RedeemOf(K, r.m) IN
         {c \in {"redeem", "key-order", "address", "segwit-address", "threshold"} :
           CASE c = "redeem" -> r.redeem # ToHex(rs)
             [] c = "key-order" -> r.pubs # [i \in 1..Len(K) |-> ToHex(K[i])]
             [] c = "threshold" -> r.gotm # r.m
             [] c = "address" -> r.addr # ScriptAddress(rs, r.net)
             [] c = "segwit-address" -> r.seg # (IF \A i \in 1..Len(K) : Len(K[i]) = 33 THEN NestedScriptAddress(rs, r.net) ELSE <<>>)}
=============================================================================
