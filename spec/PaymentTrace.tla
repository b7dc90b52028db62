---------------------------- MODULE PaymentTrace ----------------------------
(* Recorded payments judged by Payment.tla.                                 *)
EXTENDS Payment, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
TInit == k \in 1..Len(Trace)

Has(seq, x) == \E i \in 1..Len(seq) : seq[i] = x

Fail(r) ==
    IF r.coins = <<>> THEN IF r.exc = <<>> THEN {"no-coins"} ELSE {}
    ELSE IF r.exc # <<>>
    THEN IF Has(r.exc, "InsufficientFunds") THEN ShortageClauses(r)
         ELSE IF Has(r.exc, "ValueError") /\ \E i \in 1..Len(r.outs) : r.outs[i].amt = <<>> THEN {}   \* nothing asked for
         ELSE {"unexpected-error"}
    ELSE LET t == ParseTx(Hex(r.tx)) IN
         IF ~WellFormed(t) THEN {"malformed"}
         ELSE OutClauses(r, t) \cup CoinClauses(r, t)
              \cup (IF r.fexc # <<>> THEN {"cosign-error"}
                    ELSE LET f == ParseTx(Hex(r.final)) IN
                         IF ~WellFormed(f) THEN {"malformed-final"}
                         ELSE ValidClauses(r, t, f) \cup RateClauses(r, f))
              \cup (IF r.mode = "send" /\ r.id # ToHex(TxId(t)) THEN {"sent-id"} ELSE {})
              \cup (IF r.mode = "send" /\ r.sent # <<r.tx>> THEN {"sent-other"} ELSE {})
              \cup (IF r.mode = "prepare" /\ r.same = "no" THEN {"prepared-differs"} ELSE {})
              \cup (IF r.mode = "prepare" /\ r.leak THEN {"secret-leak"} ELSE {})

TNext == /\ k <= Len(Trace) /\ k' = Len(Trace) + k
         /\ PrintT("V " \o ToJson([k |-> k, fail |-> SetToSeq(Fail(Trace[k]))]))
=============================================================================
