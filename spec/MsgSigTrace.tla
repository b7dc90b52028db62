----------------------------- MODULE MsgSigTrace -----------------------------
(***************************************************************************)
(* Recorded histories of signing and checking, decided by ECDSA over       *)
(* SHA-256 (Script.SigOk: strict DER, low S).                              *)
(*  r.signs  [pub, data, sig, exc];  r.checks [pub, data, sig, ok, exc]    *)
(***************************************************************************)
EXTENDS Script, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
TInit == k \in 1..Len(Trace)
Has(seq, x) == \E i \in 1..Len(seq) : seq[i] = x
Genuine(pub, data, sig) == sig # "" /\ SigOk(Append(FromHex(sig), 1), FromHex(pub), SHA256(FromHex(data)))
RPart(sig) == LET b == FromHex(sig) IN SubSeq(b, 5, 4 + b[4])
Fail(r) ==
    LET ok == {i \in 1..Len(r.signs) : r.signs[i].exc = <<>>} IN
    {c \in {"sign-error", "signature-invalid", "nonce-reused", "not-deterministic", "accepted-forgery", "refused-genuine", "refusal-kind"} :
      CASE c = "sign-error" -> ok # 1..Len(r.signs)
        [] c = "signature-invalid" -> \E i \in ok : ~Genuine(r.signs[i].pub, r.signs[i].data, r.signs[i].sig)
        [] c = "nonce-reused" -> \E i, j \in ok : /\ (r.signs[i].secret # r.signs[j].secret \/ r.signs[i].data # r.signs[j].data)
                                                  /\ Len(r.signs[i].sig) > 20 /\ Len(r.signs[j].sig) > 20 /\ RPart(r.signs[i].sig) = RPart(r.signs[j].sig)
        [] c = "not-deterministic" -> \E i, j \in ok : /\ r.signs[i].secret = r.signs[j].secret /\ r.signs[i].data = r.signs[j].data /\ r.signs[i].sig # r.signs[j].sig
        [] c = "accepted-forgery" -> \E i \in 1..Len(r.checks) : LET x == r.checks[i] IN x.exc = <<>> /\ x.ok /\ ~Genuine(x.pub, x.data, x.sig)
        [] c = "refused-genuine" -> \E i \in 1..Len(r.checks) : LET x == r.checks[i] IN (x.exc # <<>> \/ ~x.ok) /\ Genuine(x.pub, x.data, x.sig)
        [] c = "refusal-kind" -> \E i \in 1..Len(r.checks) : LET x == r.checks[i] IN x.exc # <<>> /\ ~Has(x.exc, "ValueError")}
TNext == /\ k <= Len(Trace) /\ k' = Len(Trace) + k
         /\ PrintT("V " \o ToJson([k |-> k, fail |-> SetToSeq(Fail(Trace[k]))]))
=============================================================================
