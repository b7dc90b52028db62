------------------------------- MODULE TxTrace -------------------------------
(* Recorded parse/serialise round trips and identifiers (C07).             *)
EXTENDS Tx, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
TInit == k \in 1..Len(Trace)

\* Serialisation without witness: parsed here, or for very large ones given
\* by the generator (r.legacy) and checked to be the same when small.
Stripped(r) == IF r.big THEN FromHex(r.legacy) ELSE SerLegacy(ParseTx(FromHex(r.hex)))
\* Bytes that may be no transaction any more: exactly one complete transaction
\* is read as itself; anything else is refused.
DmgFail(d) ==
    LET b == FromHex(d.hex)
        t == ParseTx(b)
        one == t.ok /\ SerFull(t) = b
        none == Len(b) > 6 /\ b[5] = 0 /\ (b[6] # 1 \/ b[7] = 0)   \* no inputs: not claimed
    IN  {c \in {"damaged-accepted", "damaged-misread", "good-refused"} :
          CASE c = "damaged-accepted" -> ~one /\ ~none /\ (d.exc = <<>> \/ d.idexc = <<>>)
            [] c = "damaged-misread" -> one /\ ((d.exc = <<>> /\ d.again # d.hex) \/ (d.idexc = <<>> /\ d.id # ToHex(TxId(t))))
            [] c = "good-refused" -> one /\ WellFormed(t) /\ (d.exc # <<>> \/ d.idexc # <<>>)}
Fail(r) == UNION {DmgFail(r.dmg[i]) : i \in 1..Len(r.dmg)} \cup
    IF ~r.big /\ ~WellFormed(ParseTx(FromHex(r.hex))) THEN {"bad-scenario"}
    ELSE {c \in {"parse-error", "roundtrip", "roundtrip-bytes", "id", "id-error", "bad-scenario"} :
          CASE c = "parse-error" -> r.exc # <<>>
            [] c = "roundtrip" -> r.exc = <<>> /\ r.again # r.hex
            [] c = "roundtrip-bytes" -> r.exc = <<>> /\ r.bytes # r.hex
            [] c = "id-error" -> r.idexc # <<>>
            [] c = "id" -> r.idexc = <<>> /\ r.id # ToHex(Rev(Hash256(Stripped(r))))
            [] c = "bad-scenario" -> ~r.big /\ r.legacy # "" /\ FromHex(r.legacy) # Stripped(r)}
TNext == /\ k <= Len(Trace) /\ k' = Len(Trace) + k
         /\ PrintT("V " \o ToJson([k |-> k, fail |-> SetToSeq(Fail(Trace[k]))]))
=============================================================================
