--------------------------- MODULE FreshKeysTrace ----------------------------
(***************************************************************************)
(* Keys made in a recorded history: in the group range, all different,     *)
(* compressed, of the class's network, and (where many were made) with     *)
(* every one of their 256 bits varying.                                    *)
(*  r.keys  [secret, net, wif, addr, want, exc]                            *)
(***************************************************************************)
EXTENDS Address, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
TInit == k \in 1..Len(Trace)
Order == FromHex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
RECURSIVE Below(_, _, _)
Below(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Below(a, b, i + 1)
InRange(s) == Len(s) = 32 /\ (\E i \in 1..32 : s[i] # 0) /\ Below(s, Order, 1)
Bit(x, b) == (x \div (2^b)) % 2
Fail(r) ==
    LET ok == {i \in 1..Len(r.keys) : r.keys[i].exc = <<>>}
        sec == [i \in 1..Len(r.keys) |-> FromHex(r.keys[i].secret)]
    IN  IF ok # 1..Len(r.keys) THEN {"new-key-error"}
        ELSE IF \E i \in ok : ~InRange(sec[i]) THEN {"out-of-range"}
        ELSE {c \in {"repeated", "wif", "address", "constant-bit"} :
               CASE c = "repeated" -> Cardinality({sec[i] : i \in ok}) # Cardinality(ok)
                 [] c = "wif" -> \E i \in ok : r.keys[i].wif # WifOf(sec[i], TRUE, r.keys[i].want)
                 [] c = "address" -> \E i \in ok : r.keys[i].addr # PkhAddress(EcPub(sec[i], TRUE), r.keys[i].want)
                 [] c = "constant-bit" -> Cardinality(ok) >= 80 /\ \E j \in 1..32, b \in 0..7 : \A i1 \in ok : Bit(sec[i1][j], b) = Bit(sec[1][j], b)}
TNext == /\ k <= Len(Trace) /\ k' = Len(Trace) + k
         /\ PrintT("V " \o ToJson([k |-> k, fail |-> SetToSeq(Fail(Trace[k]))]))
=============================================================================
