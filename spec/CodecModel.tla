----------------------------- MODULE CodecModel ------------------------------
(***************************************************************************)
(* The specification's own encodings are faithful: addresses and key texts *)
(* decode to exactly what was encoded, a changed character is never        *)
(* another valid text, and contracts given as sets do not depend on order. *)
(***************************************************************************)
EXTENDS Contract, TLC
CONSTANTS Secrets, Subst
VARIABLES x, pos, ch
vars == <<x, pos, ch>>

SecretOf(p) == [i \in 1..32 |-> CASE p = "one" -> IF i = 32 THEN 1 ELSE 0
                                  [] p = "top" -> IF i <= 15 THEN 255 ELSE IF i = 16 THEN 254 ELSE i
                                  [] p = "ends01" -> IF i = 32 THEN 1 ELSE 7 * i
                                  [] p = "lead0" -> IF i <= 5 THEN 0 ELSE (31 * i) % 256
                                  [] OTHER -> (53 * i + 11) % 256]
Nets2 == {"main", "test"}
Init == /\ \/ \E p \in Secrets, c \in BOOLEAN, n \in Nets2 : x = [kind |-> "wif", p |-> p, c |-> c, n |-> n, v |-> 0, l |-> 32]
           \/ \E p \in Secrets, n \in Nets2 : x = [kind |-> "pkh", p |-> p, c |-> TRUE, n |-> n, v |-> 0, l |-> 20]
           \/ \E p \in Secrets, n \in Nets2 : x = [kind |-> "sh", p |-> p, c |-> TRUE, n |-> n, v |-> 0, l |-> 20]
        /\ pos = 0 /\ ch = 0
Pay(y) == SubSeq(SecretOf(y.p), 1, y.l)
Text(y) == CASE y.kind = "wif" -> WifOf(SecretOf(y.p), y.c, y.n)
             [] y.kind = "pkh" -> B58CheckEncode(<<PkhVersion(y.n)>> \o Pay(y))
             [] y.kind = "sh" -> B58CheckEncode(<<ShVersion(y.n)>> \o Pay(y))
Damage == pos = 0 /\ x' = x /\ \E i \in 1..Len(Text(x)), c \in Subst : pos' = i /\ ch' = Alphabet58[c]
Next == Damage
Shown == [Text(x) EXCEPT ![IF pos = 0 THEN 1 ELSE pos] = IF pos = 0 THEN Text(x)[1] ELSE ch]

Faithful ==
    pos = 0 =>
      LET d == B58CheckDecode(Shown) IN
      /\ d.ok
      /\ x.kind = "wif" => d.data = <<WifVersion(x.n)>> \o SecretOf(x.p) \o (IF x.c THEN <<1>> ELSE <<>>)
      /\ x.kind # "wif" => LET a == DecodeAddr(Shown) IN a.ok /\ a.net = x.n /\ a.script = (IF x.kind = "pkh" THEN P2PKH(Pay(x)) ELSE P2SH(Pay(x)))
DamageDetected == pos # 0 /\ Shown # Text(x) => ~B58CheckDecode(Shown).ok /\ ~DecodeAddr(Shown).ok

\* contracts
Ks == {<<3>> \o Rep(i, 32) : i \in {1, 2, 3}} \cup {<<2>> \o Rep(9, 32), <<4>> \o Rep(5, 64)}
Orders(S) == {q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]}
SetsAgree == pos = 0 => \A S \in {T \in SUBSET Ks : Cardinality(T) \in 1..3} :
    \A q \in Orders(S) : LET r(isset) == [keys |-> [i \in 1..Len(q) |-> ToHex(q[i])], set |-> isset] IN
        /\ Ordered(r(TRUE)) = SetToSortSeq(S, Less)
        /\ Ordered(r(FALSE)) = q
=============================================================================
