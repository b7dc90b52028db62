------------------------------- MODULE Base58 -------------------------------
(* Base58 and Base58Check on code-point / byte sequences. *)
EXTENDS Bytes

Alphabet58 == Codes("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")
Index58 == [c \in {Alphabet58[i] : i \in 1..58} |-> (CHOOSE i \in 1..58 : Alphabet58[i] = c) - 1]
IsBase58(s) == \A i \in 1..Len(s) : s[i] \in DOMAIN Index58

\* acc * mul + add over little-endian digits of the given radix.
MulAdd(acc, mul, add, radix) ==
    LET st == FoldLeft(LAMBDA s, d : LET v == d * mul + s.c IN [r |-> Append(s.r, v % radix), c |-> v \div radix],
                       [r |-> <<>>, c |-> add], acc)
    IN  IF st.c = 0 THEN st.r
        ELSE IF st.c < radix THEN Append(st.r, st.c)
        ELSE st.r \o <<st.c % radix, st.c \div radix>>

RECURSIVE Leading(_, _, _)
Leading(s, x, i) == IF i <= Len(s) /\ s[i] = x THEN Leading(s, x, i + 1) ELSE i - 1

\* s must satisfy IsBase58(s).
B58Decode(s) ==
    LET z == Leading(s, 49, 1)
        body == FoldLeft(LAMBDA acc, c : MulAdd(acc, 58, Index58[c], 256), <<>>, SubSeq(s, z + 1, Len(s)))
    IN  Rep(0, z) \o Rev(body)
B58Encode(b) ==
    LET z == Leading(b, 0, 1)
        body == FoldLeft(LAMBDA acc, x : MulAdd(acc, 256, x, 58), <<>>, SubSeq(b, z + 1, Len(b)))
    IN  Rep(49, z) \o [i \in 1..Len(body) |-> Alphabet58[body[Len(body) + 1 - i] + 1]]

Checksum(b) == SubSeq(Hash256(b), 1, 4)
B58CheckEncode(b) == B58Encode(b \o Checksum(b))
\* [ok, data]
B58CheckDecode(s) ==
    IF ~IsBase58(s) THEN [ok |-> FALSE, data |-> <<>>]
    ELSE LET d == B58Decode(s) IN
         IF Len(d) < 4 THEN [ok |-> FALSE, data |-> <<>>]
         ELSE LET p == SubSeq(d, 1, Len(d) - 4) IN
              [ok |-> SubSeq(d, Len(d) - 3, Len(d)) = Checksum(p), data |-> p]
=============================================================================
