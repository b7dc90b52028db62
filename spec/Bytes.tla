-------------------------------- MODULE Bytes --------------------------------
(* Byte sequences: slicing, little-endian integers, CompactSize ("varint"). *)
EXTENDS Naturals, Sequences, SequencesExt, Prim

Cat(ss) == Flatten(ss)
Slice(b, from, n) == SubSeq(b, from, from + n - 1)
Rev(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
Rep(x, n) == [i \in 1..n |-> x]

LE(n, k) == [i \in 1..k |-> (n \div (IF i = 1 THEN 1 ELSE IF i = 2 THEN 256 ELSE IF i = 3 THEN 65536 ELSE 16777216)) % 256]
LE2(n) == <<n % 256, n \div 256>>
LE4(n) == LE(n, 4)

\* CompactSize of a length below 2^31.
VarInt(n) == IF n < 253 THEN <<n>>
             ELSE IF n <= 65535 THEN <<253>> \o LE2(n)
             ELSE <<254>> \o LE4(n)

\* Read a CompactSize at position p.  Result [ok, val, next]; minimal encoding required.
NoRead == [ok |-> FALSE, val |-> 0, next |-> 0]
ReadVarInt(b, p) ==
    IF p > Len(b) THEN NoRead
    ELSE IF b[p] < 253 THEN [ok |-> TRUE, val |-> b[p], next |-> p + 1]
    ELSE IF b[p] = 253 THEN
        IF p + 2 > Len(b) THEN NoRead
        ELSE LET v == b[p+1] + 256 * b[p+2]
             IN IF v < 253 THEN NoRead ELSE [ok |-> TRUE, val |-> v, next |-> p + 3]
    ELSE IF b[p] = 254 THEN
        IF p + 4 > Len(b) \/ b[p+4] >= 128 THEN NoRead
        ELSE LET v == b[p+1] + 256 * b[p+2] + 65536 * b[p+3] + 16777216 * b[p+4]
             IN IF v < 65536 THEN NoRead ELSE [ok |-> TRUE, val |-> v, next |-> p + 5]
    ELSE NoRead

\* Read n raw bytes.
ReadN(b, p, n) == IF n <= Len(b) - p + 1 THEN [ok |-> TRUE, val |-> Slice(b, p, n), next |-> p + n]
                  ELSE [ok |-> FALSE, val |-> <<>>, next |-> 0]
ReadVarBytes(b, p) ==
    LET v == ReadVarInt(b, p) IN
    IF v.ok THEN ReadN(b, v.next, v.val) ELSE [ok |-> FALSE, val |-> <<>>, next |-> 0]
=============================================================================
