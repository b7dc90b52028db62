--------------------------------- MODULE Tx ---------------------------------
(* Bitcoin transactions: parsing, serialisation, identifier, weight, digests. *)
EXTENDS Bytes, BigNat

BadTx == [ok |-> FALSE, version |-> <<>>, segwit |-> FALSE, ins |-> <<>>, outs |-> <<>>, lock |-> <<>>]

Upto(n) == [i \in 1..n |-> i]

ReadIn(b, p) ==
    LET o == ReadN(b, p, 36)
        s == IF o.ok THEN ReadVarBytes(b, o.next) ELSE o
        q == IF s.ok THEN ReadN(b, s.next, 4) ELSE s
    IN  IF o.ok /\ s.ok /\ q.ok
        THEN [ok |-> TRUE, next |-> q.next, val |-> [prev |-> o.val, script |-> s.val, seq |-> q.val, wit |-> <<>>]]
        ELSE [ok |-> FALSE, next |-> p, val |-> [prev |-> <<>>, script |-> <<>>, seq |-> <<>>, wit |-> <<>>]]
ReadOut(b, p) ==
    LET a == ReadN(b, p, 8)
        s == IF a.ok THEN ReadVarBytes(b, a.next) ELSE a
    IN  IF a.ok /\ s.ok
        THEN [ok |-> TRUE, next |-> s.next, val |-> [amt |-> a.val, script |-> s.val]]
        ELSE [ok |-> FALSE, next |-> p, val |-> [amt |-> <<>>, script |-> <<>>]]

\* n repetitions of a reader.
Many(R(_, _), b, p, n) ==
    FoldLeft(LAMBDA s, i : IF ~s.ok THEN s
                           ELSE LET r == R(b, s.next) IN
                                IF r.ok THEN [ok |-> TRUE, next |-> r.next, val |-> Append(s.val, r.val)]
                                ELSE [ok |-> FALSE, next |-> p, val |-> <<>>],
             [ok |-> TRUE, next |-> p, val |-> <<>>], Upto(n))
\* A counted list; count is sanity-bounded by the bytes available.
Counted(R(_, _), b, p) ==
    LET c == ReadVarInt(b, p) IN
    IF c.ok /\ c.val <= Len(b) THEN Many(R, b, c.next, c.val) ELSE [ok |-> FALSE, next |-> p, val |-> <<>>]
ReadWit(b, p) == Counted(ReadVarBytes, b, p)

ParseTx(b) ==
    IF Len(b) < 10 THEN BadTx
    ELSE LET sw == b[5] = 0 /\ b[6] = 1
             i == Counted(ReadIn, b, IF sw THEN 7 ELSE 5)
             o == IF i.ok THEN Counted(ReadOut, b, i.next) ELSE i
             w == IF o.ok /\ sw THEN Many(ReadWit, b, o.next, Len(i.val)) ELSE o
             l == IF i.ok /\ o.ok /\ w.ok THEN ReadN(b, w.next, 4) ELSE [ok |-> FALSE, next |-> 0, val |-> <<>>]
         IN  IF ~l.ok \/ l.next # Len(b) + 1 \/ i.val = <<>> THEN BadTx
             ELSE [ok |-> TRUE, version |-> SubSeq(b, 1, 4), segwit |-> sw,
                   ins |-> IF sw THEN [k \in 1..Len(i.val) |-> [i.val[k] EXCEPT !.wit = w.val[k]]] ELSE i.val,
                   outs |-> o.val, lock |-> l.val]

VarBytes(s) == VarInt(Len(s)) \o s
SerIn(x)  == x.prev \o VarBytes(x.script) \o x.seq
SerOut(x) == x.amt \o VarBytes(x.script)
SerWit(w) == VarInt(Len(w)) \o Cat([i \in 1..Len(w) |-> VarBytes(w[i])])
SerIns(tx)  == VarInt(Len(tx.ins))  \o Cat([i \in 1..Len(tx.ins)  |-> SerIn(tx.ins[i])])
SerOuts(tx) == VarInt(Len(tx.outs)) \o Cat([i \in 1..Len(tx.outs) |-> SerOut(tx.outs[i])])
SerLegacy(tx) == tx.version \o SerIns(tx) \o SerOuts(tx) \o tx.lock
SerFull(tx) == IF tx.segwit
               THEN tx.version \o <<0, 1>> \o SerIns(tx) \o SerOuts(tx)
                    \o Cat([i \in 1..Len(tx.ins) |-> SerWit(tx.ins[i].wit)]) \o tx.lock
               ELSE SerLegacy(tx)
\* A segwit serialisation with no witness at all is not well-formed (BIP-144).
WellFormed(tx) == tx.ok /\ (tx.segwit => \E i \in 1..Len(tx.ins) : tx.ins[i].wit # <<>>)

TxId(tx) == Rev(Hash256(SerLegacy(tx)))
Weight(tx) == 3 * Len(SerLegacy(tx)) + Len(SerFull(tx))
VSize(tx) == (Weight(tx) + 3) \div 4

\* ------------------------------------------------------------- digests
SigHashAll == <<1, 0, 0, 0>>
PreimageLegacy(tx, i, code) ==
    tx.version \o VarInt(Len(tx.ins))
    \o Cat([k \in 1..Len(tx.ins) |-> tx.ins[k].prev \o (IF k = i THEN VarBytes(code) ELSE <<0>>) \o tx.ins[k].seq])
    \o SerOuts(tx) \o tx.lock \o SigHashAll
DigestLegacy(tx, i, code) == Hash256(PreimageLegacy(tx, i, code))

PreimageSegwit(tx, i, code, amt8) ==
    tx.version
    \o Hash256(Cat([k \in 1..Len(tx.ins) |-> tx.ins[k].prev]))
    \o Hash256(Cat([k \in 1..Len(tx.ins) |-> tx.ins[k].seq]))
    \o tx.ins[i].prev \o VarBytes(code) \o amt8 \o tx.ins[i].seq
    \o Hash256(Cat([k \in 1..Len(tx.outs) |-> SerOut(tx.outs[k])]))
    \o tx.lock \o SigHashAll
DigestSegwit(tx, i, code, amt8) == Hash256(PreimageSegwit(tx, i, code, amt8))

OutValue(o) == FromLE(o.amt)
TotalOut(tx) == SumBig([i \in 1..Len(tx.outs) |-> OutValue(tx.outs[i])])
=============================================================================
