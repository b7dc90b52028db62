------------------------------- MODULE Script -------------------------------
(***************************************************************************)
(* The part of the Bitcoin script machine that bit's scripts can reach, as *)
(* a step function over <<position, stack>>, and the consensus rules for   *)
(* spending legacy, P2SH and (nested) witness-program outputs.             *)
(***************************************************************************)
EXTENDS Tx

\* One parsed operation at position p: [ok, op, data, next]; op = -1 for a push.
NoOp == [ok |-> FALSE, op |-> 0, data |-> <<>>, next |-> 0]
ReadOp(s, p) ==
    LET c == s[p] IN
    IF c <= 75 THEN LET r == ReadN(s, p + 1, c) IN IF r.ok THEN [ok |-> TRUE, op |-> -1, data |-> r.val, next |-> r.next] ELSE NoOp
    ELSE IF c = 76 THEN
        IF p + 1 > Len(s) THEN NoOp
        ELSE LET r == ReadN(s, p + 2, s[p+1]) IN IF r.ok THEN [ok |-> TRUE, op |-> -1, data |-> r.val, next |-> r.next] ELSE NoOp
    ELSE IF c = 77 THEN
        IF p + 2 > Len(s) THEN NoOp
        ELSE LET r == ReadN(s, p + 3, s[p+1] + 256 * s[p+2]) IN IF r.ok THEN [ok |-> TRUE, op |-> -1, data |-> r.val, next |-> r.next] ELSE NoOp
    ELSE IF c = 78 THEN NoOp
    ELSE IF c \in 81..96 THEN [ok |-> TRUE, op |-> -1, data |-> <<c - 80>>, next |-> p + 1]
    ELSE [ok |-> TRUE, op |-> c, data |-> <<>>, next |-> p + 1]

RECURSIVE PushesFrom(_, _, _)
PushesFrom(s, p, acc) ==
    IF p > Len(s) THEN [ok |-> TRUE, stack |-> acc]
    ELSE LET o == ReadOp(s, p) IN
         IF o.ok /\ o.op = -1 /\ Len(o.data) <= 520 THEN PushesFrom(s, o.next, Append(acc, o.data))
         ELSE [ok |-> FALSE, stack |-> acc]
\* A push-only script: its resulting stack.
Pushes(s) == PushesFrom(s, 1, <<>>)

Truthy(x) == \E i \in 1..Len(x) : x[i] # 0 /\ ~(i = Len(x) /\ x[i] = 128)
True1 == <<1>>
False0 == <<>>
SmallNum(x) == IF x = <<>> THEN 0 ELSE x[1]
IsSmallNum(x) == Len(x) <= 1 /\ (x # <<>> => x[1] \in 1..20)

\* Signature check against the digest of input i; sig carries its hash type byte.
\* Only SIGHASH_ALL is accepted (the only type bit may produce).
SigOk(sig, pub, digest) ==
    /\ Len(sig) >= 9
    /\ sig[Len(sig)] = 1
    /\ EcVerify(pub, digest, SubSeq(sig, 1, Len(sig) - 1))

\* CHECKMULTISIG: signatures must match keys in order.
RECURSIVE MultiOk(_, _, _)
MultiOk(sigs, pubs, digest) ==
    IF sigs = <<>> THEN TRUE
    ELSE IF Len(sigs) > Len(pubs) THEN FALSE
    ELSE IF SigOk(Head(sigs), Head(pubs), digest) THEN MultiOk(Tail(sigs), Tail(pubs), digest)
    ELSE MultiOk(sigs, Tail(pubs), digest)

Top(st) == st[Len(st)]
Pop(st, n) == SubSeq(st, 1, Len(st) - n)
BadRun == [ok |-> FALSE, stack |-> <<>>]

RECURSIVE RunFrom(_, _, _, _)
RunFrom(s, p, st, digest) ==
    IF p > Len(s) THEN [ok |-> TRUE, stack |-> st]
    ELSE LET o == ReadOp(s, p)  n == Len(st) IN
      IF ~o.ok THEN BadRun
      ELSE CASE o.op = -1 -> RunFrom(s, o.next, Append(st, o.data), digest)
        [] o.op = 118 -> IF n < 1 THEN BadRun ELSE RunFrom(s, o.next, Append(st, Top(st)), digest)               \* DUP
        [] o.op = 169 -> IF n < 1 THEN BadRun ELSE RunFrom(s, o.next, Append(Pop(st, 1), Hash160(Top(st))), digest) \* HASH160
        [] o.op = 135 -> IF n < 2 THEN BadRun                                                                    \* EQUAL
                         ELSE RunFrom(s, o.next, Append(Pop(st, 2), IF st[n] = st[n-1] THEN True1 ELSE False0), digest)
        [] o.op = 136 -> IF n < 2 \/ st[n] # st[n-1] THEN BadRun ELSE RunFrom(s, o.next, Pop(st, 2), digest)      \* EQUALVERIFY
        [] o.op = 172 -> IF n < 2 THEN BadRun                                                                    \* CHECKSIG
                         ELSE RunFrom(s, o.next, Append(Pop(st, 2), IF SigOk(st[n-1], st[n], digest) THEN True1 ELSE False0), digest)
        [] o.op = 174 ->                                                                                         \* CHECKMULTISIG
             IF n < 1 \/ ~IsSmallNum(st[n]) THEN BadRun
             ELSE LET k == SmallNum(st[n]) IN
                  IF n < k + 2 \/ ~IsSmallNum(st[n-k-1]) THEN BadRun
                  ELSE LET m == SmallNum(st[n-k-1]) IN
                       IF m > k \/ n < k + m + 3 THEN BadRun
                       ELSE LET pubs == SubSeq(st, n-k, n-1)
                                sigs == SubSeq(st, n-k-1-m, n-k-2)
                                dummy == st[n-k-2-m]
                            IN  IF dummy # <<>> THEN BadRun
                                ELSE RunFrom(s, o.next, Append(Pop(st, k + m + 3),
                                             IF MultiOk(sigs, pubs, digest) THEN True1 ELSE False0), digest)
        [] OTHER -> BadRun
Run(s, st, digest) == LET r == RunFrom(s, 1, st, digest) IN r.ok /\ r.stack # <<>> /\ Truthy(Top(r.stack))
RunClean(s, st, digest) == LET r == RunFrom(s, 1, st, digest) IN r.ok /\ Len(r.stack) = 1 /\ Truthy(Top(r.stack))

IsP2SH(spk) == Len(spk) = 23 /\ spk[1] = 169 /\ spk[2] = 20 /\ spk[23] = 135
IsWitProg(s) == Len(s) \in 4..42 /\ (s[1] = 0 \/ s[1] \in 81..96) /\ s[2] = Len(s) - 2
P2PKHCode(h) == <<118, 169, 20>> \o h \o <<136, 172>>

\* Witness program, version 0.
WitnessOk(tx, i, prog, amt8) ==
    LET w == tx.ins[i].wit  h == SubSeq(prog, 3, Len(prog)) IN
    IF prog[1] # 0 THEN FALSE
    ELSE IF Len(h) = 20 THEN
        /\ Len(w) = 2
        /\ Len(w[2]) = 33           \* segwit v0: compressed keys only (policy, and what bit promises)
        /\ Run(P2PKHCode(h), w, DigestSegwit(tx, i, P2PKHCode(h), amt8))
    ELSE IF Len(h) = 32 THEN
        /\ w # <<>>
        /\ SHA256(w[Len(w)]) = h
        /\ RunClean(w[Len(w)], SubSeq(w, 1, Len(w)-1), DigestSegwit(tx, i, w[Len(w)], amt8))
    ELSE FALSE

\* May input i of tx spend an output with script spk and value amt8 (8 bytes LE)?
InputValid(tx, i, spk, amt8) ==
    LET in == tx.ins[i]
        ps == Pushes(in.script)
    IN  IF ~ps.ok THEN FALSE
        ELSE IF IsWitProg(spk) THEN in.script = <<>> /\ WitnessOk(tx, i, spk, amt8)
        ELSE IF IsP2SH(spk) THEN
            /\ ps.stack # <<>>
            /\ LET rs == Top(ps.stack) IN
               /\ Hash160(rs) = SubSeq(spk, 3, 22)
               /\ IF IsWitProg(rs)
                  THEN /\ in.script = <<Len(rs)>> \o rs
                       /\ WitnessOk(tx, i, rs, amt8)
                  ELSE /\ in.wit = <<>>
                       /\ RunClean(rs, Pop(ps.stack, 1), DigestLegacy(tx, i, rs))
        ELSE /\ in.wit = <<>>
             /\ RunClean(spk, ps.stack, DigestLegacy(tx, i, spk))
=============================================================================
