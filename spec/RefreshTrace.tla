---------------------------- MODULE RefreshTrace -----------------------------
(***************************************************************************)
(* Recorded refreshes: the wallet's coins, balance and history after every *)
(* step must be those of the specification's wallet.                       *)
(*  r.w  [multi, m, pubs, hasseg, net];  r.before: attributes of the fresh wallet *)
(*  r.steps [k, out, exc, legacy (seq of coin), segwit, ltx, stx, got]     *)
(*  a coin is [id, amt]; got = [coins: [id, amt, seg, q], balance, txs, ret, retbal] *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, BigNat, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
TInit == k \in 1..Len(Trace)
Has(seq, x) == \E i \in 1..Len(seq) : seq[i] = x
Count(seq, x) == Cardinality({i \in 1..Len(seq) : seq[i] = x})
Bag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])

\* Bytes needed to spend, in quarter bytes: least and most.
KeyBytes(w) == LET L(i) == w.publens[i] + 1 IN FoldLeft(LAMBDA a, b : a + b, 0, [i \in 1..Len(w.publens) |-> L(i)]) + 3
PushLen(n) == IF n < 76 THEN 1 ELSE IF n < 256 THEN 2 ELSE 3
VarLen(n) == IF n < 253 THEN 1 ELSE 3
ScriptLo(w) == IF w.multi THEN 1 + 72 * w.m + PushLen(KeyBytes(w)) + KeyBytes(w) ELSE 71 + 1 + w.publens[1] + 1
WantQ(w, seg) ==
    LET n == ScriptLo(w) IN
    IF ~seg THEN 4 * (36 + 4 + n + VarLen(n))
    ELSE 4 * (36 + 4 + 1 + (IF w.multi THEN 35 ELSE 23)) + n + 2
SizeOk(w, c) == LET q == WantQ(w, c.seg) IN c.q + 4 >= q /\ c.q <= q + 4 * (2 * (IF w.multi THEN w.m ELSE 1) + 4)

Plain(cs) == [i \in 1..Len(cs) |-> [id |-> cs[i].id, amt |-> cs[i].amt]]
CoinFail(w, got, leg, seg) ==
    LET n == Len(leg)  t == Len(got.coins) IN
    IF t # n + Len(seg) THEN {"coins"}
    ELSE (IF Bag(Plain(SubSeq(got.coins, 1, n)), leg) /\ Bag(Plain(SubSeq(got.coins, n + 1, t)), seg) THEN {} ELSE {"coins"})
         \cup (IF \E i \in 1..t : got.coins[i].seg # (i > n) THEN {"coin-kind"} ELSE {})
         \cup (IF \E i \in 1..t : ~SizeOk(w, got.coins[i]) THEN {"coin-size"} ELSE {})
         \cup (IF got.balance # SumBig([i \in 1..t |-> got.coins[i].amt]) THEN {"balance"} ELSE {})
TxFail(got, l, s) ==
    IF Len(got.txs) # Len(l) + Len(s) THEN {"history"}
    ELSE IF Bag(SubSeq(got.txs, 1, Len(l)), l) /\ Bag(SubSeq(got.txs, Len(l) + 1, Len(got.txs)), s) THEN {} ELSE {"history"}

StepFail(r, i) ==
    LET s == r.steps[i]
        prev == IF i = 1 THEN r.before ELSE r.steps[i-1].got
        ok == s.out = "ok"
    IN  (IF ok /\ s.exc # <<>> THEN {"refresh-error"} ELSE {})
        \cup (IF ~ok /\ s.exc = <<>> THEN {"failure-hidden"} ELSE {})
        \cup (IF ~ok /\ s.exc # <<>> /\ s.got # prev THEN {"partial-refresh"} ELSE {})
        \cup (IF ok /\ s.exc = <<>> /\ s.k = "unspents" THEN CoinFail(r.w, s.got, s.legacy, s.segwit) ELSE {})
        \cup (IF ok /\ s.exc = <<>> /\ s.k = "unspents" /\ s.got.txs # prev.txs THEN {"other-changed"} ELSE {})
        \cup (IF ok /\ s.exc = <<>> /\ s.k = "transactions" THEN TxFail(s.got, s.ltx, s.stx) ELSE {})
        \cup (IF ok /\ s.exc = <<>> /\ s.k = "transactions" /\ (s.got.coins # prev.coins \/ s.got.balance # prev.balance) THEN {"other-changed"} ELSE {})
        \cup (IF ok /\ s.exc = <<>> /\ s.ret # s.want THEN {"returned"} ELSE {})
Fail(r) == UNION {StepFail(r, i) : i \in 1..Len(r.steps)}
TNext == /\ k <= Len(Trace) /\ k' = Len(Trace) + k
         /\ PrintT("V " \o ToJson([k |-> k, fail |-> SetToSeq(Fail(Trace[k]))]))
=============================================================================
