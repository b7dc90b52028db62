------------------------------ MODULE Payment -------------------------------
(***************************************************************************)
(* What a payment transaction must be (C01-C04, C17, C20, C24): the        *)
(* request on one side, the bytes of the transaction on the other.         *)
(*                                                                         *)
(* A request r:                                                            *)
(*   r.w      [multi, net, pubs, m]       the wallet (public keys as hex)  *)
(*   r.coins  coins offered, in order: [out, amt, amt8, q, seg, seq, spk]  *)
(*            (q = recorded virtual size in quarter bytes)                 *)
(*   r.outs   [addr, amt, n, d, per]: amt satoshi, asked for as n / 10^d   *)
(*            units of per satoshi each; r.leftover, r.prep  addresses or "" *)
(*   r.absolute, r.fee (big), r.rate, r.combine, r.msg (hex), r.rbf        *)
(*   r.hint   indices of coins that may match exactly, or <<>>             *)
(***************************************************************************)
EXTENDS Script, Address

\* The amount asked for, in satoshi: the floor of what the units come to.
Asked(o) == LET x == Mul(o.n, o.per)  y == Mul(o.amt, Pow10(o.d)) IN Le(y, x) /\ Lt(x, Add(y, Pow10(o.d)))

Hex(s) == FromHex(s)
Big(a) == a

\* ---------------------------------------------------------------- wallets
Redeem(w) == <<80 + w.m>> \o Cat([i \in 1..Len(w.pubs) |-> <<Len(Hex(w.pubs[i]))>> \o Hex(w.pubs[i])]) \o <<80 + Len(w.pubs), 174>>
LegacySpk(w) == IF w.multi THEN P2SH(Hash160(Redeem(w))) ELSE P2PKH(Hash160(Hex(w.pubs[1])))
SegwitSpk(w) == IF w.multi THEN P2SH(Hash160(<<0, 32>> \o SHA256(Redeem(w))))
                ELSE P2SH(Hash160(<<0, 20>> \o Hash160(Hex(w.pubs[1]))))

\* ---------------------------------------------------------------- request
ChangeSpk(r) ==
    IF r.leftover # "" THEN AddrOf(r.leftover).script
    ELSE IF r.prep # "" THEN AddrOf(r.prep).script
    ELSE IF \E i \in 1..Len(r.coins) : r.coins[i].seg THEN SegwitSpk(r.w) ELSE LegacySpk(r.w)
Target(r) == SumBig([i \in 1..Len(r.outs) |-> r.outs[i].amt])
Chunks(r) == (Len(Hex(r.msg)) + 79) \div 80

\* ---------------------------------------------------- the library's estimate
SumInt(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
CountBytes(n) == IF n < 256 THEN 1 ELSE IF n < 65536 THEN 2 ELSE 3
PaymentSize(r) == SumInt([i \in 1..Len(r.outs) |-> Len(AddrOf(r.outs[i].addr).script) + 9]) + 92 * Chunks(r)
Quarters(r, sel) == SumInt([i \in 1..Len(sel) |-> r.coins[sel[i]].q])
AnySeg(r, sel) == \E i \in 1..Len(sel) : r.coins[sel[i]].seg
Estimate(r, sel) ==
    (Quarters(r, sel)
       + 4 * (CountBytes(Len(sel)) + PaymentSize(r) + Len(ChangeSpk(r)) + 9 + CountBytes(Len(r.outs) + 2) + 8)
       + (IF AnySeg(r, sel) THEN 2 ELSE 0) + 3) \div 4
AgreedFee(r, sel) == IF r.absolute THEN r.fee ELSE Mul(BigOf(Estimate(r, sel)), BigOf(r.rate))
AmtOf(r, sel) == SumBig([i \in 1..Len(sel) |-> r.coins[sel[i]].amt])
Needed(r, sel) == Add(Target(r), AgreedFee(r, sel))
Covers(r, sel) == Le(Needed(r, sel), AmtOf(r, sel))

\* Exact match: value left after paying for the selected coins, in quarter satoshi.
Goal4(r, sel) == Add(MulSmall(Add(Target(r), Mul(BigOf(8 + PaymentSize(r) + 1), BigOf(r.rate))), 4),
                     Mul(BigOf(Quarters(r, sel)), BigOf(r.rate)))
InWindow(r, sel) == LET v == MulSmall(AmtOf(r, sel), 4)  g == Goal4(r, sel) IN
                    Le(g, v) /\ Le(v, Add(g, Mul(BigOf(4 * 182), BigOf(r.rate))))
Economic(r, i) == Lt(Mul(BigOf(r.coins[i].q), BigOf(r.rate)), MulSmall(r.coins[i].amt, 4))
MatchExists(r) ==
    /\ ~r.combine /\ ~r.absolute
    /\ \/ /\ r.hint # <<>> /\ Len(r.coins) <= 17      \* a match the request was built around
          /\ \A i \in 1..Len(r.hint) : Economic(r, r.hint[i])
          /\ InWindow(r, r.hint)
       \/ /\ Len(r.coins) <= 8
          /\ \E S \in SUBSET {i \in 1..Len(r.coins) : Economic(r, i)} : S # {} /\ InWindow(r, SetToSeq(S))

\* ---------------------------------------------------------------- verdicts
All(r) == [i \in 1..Len(r.coins) |-> i]
CoinsAt(r, t, j) == LET h == ToHex(t.ins[j].prev) IN {i \in 1..Len(r.coins) : r.coins[i].out = h}

ShortageClauses(r) ==
    {c \in {"false-shortage"} : Covers(r, All(r)) \/ MatchExists(r)}

IsData(o) == o.script # <<>> /\ o.script[1] = 106
OutClauses(r, t) ==
    LET n == Len(r.outs)
        total == Len(t.outs)
        datas == {i \in 1..total : IsData(t.outs[i])}
        nd == Cardinality(datas)
        nc == total - nd - n
        chunk(i) == IF Len(t.outs[i].script) = 1 THEN NoOp ELSE ReadOp(t.outs[i].script, 2)
    IN  {c \in {"payment-missing", "payment-wrong", "extra-output", "change-script", "change-empty", "message-position", "message-value", "message-push", "message-text"} :
         CASE c = "payment-missing" -> nc < 0
           [] c = "extra-output" -> nc > 1
           [] c = "payment-wrong" -> \E i \in 1..n : i > total \/ ~Asked(r.outs[i]) \/
                (i <= total /\ (OutValue(t.outs[i]) # r.outs[i].amt \/ t.outs[i].script # AddrOf(r.outs[i].addr).script))
           [] c = "change-script" -> nc = 1 /\ t.outs[n+1].script # ChangeSpk(r)
           [] c = "change-empty" -> nc = 1 /\ OutValue(t.outs[n+1]) = <<>>
           [] c = "message-position" -> \E i \in datas : i <= total - nd
           [] c = "message-value" -> \E i \in datas : OutValue(t.outs[i]) # <<>>
           [] c = "message-push" -> \E i \in datas : LET o == chunk(i) IN
                ~o.ok \/ o.op # -1 \/ o.next # Len(t.outs[i].script) + 1 \/ Len(o.data) > 80 \/ Len(o.data) = 0
           [] c = "message-text" ->
                Cat([k \in 1..nd |-> LET i == total - nd + k IN IF IsData(t.outs[i]) THEN chunk(i).data ELSE <<>>]) # Hex(r.msg)}

MinSeq(a) == \* the lower of a coin's sequence number (4 bytes LE) and 0xfffffffd
    IF a[4] = 255 /\ a[3] = 255 /\ a[2] = 255 /\ a[1] > 253 THEN <<253, 255, 255, 255>> ELSE a

CoinClauses(r, t) ==
    LET nin == Len(t.ins)
        at == [j \in 1..nin |-> CoinsAt(r, t, j)]
    IN  IF \E j \in 1..nin : at[j] = {} THEN {"coin-foreign"}
        ELSE LET sel == [j \in 1..nin |-> CHOOSE i \in at[j] : TRUE]
                 paid == TotalOut(t)
                 in == AmtOf(r, sel)
                 over == Lt(in, paid)
                 fee == Sub(in, paid)
                 changed == Len(t.outs) > Len(r.outs) + Cardinality({i \in 1..Len(t.outs) : IsData(t.outs[i])})
                 agreed == AgreedFee(r, sel)
                 exact == ~r.absolute /\ ~r.combine /\ ~changed /\ InWindow(r, sel)
             IN  {c \in {"coin-twice", "combine-order", "overspent", "fee-absolute", "fee-rate", "missed-match", "over-selected", "sequence"} :
                  CASE c = "coin-twice" -> \E i, j \in 1..nin : i < j /\ sel[i] = sel[j]
                    [] c = "combine-order" -> r.combine /\ sel # All(r)
                    [] c = "overspent" -> over
                    [] c = "fee-absolute" -> r.absolute /\ (over \/ fee # r.fee)
                    [] c = "fee-rate" -> ~r.absolute /\ (over \/ (fee # agreed /\ ~exact))
                    [] c = "missed-match" -> ~exact /\ MatchExists(r)
                    [] c = "over-selected" -> ~r.combine /\ ~exact /\ \E k \in 1..(nin - 1) : Covers(r, SubSeq(sel, 1, k))
                    [] c = "sequence" -> \E j \in 1..nin : t.ins[j].seq #
                          (IF r.rbf THEN MinSeq(Hex(r.coins[sel[j]].seq)) ELSE Hex(r.coins[sel[j]].seq))}

\* The finished transaction f (after any co-signers).
ValidClauses(r, t, f) ==
    LET nin == Len(f.ins)
        at == [j \in 1..nin |-> CoinsAt(r, f, j)]
    IN  IF \E j \in 1..nin : at[j] = {} THEN {"coin-foreign"}
        ELSE LET sel == [j \in 1..nin |-> CHOOSE i \in at[j] : TRUE] IN
             {c \in {"input-invalid", "cosign-changed"} :
               CASE c = "input-invalid" -> \E j \in 1..nin :
                        LET coin == r.coins[sel[j]] IN ~InputValid(f, j, Hex(coin.spk), Hex(coin.amt8))
                 [] c = "cosign-changed" ->
                        \/ f.version # t.version \/ f.lock # t.lock \/ f.outs # t.outs \/ Len(f.ins) # Len(t.ins)
                        \/ \E j \in 1..nin : f.ins[j].prev # t.ins[j].prev \/ f.ins[j].seq # t.ins[j].seq}

\* Real fee rate: within a few bytes below, a bounded allowance above.
RateClauses(r, f) ==
    IF r.absolute \/ ~r.std \/ \E j \in 1..Len(f.ins) : CoinsAt(r, f, j) = {} THEN {}
    ELSE LET nin == Len(f.ins)
             sel == [j \in 1..nin |-> CHOOSE i \in CoinsAt(r, f, j) : TRUE]
             in == AmtOf(r, sel)
             out == TotalOut(f)
             fee == Sub(in, out)
             vs4 == 4 * VSize(f)
             changed == Len(f.outs) > Len(r.outs) + Cardinality({i \in 1..Len(f.outs) : IsData(f.outs[i])})
             slack4 == 4 * nin * (2 * r.w.m + 3) + 4 * 92 * (IF r.msg # "" THEN 1 ELSE 0) + (IF changed THEN 0 ELSE 4 * (182 + 60)) + 16
         IN  IF Lt(in, out) THEN {"rate-low"}
             ELSE (IF Lt(MulSmall(fee, 4), Mul(BigOf(vs4 - 12 - nin), BigOf(r.rate))) THEN {"rate-low"} ELSE {})
                  \cup (IF Lt(Mul(BigOf(vs4 + slack4), BigOf(r.rate)), MulSmall(fee, 4)) THEN {"rate-high"} ELSE {})
=============================================================================
